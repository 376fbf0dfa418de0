#!/usr/bin/env python3
"""Development-time tool: reads the generated message modules of a MXMessage tree and writes the
reference schema model (spec/schema.json) that the checks compare the code's behaviour with.
It is NOT run by any check: spec/schema.json is committed and reviewed (see DESIGN.md).

    python3 tools/extract_schema.py /repo spec/schema.json
"""
import re, glob, json, os, sys

STR = r'"((?:[^"\\]|\\.)*)"'

def unq(s):
    return json.loads('"' + s.replace("\\'", "'") + '"')

def parse_type(ty):
    card, boxed = '1', False
    t = ty.strip()
    wrap = []
    while True:
        m = re.fullmatch(r'(Option|Vec|Box)<(.*)>', t)
        if not m: break
        wrap.append(m[1]); t = m[2]
    w = [x for x in wrap if x != 'Box']
    card = {(): '1', ('Option',): '?', ('Vec',): '+', ('Option', 'Vec'): '*'}[tuple(w)]
    return card, t

def module(path):
    t = open(path, encoding='utf-8').read()
    types = {}
    root_rename = {}
    for m in re.finditer(r'((?:^#\[[^\n]*\]\n)+)pub (struct|enum) (\w+) \{\n(.*?)^\}\n', t, re.M | re.S):
        attrs, kind, name, body = m.groups()
        r = re.search(r'serde\(rename = ' + STR, attrs)
        if kind == 'enum':
            vs = re.findall(r'(?:(#\[default\])\s*)?#\[serde\(rename = ' + STR + r'\)\]\s*(\w+),', body)
            n = len(re.findall(r'^    (\w+),', body, re.M))
            assert n == len(vs), (path, name, n, len(vs))
            types[name] = {'kind': 'enum', 'codes': [unq(v[1]) for v in vs]}
        else:
            fs = []
            for f in re.finditer(r'#\[serde\(\s*rename = ' + STR + r'(.*?)\)\]\s*pub (\w+): (.*?),\n', body, re.S):
                card, ty = parse_type(re.sub(r'\s+', '', f[4]))
                skip = 'skip_serializing_if' in f[2]
                assert skip == (card in '?*'), (path, name, f[0])
                fs.append({'name': unq(f[1]), 'rust': f[3], 'card': card, 'type': ty, 'checks': []})
            n = len(re.findall(r'^    pub (\w+):', body, re.M))
            assert n == len(fs), (path, name, n, len(fs))
            types[name] = {'kind': 'struct', 'fields': fs}
            if r: types[name]['rename'] = unq(r[1])
    # validation
    for m in re.finditer(r'impl Validate for (\w+) \{\n(.*?)^\}\n', t, re.M | re.S):
        name, body = m.groups()
        ty = types[name]
        if ty['kind'] == 'enum': 
            assert 'helpers' not in body
            continue
        if 'helpers' not in body:
            ty['order'] = []
            continue
        body = body[body.index('{') + 1:]
        byrust = {f['rust']: f for f in ty['fields']}
        order = []
        toks = re.finditer(
            r'if let Some\(ref (?:val|vec)\) = self\.(?P<opt>\w+)(?P<gate>\s*&& config\.validate_optional_fields)?\s*\{'
            r'|for item in (?:vec|&self\.(?P<vec>\w+)) \{'
            r'|helpers::validate_length\(\s*(?P<lv>val|item|&self\.(?P<lf>\w+)),\s*' + STR + r',\s*(?P<mn>None|Some\(\d+\)),\s*(?P<mx>None|Some\(\d+\)),\s*&helpers::child_path\(path, ' + STR + r'\),\s*config,\s*collector,?\s*\)'
            r'|helpers::validate_pattern\(\s*(?P<pv>val|item|&self\.(?P<pf>\w+)),\s*' + STR + r',\s*' + STR + r',\s*&helpers::child_path\(path, ' + STR + r'\),\s*config,\s*collector,?\s*\)'
            r'|(?P<nv>val|item|self\s*\.(?P<nf>\w+))\s*\.validate\(\s*&helpers::child_path\(path, ' + STR + r'\),\s*config,\s*collector,?\s*\)', body)
        cur, gate = None, False
        seen = 0
        for k in toks:
            g = k.groupdict(); s = k.group(0)
            if s.startswith('if let'):
                cur, gate = g['opt'], bool(g['gate']); continue
            if s.startswith('for'):
                if g['vec']: cur, gate = g['vec'], False
                continue
            seen += 1
            strs = [x for x in k.groups()]
            lits = [unq(x) for x in re.findall(STR, s)]
            if 'validate_length' in s:
                fn = g['lf'] or cur; gt = gate if not g['lf'] else False
                f = byrust[fn]
                assert lits[0] == lits[1] == f['name'], (path, name, fn, lits)
                num = lambda x: None if x == 'None' else int(x[5:-1])
                c = {'k': 'len', 'min': num(g['mn']), 'max': num(g['mx']), 'gate': gt}
            elif 'validate_pattern' in s:
                fn = g['pf'] or cur; gt = gate if not g['pf'] else False
                f = byrust[fn]
                assert lits[0] == lits[2] == f['name'], (path, name, fn, lits)
                c = {'k': 'pat', 're': lits[1], 'gate': gt}
            else:
                fn = g['nf'] or cur; gt = gate if not g['nf'] else False
                f = byrust[fn]
                assert lits[0] == f['name'], (path, name, fn, lits)
                c = {'k': 'sub', 'gate': gt}
            assert g.get('lf') is None or f['card'] == '1'
            f['checks'].append(c)
            order.append(f['name'])
        n = len(re.findall(r'helpers::child_path', body))
        assert n == seen, (path, name, n, seen)
        ty['order'] = order
    for n, ty in types.items():
        if ty['kind'] == 'struct':
            assert 'order' in ty, (path, n)
            del ty['order']
            for f in ty['fields']:
                f.pop('rust')
                assert f['type'] in types or f['type'] in ('String', 'f64', 'bool'), (path, n, f)
    return types

def main(repo, out):
    reg = []
    rt = open(f'{repo}/src/message_registry.rs').read()
    for m in re.finditer(r'MessageTypeInfo \{\s*short_form: ' + STR + r',\s*full_form: ' + STR + r',\s*rust_type_name: ' + STR + r',\s*xml_element_name: ' + STR, rt):
        reg.append({'short': m[1], 'full': m[2], 'rust': m[3], 'element': m[4], 'module': m[2].replace('.', '_')})
    mods = {}
    for p in sorted(glob.glob(f'{repo}/src/document/*_*.rs')) + sorted(glob.glob(f'{repo}/src/header/bah_*.rs')):
        mods[os.path.basename(p)[:-3]] = {'types': module(p)}
    for name, m in mods.items():
        refd = {f['type'] for t in m['types'].values() if t['kind'] == 'struct' for f in t['fields']}
        roots = [n for n in m['types'] if n not in refd]
        m['unreferenced'] = roots
        if name.startswith('bah_'): m['root'] = 'BusinessApplicationHeaderV02'
        else:
            base = '_'.join(name.split('_')[:4])
            m['root'] = next(r['rust'] for r in reg if r['module'] == base)
        assert m['root'] in m['types'], name
    json.dump({'registry': reg, 'modules': mods}, open(out, 'w'), indent=None, separators=(',', ':'), sort_keys=False)
    print(len(reg), 'registry entries', len(mods), 'modules', sum(len(m['types']) for m in mods.values()), 'types')

main(*sys.argv[1:])
