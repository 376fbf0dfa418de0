//! String generation: samples from a pattern's HIR, near-miss strings, and wild text.
use crate::schema::{Chk, Field, Pat, schema};
use crate::tape::Tape;
use regex_syntax::hir::{Class, Hir, HirKind};

/// Sample from a pattern. `cap` bounds unbounded repetitions.
pub fn sample(h: &Hir, t: &mut Tape, cap: usize, out: &mut String) {
    match h.kind() {
        HirKind::Empty | HirKind::Look(_) => {}
        HirKind::Literal(l) => out.push_str(std::str::from_utf8(&l.0).unwrap()),
        HirKind::Class(c) => out.push(pick_class(c, t)),
        HirKind::Repetition(r) => {
            let lo = r.min as usize;
            let hi = r.max.map(|m| m as usize).unwrap_or(lo.max(cap)).min(lo.max(cap));
            let n = t.range(lo, hi.max(lo));
            for _ in 0..n {
                sample(&r.sub, t, (cap / 2).max(1), out);
            }
        }
        HirKind::Capture(c) => sample(&c.sub, t, cap, out),
        HirKind::Concat(v) => v.iter().for_each(|x| sample(x, t, cap, out)),
        HirKind::Alternation(v) => {
            let i = t.ix(v.len());
            sample(&v[i], t, cap, out)
        }
    }
}

fn pick_class(c: &Class, t: &mut Tape) -> char {
    let Class::Unicode(u) = c else { return 'x' };
    // restrict big classes (".", "\d") to a readable part first, sometimes anything
    let rs: Vec<(char, char)> = u.ranges().iter().map(|r| (r.start(), r.end())).collect();
    // prefer A / 0 / a as the simplest choice
    let simple: Vec<char> = ['A', '0', 'a', '1']
        .into_iter()
        .filter(|x| rs.iter().any(|(a, b)| a <= x && x <= b))
        .collect();
    if !simple.is_empty() && !t.chance(80) {
        return simple[0];
    }
    let ascii: Vec<(u32, u32)> = rs
        .iter()
        .filter(|(a, _)| (*a as u32) < 0x7f)
        .map(|(a, b)| ((*a as u32).max(0x20), (*b as u32).min(0x7e)))
        .filter(|(a, b)| a <= b)
        .collect();
    let total: u64 = ascii.iter().map(|(a, b)| (b - a + 1) as u64).sum();
    if total == 0 {
        return rs.first().map(|r| r.0).unwrap_or('x');
    }
    let mut k = t.below(total);
    for (a, b) in &ascii {
        let w = (b - a + 1) as u64;
        if k < w {
            return char::from_u32(a + k as u32).unwrap();
        }
        k -= w;
    }
    unreachable!()
}

pub fn limits(f: &Field) -> (usize, usize) {
    let (mut lo, mut hi) = (0, usize::MAX);
    for c in &f.checks {
        if let Chk::Len { min, max, .. } = c {
            lo = lo.max(min.unwrap_or(0));
            hi = hi.min(max.unwrap_or(usize::MAX));
        }
    }
    (lo, hi)
}

pub fn pats(f: &Field) -> Vec<&'static Pat> {
    f.checks
        .iter()
        .filter_map(|c| match c {
            Chk::Pat { re, .. } => Some(&schema().pats[*re]),
            _ => None,
        })
        .collect()
}

pub fn satisfies(f: &Field, v: &str) -> bool {
    let n = v.chars().count();
    let (lo, hi) = limits(f);
    n >= lo && n <= hi && pats(f).iter().all(|p| p.ok(v))
}

/// A value that violates the field's constraints, if it has any.
pub fn invalid(f: &Field, t: &mut Tape) -> String {
    for _ in 0..6 {
        let s = match t.ix(5) {
            0 => String::new(),
            1 if limits(f).1 < 1000 => "A".repeat(limits(f).1 + 1),
            2 => format!("{}~\u{e9}", valid(f, t)),
            3 => "\u{e9}".into(),
            _ => wild(t, 12),
        };
        if !satisfies(f, &s) {
            return s;
        }
    }
    wild(t, 12)
}

/// Values of the kinds real messages carry, in the spellings software likes to "normalize".
pub const TYPICAL: &[&str] = &[
    // dates and times
    "2024-02-29", "2023-12-31", "2024-01-01", "1999-01-01", "9999-12-31", "2024-03-31+02:00", "2024-03-31Z", "2024-02-30", "2024", "2024-03", "20240331",
    "2024-03-31T12:00:00Z", "2024-03-31T00:00:00", "2024-03-31T24:00:00+00:00", "2024-03-31T23:59:60Z", "2024-03-31T12:00:00.000Z", "2024-03-31T12:00:00.1+05:30",
    "2024-03-31T12:00:00.123456789-11:00", "2024-03-31T12:00:00+00:00", "2024-03-31T12:00:00-00:00", "2024-03-31T12:00:00+14:00", "2024-03-31T12:00:00+01:00", "2024-12-31T23:30:00-05:00",
    "-0044-03-15T00:00:00Z", "12:00:00", "12:00:00Z", "00:00:00+00:00", "P1D", "2024-03-31t12:00:00z", "2024-03-31 12:00:00",
    // identifiers
    "DEUTDEFF", "DEUTDEFFXXX", "DEUTDEFF500", "CHASUS33XXX", "BNPAFRPP", "BNPAFRPPXXX", "AAAAAA00", "deutdeff",
    "DE89370400440532013000", "GB29NWBK60161331926819", "GB29 NWBK 6016 1331 9268 19", "NO9386011117947", "de89370400440532013000", "MT84MALT011000012345MTLCAST001S",
    "529900T8BM49AURSDO55", "00000000000000000000", "5299000J2N45DDNE4Y28",
    "97ed4827-7b6f-4491-a06f-b548d5a7512d", "97ED4827-7B6F-4491-A06F-B548D5A7512D", "00000000-0000-4000-8000-000000000000", "97ed48277b6f4491a06fb548d5a7512d",
    "021000021", "000000001", "CHIPS0001", "USABA", "FEDWIRE", "GBDSC", "T2", "RTGS",
    // currencies, countries, codes
    "USD", "EUR", "JPY", "KWD", "XAU", "XXX", "ZZZ", "usd", "US", "DE", "GB", "UK", "ZZ", "de", "NORM", "HIGH", "URGP", "SDVA", "G001", "SALA", "INDA", "CLRG", "CRED", "DEBT", "SHAR", "SLEV",
    "ACCP", "ACSC", "RJCT", "PDNG", "BOOK", "INFO", "AC01", "AM04", "NARR", "FOCR", "DUPL", "CUST", "OTHR", "SCOR", "BBAN", "CACC", "Y", "N", "C", "D",
    // numbers kept as text
    "0", "1", "00", "01", "007", "0001", "1.0", "1.00", "1.50", "0.10", ".5", "5.", "-1", "-0", "+1", "1,000.00", "1.000,00", "1e3", "0x10", "999999999999999", "12345678901234567890", "99999999999999999999999999999999999", "1/2", "100%",
    // words
    "true", "false", "TRUE", "False", "yes", "null", "NULL", "None", "nil", "undefined", "NaN", "Infinity", "N/A", "NA", "NOTPROVIDED", "NONREF", "UNKNOWN", "TEST", "?", "-", "--", "/", "//", ".", "..", "...", ",", ":", "*", "_", "~",
    // references and free text
    "/ROC/12345", "/INS/CHASUS33", "//CH021000021", "+/ABC", "RFB/INV 2024-001", "INV-2024/001", "+41-791234567", "+1-2125551234", "a@b.example", "https://example.org/a?b=c&d=e#f", "C:\\temp\\x", "../x", "$100", "${x}", "{{x}}", "%s", "#1",
    "urn:iso:std:iso:20022:tech:xsd:pacs.008.001.08", "pacs.008.001.08", "pacs.009", "camt.053.001.08", "head.001.001.02", "swift.cbprplus.02", "swift.cbprplus.cov.03", "swift.cbprplus.stp.02", "swift.cbprplus.adv.03", "swift.cbprplus.mlp.01",
    "FIToFICstmrCdtTrf", "AppHdr", "Document", "MsgDefIdr", "xmlns", "UTF-8", "utf-8",
    "Müller & Söhne GmbH", "O'Neil", "Smith  Jones", "Smith   Jones", "A  B", "AT&T", "<none>", "\"quoted\"", "'quoted'", "John\tDoe", "Line 1\nLine 2", "Line 1\n\nLine 2", "ACME Corp.", "acme", "ACME", "Straße 1", "STRASSE 1", "İstanbul", "ﬁnance", "e\u{301}", "é", "Å", "Ａ１", "東京都", "Ελλάδα", "Москва", "שלום", "🏦 Bank", "👩‍👩‍👧",
];

/// Texts that look like something else.
pub const NUMERIC: &[&str] = &["007", "0", "1", "00", "1.0", "0.10", "1e3", "-1", "+1", "12345678901234567890", "true", "false", "null", "NaN", "TRUE", "0x10", "1,5", "A B", "A  B", "a"];

/// One of the typical values that satisfy the field.
fn typical(f: &Field, t: &mut Tape) -> Option<String> {
    use std::{cell::RefCell, collections::HashMap};
    thread_local! {
        static FIT: RefCell<HashMap<(usize, usize, Vec<usize>), Vec<&'static str>>> = RefCell::default();
    }
    let re = f.checks.iter().filter_map(|c| if let Chk::Pat { re, .. } = c { Some(*re) } else { None }).collect();
    let (lo, hi) = limits(f);
    FIT.with_borrow_mut(|m| {
        let v = m.entry((lo, hi, re)).or_insert_with(|| TYPICAL.iter().copied().filter(|s| satisfies(f, s)).collect());
        if v.is_empty() { None } else { Some(t.pick(v).to_string()) }
    })
}

/// A string that satisfies every constraint of the field and has no surrounding whitespace.
pub fn valid(f: &Field, t: &mut Tape) -> String {
    if t.chance(15)
        && let Some(s) = typical(f, t)
    {
        return s;
    }
    let (lo, hi) = limits(f);
    let ps = pats(f);
    let hi = hi.min(lo.max(1) + 400);
    for attempt in 0..12 {
        let mut s = String::new();
        if let Some(p) = ps.first() {
            let cap = match attempt {
                0..=5 => [1usize, 3, 8, 34, 139][t.ix(5)].min(hi.max(1)),
                6..=9 => 4,
                _ => 1,
            };
            sample(&p.hir, t, cap, &mut s);
        } else {
            let want = match t.ix(4) {
                0 => lo.max(1),
                1 => hi.min(lo.max(1) + t.ix(12)),
                2 => hi.min(lo.max(1) + t.ix(60)),
                _ => hi.min(lo.max(1) + 3),
            };
            for _ in 0..want {
                s.push(plain_char(t));
            }
        }
        let s = if s.chars().count() > hi { s.chars().take(hi).collect() } else { s };
        if s == s.trim() && !s.is_empty() && satisfies(f, &s) {
            return s;
        }
    }
    // pad/truncate deterministic fallback
    for base in ["A", "0", "AB", "A1", "abc"] {
        for n in lo.max(1)..=hi.min(lo.max(1) + 40) {
            let s: String = base.chars().cycle().take(n).collect();
            if satisfies(f, &s) {
                return s;
            }
        }
    }
    let mut z = Tape::replay(vec![]);
    let mut s = String::new();
    if let Some(p) = ps.first() {
        sample(&p.hir, &mut z, 1, &mut s);
    }
    assert!(satisfies(f, &s), "generator cannot satisfy field {} ({s:?})", f.name);
    s
}

fn plain_char(t: &mut Tape) -> char {
    const C: &[u8] = b"A0aZz9/-?:().,'+ ";
    if t.chance(40) { C[t.ix(C.len())] as char } else { 'A' }
}

const SNIPPETS: &[&str] = &[
    "&", "<", ">", "\"", "'", "&amp;", "&lt;", "&#65;", "&#x41;", "]]>", "<![CDATA[", "<!--", "-->",
    "</Document>", "<Document>", "<AppHdr>", "</AppHdr>", "<Envelope>", "</Envelope>", "<?xml?>",
    "<BusinessApplicationHeaderV02>", "</BusinessApplicationHeaderV02>",
    "<FIToFICustomerCreditTransferV08>", "<MsgDefIdr>pacs.009.001.08</MsgDefIdr>",
    "xmlns=\"x\"", "xmlns:xsi=\"y\"", "<MsgDefIdr>", "<FIToFICstmrCdtTrf>", "\\", "\\n", "\"}", "{{", "%", "$value", "@Ccy", "null", "true", "1e5", "NaN",
    "é", "ß", "日本", "🏦", "\u{200b}", "\u{feff}", "\u{e000}", "\u{10ffff}", "\u{85}", "\u{2028}", "\u{a0}", "\u{301}",
];

/// A long text around a size at which buffers end: short texts repeated up to that many bytes.
fn long(t: &mut Tape, part: fn(&mut Tape, usize) -> String) -> String {
    let n = *t.pick(&[64, 100, 128, 255, 256, 350, 512, 1000, 1024, 2000, 2048, 4096, 8192, 16384, 65536]);
    let want = (n + t.ix(5)).saturating_sub(2);
    let p = part(t, 6);
    let q = part(t, 6);
    let mut s = String::new();
    if t.chance(50) {
        // all but the end is plain, so that a character may straddle the size
        s = "a".repeat(want.saturating_sub(p.len() / 2));
        s.push_str(&p);
        s.push_str(&q);
    } else {
        while s.len() < want {
            s.push_str(&p);
            s.push_str(&q);
            if p.len() + q.len() == 0 {
                s.push('a');
            }
        }
    }
    let r = s.trim().to_string();
    if r.is_empty() { "x".into() } else { r }
}

/// Any XML-legal text with no surrounding XML whitespace and at least one character.
pub fn wild(t: &mut Tape, maxlen: usize) -> String {
    if maxlen > 12 && t.chance(1) {
        return long(t, wild);
    }
    if maxlen > 6 && t.chance(6) {
        return t.pick(TYPICAL).to_string();
    }
    let mut s = String::new();
    let cap = match t.ix(4) {
        0 => 1,
        1 => 4,
        2 => 12,
        _ => maxlen.max(1),
    };
    let n = 1 + t.ix(cap);
    for _ in 0..n {
        match t.ix(8) {
            0 | 1 => s.push(plain_char(t)),
            2 => s.push(char::from_u32(0x20 + t.below(0x5f) as u32).unwrap()),
            3 | 4 => s.push_str(t.pick(SNIPPETS)),
            5 => s.push(*t.pick(&[' ', '\t', '\n', ' '])),
            6 if t.chance(10) => s.push(*t.pick(&['\u{a0}', '\u{2003}', '\u{3000}', '\u{feff}', '\u{85}', '\u{2028}', '\u{200b}'])),
            6 => s.push(char::from_u32(0xa1 + t.below(0x500) as u32).unwrap()),
            _ => {
                let c = t.below(0xf0000) as u32 + 0x100;
                s.push(match char::from_u32(c) {
                    Some(c) if c != '\u{fffe}' && c != '\u{ffff}' => c,
                    _ => 'x',
                })
            }
        }
    }
    // only XML white space is trimmed by XML readers
    let r = s.trim_matches([' ', '\t', '\n', '\r']).to_string();
    if r.is_empty() { "x".into() } else { r }
}

/// Any Unicode string: control characters, surrounding whitespace and the empty string included.
pub fn any(t: &mut Tape, maxlen: usize) -> String {
    if maxlen > 12 && t.chance(1) {
        return long(t, any);
    }
    if maxlen > 6 && t.chance(6) {
        return t.pick(TYPICAL).to_string();
    }
    let cap = *t.pick(&[1, 2, 6, maxlen.max(1)]);
    let n = t.ix(cap + 1);
    let mut s = String::new();
    for _ in 0..n {
        match t.ix(7) {
            0 | 1 => s.push(plain_char(t)),
            2 => s.push(char::from_u32(t.below(0x80) as u32).unwrap()),
            3 => s.push_str(t.pick(SNIPPETS)),
            4 => s.push(*t.pick(&[' ', '\t', '\n', '\r', '\0', '\u{b}', '\u{7f}', '\u{fffe}', '\u{ffff}', '"', '\\'])),
            5 => s.push(char::from_u32(0x80 + t.below(0x700) as u32).unwrap()),
            _ => s.push(char::from_u32(t.below(0x110000) as u32).unwrap_or('\u{fffd}')),
        }
    }
    s
}

/// Near-miss strings for a pattern: each edits one element of an otherwise matching sample.
/// Some of them may still match; the reference model decides.
pub fn near_misses(p: &Pat, t: &mut Tape) -> Vec<String> {
    let mut base = String::new();
    sample(&p.hir, t, 4, &mut base);
    let b: Vec<char> = base.chars().collect();
    let mut out = vec![];
    let mk = |v: Vec<char>| v.into_iter().collect::<String>();
    // boundary counts of every repetition
    let mut reps = 0;
    count_reps(&p.hir, &mut reps);
    for k in 0..reps {
        for over in [true, false] {
            let mut s = String::new();
            let mut ix = 0;
            sample_rep(&p.hir, t, k, over, &mut ix, &mut s);
            out.push(s);
        }
    }
    // one character just outside each class
    let mut classes = 0;
    count_classes(&p.hir, &mut classes);
    for k in 0..classes {
        let mut s = String::new();
        let mut ix = 0;
        sample_class(&p.hir, t, k, &mut ix, &mut s);
        out.push(s);
    }
    // whole-string edits
    for (pre, post) in [("", "!"), ("!", ""), ("", "\u{e9}"), ("\u{e9}", ""), ("", "0"), ("0", ""), ("", "A"), ("A", ""), ("a", ""), ("", "a"), ("", "\nA"), ("-", ""), ("", "/"), ("//", "")] {
        out.push(format!("{pre}{base}{post}"));
    }
    for _ in 0..3 {
        if b.is_empty() {
            break;
        }
        let i = t.ix(b.len());
        let mut v = b.clone();
        v.remove(i);
        out.push(mk(v));
        let mut v = b.clone();
        let c = v[i];
        v.insert(i, c);
        out.push(mk(v));
        let mut v = b.clone();
        v[i] = *t.pick(&['a', 'A', '0', '9', 'z', 'Z', '-', '.', '/', ' ', ';', '[', '\u{e9}', '\n', '\t', 'G', 'g', '_']);
        out.push(mk(v));
    }
    out.push(String::new());
    out.push(format!(" {base} "));
    out.push(format!("\t{base}\n"));
    out.push(base.to_lowercase());
    out.push(base.to_uppercase());
    out
}

/// Samples that match the pattern at the repetition and class boundaries.
pub fn boundary_matches(p: &Pat, t: &mut Tape) -> Vec<String> {
    let mut out = vec![];
    for cap in [1usize, 2, 30] {
        let mut s = String::new();
        sample(&p.hir, t, cap, &mut s);
        out.push(s);
    }
    let mut classes = 0;
    count_classes(&p.hir, &mut classes);
    for k in 0..classes {
        // every class exercised at its own range ends
        for e in 0..6 {
            let mut ix = 0;
            let mut s = String::new();
            sample_class_edge(&p.hir, t, k, e, &mut ix, &mut s);
            out.push(s);
        }
    }
    out.retain(|s| p.ok(s));
    out
}

fn count_reps(h: &Hir, n: &mut usize) {
    match h.kind() {
        HirKind::Repetition(r) => {
            *n += 1;
            count_reps(&r.sub, n)
        }
        HirKind::Capture(c) => count_reps(&c.sub, n),
        HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().for_each(|x| count_reps(x, n)),
        _ => {}
    }
}
fn count_classes(h: &Hir, n: &mut usize) {
    match h.kind() {
        HirKind::Class(_) | HirKind::Literal(_) => *n += 1,
        HirKind::Repetition(r) => count_classes(&r.sub, n),
        HirKind::Capture(c) => count_classes(&c.sub, n),
        HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().for_each(|x| count_classes(x, n)),
        _ => {}
    }
}
/// Sample, but the k-th repetition (pre-order) runs one under its minimum or one over its maximum.
fn sample_rep(h: &Hir, t: &mut Tape, k: usize, over: bool, ix: &mut usize, out: &mut String) {
    match h.kind() {
        HirKind::Repetition(r) => {
            let me = *ix;
            *ix += 1;
            let lo = r.min as usize;
            let n = if me == k {
                if over { r.max.map(|m| m as usize + 1).unwrap_or(lo + 2) } else { lo.saturating_sub(1) }
            } else {
                lo.max(1).min(r.max.unwrap_or(u32::MAX) as usize)
            };
            let save = *ix;
            for _ in 0..n {
                *ix = save;
                sample_rep(&r.sub, t, k, over, ix, out);
            }
            *ix = save;
            count_reps(&r.sub, ix);
        }
        HirKind::Capture(c) => sample_rep(&c.sub, t, k, over, ix, out),
        HirKind::Concat(v) => v.iter().for_each(|x| sample_rep(x, t, k, over, ix, out)),
        HirKind::Alternation(v) => {
            // take the alternative that contains repetition k, else the first
            let mut chosen = None;
            let mut at = *ix;
            for (i, x) in v.iter().enumerate() {
                let mut c = 0;
                count_reps(x, &mut c);
                if k >= at && k < at + c {
                    chosen = Some((i, at));
                }
                at += c;
            }
            let (i, start) = chosen.unwrap_or((0, *ix));
            *ix = start;
            sample_rep(&v[i], t, k, over, ix, out);
            *ix = at;
        }
        _ => sample(h, t, 2, out),
    }
}
fn walk_class(h: &Hir, t: &mut Tape, k: usize, ix: &mut usize, out: &mut String, f: &mut dyn FnMut(&Hir, &mut Tape) -> String) {
    match h.kind() {
        HirKind::Class(_) | HirKind::Literal(_) => {
            let me = *ix;
            *ix += 1;
            if me == k {
                let s = f(h, t);
                out.push_str(&s);
            } else {
                sample(h, t, 2, out);
            }
        }
        HirKind::Repetition(r) => {
            let save = *ix;
            let mut c = 0;
            count_classes(&r.sub, &mut c);
            let inside = k >= save && k < save + c;
            let lo = r.min as usize;
            let n = if inside { lo.max(1) } else { lo.max(1).min(r.max.unwrap_or(u32::MAX) as usize) };
            for i in 0..n {
                *ix = save;
                // alter just one of the repetitions
                if inside && i + 1 < n {
                    sample(&r.sub, t, 1, out);
                } else {
                    walk_class(&r.sub, t, k, ix, out, f);
                }
            }
            *ix = save + c;
        }
        HirKind::Capture(c) => walk_class(&c.sub, t, k, ix, out, f),
        HirKind::Concat(v) => v.iter().for_each(|x| walk_class(x, t, k, ix, out, f)),
        HirKind::Alternation(v) => {
            let mut chosen = None;
            let mut at = *ix;
            for (i, x) in v.iter().enumerate() {
                let mut c = 0;
                count_classes(x, &mut c);
                if k >= at && k < at + c {
                    chosen = Some((i, at));
                }
                at += c;
            }
            let (i, start) = chosen.unwrap_or((0, *ix));
            *ix = start;
            walk_class(&v[i], t, k, ix, out, f);
            *ix = at;
        }
        _ => sample(h, t, 2, out),
    }
}
fn sample_class(h: &Hir, t: &mut Tape, k: usize, ix: &mut usize, out: &mut String) {
    walk_class(h, t, k, ix, out, &mut |h, t| match h.kind() {
        HirKind::Class(Class::Unicode(u)) => {
            // a character adjacent to one of the ranges but outside the class
            let inside = |c: char| u.ranges().iter().any(|r| r.start() <= c && c <= r.end());
            let mut cands: Vec<char> = vec![];
            for r in u.ranges() {
                if let Some(c) = char::from_u32((r.start() as u32).wrapping_sub(1)) {
                    cands.push(c);
                }
                if let Some(c) = char::from_u32(r.end() as u32 + 1) {
                    cands.push(c);
                }
            }
            cands.extend(['\u{e9}', '|', 'a', 'A', '0', '-']);
            cands.retain(|c| !inside(*c) && (*c >= ' ' || *c == '\n'));
            if cands.is_empty() { "\n".to_string() } else { t.pick(&cands).to_string() }
        }
        HirKind::Literal(l) => {
            let s = std::str::from_utf8(&l.0).unwrap();
            match t.ix(3) {
                0 => String::new(),
                1 => "_".repeat(s.chars().count()),
                _ => format!("{s}{s}"),
            }
        }
        _ => String::new(),
    })
}
fn sample_class_edge(h: &Hir, t: &mut Tape, k: usize, e: usize, ix: &mut usize, out: &mut String) {
    walk_class(h, t, k, ix, out, &mut |h, t| match h.kind() {
        HirKind::Class(Class::Unicode(u)) => {
            let mut cs: Vec<char> = vec![];
            for r in u.ranges() {
                cs.push(r.start());
                cs.push(r.end());
            }
            cs.retain(|c| !c.is_control() && (*c as u32) < 0x3000);
            if cs.is_empty() {
                let mut s = String::new();
                sample(h, t, 1, &mut s);
                return s;
            }
            { let j = t.ix(2); cs[(e * cs.len() / 6 + j) % cs.len()].to_string() }
        }
        _ => {
            let mut s = String::new();
            sample(h, t, 1, &mut s);
            s
        }
    })
}
