#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below (run by hand after adding a check)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based testing: schema-driven message generation, round-trip oracle", "Every structure field of every module is populated at least once per run (edge coverage of the schema), every structure is generated full and all-but-one, plus random messages; sampling beyond that."),
 "C02": ("property-based testing: schema-driven generation, JSON round trip against the generated value", "As C01, with arbitrary Unicode text, explicit nulls and random JSON spellings; the oracle is the generated value, not a second run of the library."),
 "C03": ("property-based testing against a reference model of the wire format", "Independent tree builder, strict XML parser and schema extracted once from the pinned commit; trusts that schema as the specification."),
 "C04": ("metamorphic property-based testing: equivalent XML renderings", "Random combinations of eleven rendering freedoms and envelope forms."),
 "C05": ("property-based testing against a reference registry; exhaustive over message types", "Lookup functions exhaustively over all types and near-miss names; detection on random messages."),
 "C06": ("property-based testing against a reference validator, pattern-derived boundary and near-miss strings", "Every constraint of every field at its boundaries under several contexts; patterns are sampled, not enumerated."),
 "C07": ("metamorphic and model-based property-based testing of validation settings and collectors", "Random messages under all settings; operation sequences against a list model."),
 "C08": ("mutation-based property testing: every mandatory, enumerated, typed and single-valued field, plus corruptions", "Each schema constraint is broken at least once per run in XML and JSON; well-formedness corruptions are sampled."),
 "C09": ("fuzzing: grammar-aware mutation and token soup over all entry points in a crash-isolated process", "Sampled; panics, aborts, stack overflow and accepted-but-unserializable inputs are detected."),
 "C10": ("differential property-based testing of plugins against the library", "Sampled over messages, source forms and configurations, directly and through the engine."),
 "C11": ("stateful property-based testing of plugin sequences with a frame-condition model", "Random plugin sequences on random contexts; full context comparison after every step."),
 "C12": ("differential property-based testing of the verdict", "Sampled valid and corrupted inputs; expected verdict known by construction and cross-checked with the readers."),
 "C13": ("property-based testing with generated scenarios of known outcome", "Constant and variable scenarios only; random fake operators are outside (their outcome is not a function of the scenario)."),
 "C14": ("differential property-based testing: Document-only reader versus envelope reader and generated value", "As C01 for the 25 message types in random renderings."),
 "C15": ("differential property-based testing between specific and common structures", "All header and variant modules, restricted to representable content; known divergences listed."),
 "C16": ("stateful and concurrent property-based testing against fresh-process results", "Random call sequences, orders and thread interleavings; interleavings are sampled, not controlled."),
 "C17": ("property-based testing of every numeric field with random decimal literals, exact decimal oracle", "Every numeric field with many literals per run."),
 "C19": ("property-based testing: schema-driven generation, typed content compared with the generated value", "Every structure field of every module at least once per run, codes and further content sampled; typed content is seen through derived Debug."),
 "C20": ("property-based testing of scaling: paired inputs of two sizes, CPU-time ratio as metamorphic oracle", "Nine ways of growing at one random place per type and run, and error collectors; detects growth well above proportional (the limit is six times the proportional cost), not constant factors."),
 "C21": ("property-based testing of the generation script on generated source trees, reference renderer as oracle", "480 random directories and configurations per run, in a scratch directory; recursive types and CRLF files are excluded."),
 "C22": ("property-based testing of the generic conversion on generated XML trees, reference conversion as oracle", "Names without prefixes; text without surrounding white space."),
 "C23": ("mutation-based property testing: one nameable error per message, its cause sought in every reader's error", "Every mandatory, single-valued and coded field of every module at least once per run; only the presence of the cause in the text is judged."),
 "C18": ("property-based testing with adversarial markup-like content", "Sampled over positions and contents, including every name the library searches for."),
}
order = os.environ.get("IDS", " ".join(T)).split()
props = [json.loads(l)["id"] for l in open(f"{HERE}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash check.sh build",
 "checks": [{"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
   "technique": T[i][0], "level": "exploration", "level_note": T[i][1]} for i in order],
 "not_applicable": [{"property": p, "reason": "its check is not built yet"} for p in props if p not in order],
 "notes": "No hooks: every check uses the public API of /repo. Known findings and fixes: known_findings.txt. See DESIGN.md."}
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
