#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks that exist (harness/cNN.cpp)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "property-based testing against a reference lexer",
 "C02": "property-based testing against arbitrary-precision literal evaluation",
 "C03": "property-based testing of grammar-derived and mutated sentences against an Earley recognizer and a reference parser",
 "C26": "metamorphic and stateful property-based testing: routes through the library and histories of moves, with tracked memory",
 "C27": "property-based testing of generated programs: the analyzed tree walked against an independent parser and reference semantics",
 "C24": "stateful model-based testing of random instruction sequences against a reference machine",
 "C25": "stateful model-based testing of random writer histories against a layout model and a strict HTML reader",
 "C23": "stateful property-based testing against models, with a registry of live objects",
 "C05": "property-based testing and exhaustive small widths against arbitrary-precision arithmetic",
 "C07": "property-based testing of generated and edited programs against an independent reference semantics",
 "C08": "property-based testing of generated programs against an arbitrary-precision interpreter",
 "C09": "model-based property-based testing: generated programs and call sequences run on the virtual machine and on a reference interpreter",
 "C10": "metamorphic property-based testing: folded and unfolded variants of generated functions",
 "C11": "metamorphic property-based testing: bit-generic programs against programs with every instance written out",
 "C22": "metamorphic property-based testing: programs under layout, renaming, literal, parenthesis and order changes",
 "C13": "metamorphic round-trip property-based testing: generated BMS text against the library's parser and a reference parser",
 "C14": "differential property-based testing: generated C and C++ compiled and run against a reference interpreter",
 "C15": "property-based testing of generated code under pairs of formatting options, with independent lexers and a layout oracle",
 "C12": "property-based testing of generated annotations and argument lists against a reference schema checker",
 "C16": "property-based testing of generated, mutated and random documents against an independent reference reader",
 "C17": "property-based testing of generated documents: strict HTML reader and an expected-content model as oracle",
 "C18": "round-trip property-based testing of highlighted code against the source and a reference lexer",
 "C19": "fuzzing with random bytes, grammar soups, nested nonsense and mutated documents under sanitizers",
 "C04": "fuzzing with random bytes, token soups, grammar sentences, typed fragments and mutated programs under sanitizers",
 "C20": "differential property-based testing: the command line tool against the library's results on generated files and arguments",
 "C21": "property-based testing of diagnostics against position counting, a reference lexer, an Earley recognizer and a reference semantics",
 "C06": "property-based testing: unknown operands instantiated and compared with a reference",
}
NOTE = {}
tech = os.path.join(here, "tools", "techniques.json")
if os.path.exists(tech):
    d = json.load(open(tech)); T = d["technique"]; NOTE = d["note"]
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "harness", i.lower() + ".cpp")) and i in T:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough", "technique": T[i],
            "level": "exploration",
            "level_note": NOTE.get(i, "Generated inputs against an explicit oracle, with shrinking; what was explored is in the evidence file.")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
