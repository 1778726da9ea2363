#!/usr/bin/env python3
# Writes /verif/MANIFEST.json and /verif/known_findings.json.
import json, os, re
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(D, "properties.jsonl"))]
have = set(re.findall(r'"(C\d\d)_', open(os.path.join(D, "harness/props/all.go")).read()))
note = {
 "": "Every path through the real Go code (SSA of /repo's working tree) is executed symbolically from the harnesses' inputs and an SMT solver decides each branch and assertion for all values within the bounds each harness states (listed in the evidence); counterexamples are reported only when the natively compiled code reproduces them. Trusted: the executor's model of Go and of the library functions it replaces, sampled paths of which are validated natively; the reference parser and evaluator. Paths left unexplored when the budget ends are counted in the evidence and outside the claim.",
}
extra = {
 "C14": " Double arithmetic over all values is decided by cvc5's floating-point theory; products and quotients of two arbitrary doubles or 64-bit integers are left out where the solver does not answer, and counted as unknown.",
 "C20": " Interleavings are scheduling choices at synchronisation points, decided exhaustively up to the stated number of preemptions; unsynchronised accesses are found by a happens-before monitor on every explored path.",
 "C21": " Goroutine and channel behaviour is the executor's model of the Go scheduler; a leak is reported when the native run shows it too.",
}
tech = {
 "": "symbolic execution of the Go SSA with SMT solving, against a reference model",
 "C01": "symbolic execution of the Go SSA with SMT solving, API contract as assertions",
 "C18": "symbolic execution of the Go SSA with SMT solving, API contract as assertions",
 "C19": "symbolic execution of the Go SSA with SMT solving, writes to frozen objects as assertions",
 "C20": "symbolic execution of the Go SSA with SMT solving, scheduling choices and happens-before races",
 "C24": "symbolic execution of the Go SSA with SMT solving, histories and schedules against a reference model",
 "C26": "symbolic execution of the Go SSA with SMT solving, relations between two programs and their texts as assertions",
 "C27": "symbolic execution of the Go SSA with SMT solving, relations between two rejections as assertions",
 "C28": "symbolic execution of the Go SSA with SMT solving, relations between steps and texts as assertions, and a reference model",
 "C25": "symbolic execution of the Go SSA with SMT solving, relations between two runs as assertions",
 "C21": "symbolic execution of the Go SSA with SMT solving, deadlocks and goroutines left as assertions",
}
na_reason = {}
exec(open(os.path.join(D, "tools/notapplicable.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in na_reason or i not in have:
        na.append({"property": i, "reason": na_reason.get(i, "check not built yet")})
        continue
    checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": tech.get(i, tech[""]), "level": "model_checking",
        "level_note": note[""] + extra.get(i, "")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the executor reads the source as it is. known_findings.json lists what was repaired (fix: commits) and what is open."}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
fixed = [
 ("F01","C07","a5af130","slice with a huge stride ([::9223372036854775807] and such) overflowed the index and panicked"),
 ("F02","C08","54935d7","a slice of a non-array in a union, or after other input values, dropped the values selected so far"),
 ("F03","C10","97dc0ba","a loop without candidates (filter over an empty array, object or scalar) ran its body once"),
 ("F04","C21","cf5d68f","a run-time error inside a loop left its producer goroutine blocked for ever"),
 ("F05","C11","8c74840","a computed subscript with a double value, as $[(@.length-1.0)], selected nothing from an array"),
 ("F06","C17","550ff28","max of strings returned the least one"),
 ("F07","C17","78c7cb4","avg of an empty array was NaN, not null"),
 ("F08","C12","43865ba","== took a missing object member for null, so {\"a\":null} == {\"b\":null}"),
 ("F09","C12","d246502","== of a number or boolean and a string truncated fractions and did not follow JavaScript's numeral syntax"),
 ("F10","C05","f80c88b","a string whose closing quote was escaped at the end of the text was taken as closed ('ab\\')"),
 ("F11","C05","c791747","a surrogate pair right after an unpaired high surrogate was not decoded"),
 ("F12","C23","456897a","jpath -l failed on lines of more than 64 KB"),
 ("F13","C23","f958278","jpath exited with status 0 when its output could not be written"),
 ("F14","C12","2853ed3","== of an array of one element and a scalar: [0.5] == false and ['x'] == 0 were true, ['1.0'] == 1, [null] == '' and (for a number of the document) [1234567] == '1234567' false"),
 ("F15","C01","c6ba20b","a million brackets, unary or binary operators in an expression overflowed Compile's stack, which ends the process"),
 ("F16","C18","96a9823","a path of more than 4 million orders made Eval panic or give wrong results"),
 ("F17","C12","b81df41","== of a number and a hexadecimal string of more than 64 bits was false"),
]
k = [{"id": a, "property": b, "status": "fixed", "commit": c, "what": f"fixed: property={b} {c} {d}"} for a, b, c, d in fixed]
with open(os.path.join(D, "known_findings.json"), "w") as f:
    f.write("[\n" + ",\n".join(" " + json.dumps(x, ensure_ascii=False) for x in k) + "\n]\n")
