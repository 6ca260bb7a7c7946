import json
COMMON = "Seeded random search in deterministic simulation: assurance grows with the number of runs and is not a proof. Trusts the simulator's file system, the generator and the independent readers in /verif/sim."
L = {}
NA = {
 "C17": "parse_1Ctext and its serialiser are pure functions of one string: no scheduling, time, I/O or party for a simulator to control; input generation without a schedule or a fault would be property-based testing, another family.",
 "C18": "the conversions are pure functions of their argument: no nondeterminism that a simulator could control.",
 "C19": "packing and unpacking one leaf page is a pure function; that the whole index is read correctly is decided under C02 and C09.",
}
exec(open('claims.py').read())
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in L:
        m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
          "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection: " + L[i][0],
          "level": L[i][2] if len(L[i]) > 2 else "exploration", "level_note": L[i][1] + " " + COMMON})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "the scenario for it is still being built")})
m["notes"] = "No hooks were added to /repo: the seam is the C library boundary (file, directory, clock, entropy, memory and exit calls), interposed inside the simulator's own binary, see DESIGN.md."
json.dump(m, open('MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
