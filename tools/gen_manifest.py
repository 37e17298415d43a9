#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property implemented in harness/src/props."""
import json, re, glob
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
src = ''.join(open(f).read() for f in sorted(glob.glob('/verif/harness/src/props/*.rs')))
have = {i for i in re.findall(r'id: "(C\d\d)"', src)}
NOTE = ("Seeded random search with an explicit oracle over {what}; every failing case is shrunk and saved as a replay "
        "file. It samples, it does not enumerate: absence of a violation is evidence up to the generated histories "
        "(counts in the evidence file). Trusted: the simulated chain in harness/src/chain.rs (atomic transactions, "
        "sub-messages, replies, bank, queries; no gas), the reference formats in harness/src/refs.rs, and k256/sha3.")
WHAT = json.load(open('/verif/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        w = WHAT.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": w.get("technique", "stateful property-based testing against a reference model"),
            "level": "exploration",
            "level_note": NOTE.format(what=w.get("what", "generated histories of contract calls")),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: the harness uses the contracts' public entry points", "source_commits": []},
     "notes": "All checks share one harness binary; see DESIGN.md."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
