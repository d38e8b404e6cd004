"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = ("TLA+: TLC proves a model of the storage algorithm (GecsWorld) a refinement of the specification (GecsAbs) in small bounds; seeded histories and "
        "transition tours of that model run on the real crate, every event judged by TLC against GecsAbs.tla")
CLAIMED = {p: HIST for p in "C01 C02 C03 C04 C06 C07 C08 C09 C10 C12 C13 C17 C19".split()}
NOTE = ("Histories are bounded (seeded, and tours of all transitions of the model); within them every observer of every world is compared with "
        "the specification after every operation. Trusts TLC and the harness's transcription of API results.")
LEVEL = {}
NOTES = {}
NA = {p: "check under construction" for p in ["C%02d" % i for i in range(1, 20)] if p not in CLAIMED}
exec(open(V + "/lib/manifest_more.py").read()) if os.path.exists(V + "/lib/manifest_more.py") else None
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "gecs_verif", "enable": "RUSTFLAGS='--cfg gecs_verif' (set by lib/core.py; without the hook the harness falls back to real create/destroy cycles)",
               "source_commits": [HOOK]} if (HOOK := os.popen("git -C /repo log --format=%H --grep '^hook:' | head -1").read().strip()) else {},
     "checks": [{"property": p, "quick_cmd": "python3 lib/check.py %s" % p, "thorough_cmd": "env VERIF_TIER=thorough python3 lib/check.py %s" % p,
                 "technique": CLAIMED[p], "level": LEVEL.get(p, "model_checking"), "level_note": NOTES.get(p, NOTE)} for p in sorted(CLAIMED)],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
