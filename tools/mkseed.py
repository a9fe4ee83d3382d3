#!/usr/bin/env python3
"""mkseed.py SPEC.json : {id, property, file, old, new, needs, breaks, demo, features?} -> /verif/seeded/<id>/ (edits may be a list)"""
import json, os, shutil, subprocess, sys
for s in sys.argv[1:]:
    d = json.load(open(s)) if s.endswith(".json") else eval(open(s).read())
    for d in (d if isinstance(d, list) else [d]):
        out = f"/verif/seeded/{d['id']}"; os.makedirs(out, exist_ok=True)
        assert subprocess.run(["git", "-C", "/repo", "diff", "--quiet"]).returncode == 0, "repo dirty"
        try:
            for f, old, new in d.get("edits") or [(d["file"], d["old"], d["new"])]:
                p = "/repo/" + f; t = open(p).read()
                assert t.count(old) == 1, (d["id"], f, t.count(old))
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.rs", "w").write(d["demo"])
        shutil.copy("/verif/tools/seedlib/demo.sh", out + "/demo.sh")
        if d.get("features"): open(out + "/features", "w").write(d["features"])
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        print("made", d["id"])
