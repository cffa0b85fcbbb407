#!/usr/bin/env python3
"""mkseed.py: writes /verif/seeded/<id>/ from the definitions in seeds.py (patch against /repo HEAD)."""
import difflib, json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
V = "/verif/seeded"
LIB = "/verif/tools/seedlib"
want = set(sys.argv[1:])
for s in SEEDS:
    if want and s["id"] not in want:
        continue
    d = f"{V}/{s['id']}"
    os.makedirs(d, exist_ok=True)
    out = ""
    files = {}
    for f, old, new in s["edits"]:
        txt = files.get(f) or open(f"/repo/{f}").read()
        if txt.count(old) != 1:
            sys.exit(f"{s['id']}: {txt.count(old)} matches in {f}: {old[:60]!r}")
        files[f] = txt.replace(old, new)
    for f, new in files.items():
        src = open(f"/repo/{f}").read()
        out += f"diff --git a/{f} b/{f}\n"
        out += "".join(difflib.unified_diff(src.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.copy(f"{LIB}/demo.sh", d + "/demo.sh")
    pkg = s.get("pkg", "")
    if pkg:
        t = open(d + "/demo.sh").read().replace('$PWD/zz', f'$PWD/{pkg}/zz').replace("-timeout 150s .", f"-timeout 150s ./{pkg}")
        if not s.get("fake", False):
            t = t.replace(',"%s":"%s"', '', 1).replace(f' "$PWD/{pkg}/zz_fake_test.go" "$D/fake_test.go"', '')
        open(d + "/demo.sh", "w").write(t)
    if not pkg or s.get("fake", False):
        shutil.copy(f"{LIB}/fake_test.go", d + "/fake_test.go")
    open(d + "/demo_test.go", "w").write(s["demo"])
    subprocess.run(["/opt/veriftools/go1.27.3/bin/gofmt", "-l", d + "/demo_test.go"])
print(len(SEEDS), "seeds")
