#!/usr/bin/env python3
"""mkseed.py [ID...]: writes /verif/seeded/<id>/ from the planted bugs described in tools/seeds/bugs_*.py,
each a list BUGS of dict(id, property, edits=[(file, old, new)], demo, needs, breaks)."""
import glob, json, os, subprocess, sys, runpy, shutil
root = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
repo = "/repo"
BASE = subprocess.run(["git", "-C", repo, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
bugs = []
for f in sorted(glob.glob(os.path.join(root, "tools/seeds/bugs_*.py"))):
    bugs += runpy.run_path(f)["BUGS"]
prelude = open(os.path.join(root, "tools/seeds/prelude.rs")).read()
want = sys.argv[1:]
assert not subprocess.run(["git", "-C", repo, "status", "--porcelain"], capture_output=True, text=True).stdout.strip(), "dirty"
for b in bugs:
    if want and b["id"] not in want:
        continue
    d = os.path.join(root, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        # removed lines must be the original repository's, not ones added by later commits
        hunks = subprocess.run(["git", "-C", repo, "diff", "-U0"], capture_output=True, text=True).stdout
        import re
        cur, removed = None, []
        for line in hunks.splitlines():
            if line.startswith("--- a/"): cur = line[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
            if m:
                st, n = int(m[1]), int(m[2] or 1)
                removed += [(cur, i) for i in range(st, st + n)]
        orig = 0
        for f, i in removed:
            c = subprocess.run(["git", "-C", repo, "blame", "-s", "-l", "-L", f"{i},{i}", "HEAD", "--", f], capture_output=True, text=True).stdout.split()[0].lstrip("^")
            if subprocess.run(["git", "-C", repo, "merge-base", "--is-ancestor", c, BASE]).returncode == 0:
                orig += 1
        if orig == 0:
            print("WARNING", b["id"], "changes no original line", len(removed))
        diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.rs"), "w").write(prelude + "\nfn main() {\n" + b["demo"] + "\n}\n")
    shutil.copy(os.path.join(root, "tools/seeds/demo.sh"), os.path.join(d, "demo.sh"))
    if b.get("rkyv"):
        p = os.path.join(d, "demo.sh")
        t = open(p).read().replace('sieve-rs = { path = "$repo" }', 'sieve-rs = { path = "$repo", features = ["rkyv"] }\nrkyv = "0.8"')
        open(p, "w").write(t)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", b["id"])
