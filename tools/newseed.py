#!/usr/bin/env python3
"""usage: newseed.py <id> <property> <needs> <what> <file> <<< "OLD\n=====\nNEW\n#####\ndemo source"
Makes seeded/<id> from one or more replacements in /repo's HEAD (blocks separated by '=====' / '-----') and demo.rs."""
import sys, os, json, subprocess, shutil, tempfile
id, prop, needs, what, file = sys.argv[1:6]
body = sys.stdin.read()
edits, demo = body.split("\n#####\n", 1)
D = f"/verif/seeded/{id}"
os.makedirs(D, exist_ok=True)
w = tempfile.mkdtemp(prefix="newseed")
subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
src = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + file], check=True, capture_output=True, text=True).stdout
new = src
cur = file
files = {}
for e in edits.split("\n-----\n"):
    if e.startswith("@@"):
        files[cur] = (src, new)
        cur, e = e.split("\n", 1)
        cur = cur[2:].strip()
        src = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + cur], check=True, capture_output=True, text=True).stdout
        new = src
    old, rep = e.split("\n=====\n") if "\n=====\n" in e else (e.split("\n=====")[0], "")
    assert new.count(old) == 1, f"{new.count(old)} occurrences of: {old}"
    new = new.replace(old, rep)
files[cur] = (src, new)
out = ""
for f, (a, b) in files.items():
    os.makedirs(os.path.dirname(f"{w}/a/{f}"), exist_ok=True); os.makedirs(os.path.dirname(f"{w}/b/{f}"), exist_ok=True)
    open(f"{w}/a/{f}", "w").write(a); open(f"{w}/b/{f}", "w").write(b)
    r = subprocess.run(["diff", "-u", f"a/{f}", f"b/{f}"], cwd=w, capture_output=True, text=True).stdout
    out += "\n".join(l.split("\t")[0] if l.startswith(("--- ", "+++ ")) else l for l in r.split("\n"))
open(D + "/patch.diff", "w").write(out)
shutil.rmtree(w)
shutil.copy("/verif/tools/demo/demo.sh", D); shutil.copy("/verif/tools/demo/pty.rs", D)
if demo.strip(): open(D + "/demo.rs", "w").write(demo)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(D + "/meta.json", "w"), indent=1)
