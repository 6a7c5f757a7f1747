#!/usr/bin/env python3
"""Mutation survey: small textual changes to the library, each run against every check at a fraction of its quick size.
usage: mutate.py list | mutate.py run OUT.jsonl [first] [step] [-j N] [-s scale]   (works in scratch copies under /tmp/mut, removed at the end)
Not a check; it finds gaps in the checks."""
import re, sys, os, json, subprocess, shutil, queue, threading, time
ORIG = {}
FILES = ["src/buffer.rs","src/screen.rs","src/sequence.rs","src/signal.rs","src/terminal.rs","src/util.rs","src/priv_util.rs","src/macros.rs","src/unix/screen.rs","src/unix/terminal.rs","src/unix/ext.rs"]
SUBS = [(r" == "," != "),(r" != "," == "),(r" < "," <= "),(r" > "," >= "),(r" <= "," < "),(r" >= "," > "),(r" && "," || "),(r" \|\| "," && "),
 (r" \+ "," - "),(r" - "," + "),(r" \+= "," -= "),(r" -= "," += "),(r" \|= "," = "),(r" &= "," |= "),(r"\btrue\b","false"),(r"\bfalse\b","true"),
 (r"\b1\b","2"),(r"\b1\b","0"),(r"\b0\b","1"),(r"\.\.=",".."),(r"\.min\(",".max("),(r"\.max\(",".min("),(r"(?<=[ (])!(?=[a-z(])",""),
 (r" \| "," & "),(r"\bif (?!let)(.*) \{",r"if true {"),(r"\bif (?!let)(.*) \{",r"if false {"),(r"\bSome\((\w+)\)(?=[,)]?$)","None"),(r"\?;",";"),
 (r"is_empty\(\)","is_empty() == false"),(r"\bSome\(Duration::[^;]*","None"),(r"Errno::EINTR","Errno::EAGAIN"),(r"\.rev\(\)",""),(r"\.take\(([^)]*)\)",r".take(1)")]
def mutants():
    out = []
    for f in FILES:
        ORIG[f] = open("/repo/" + f).read(); lines = ORIG[f].split("\n")
        for i, l in enumerate(lines):
            if "#[cfg(test)]" in l and i + 1 < len(lines) and "mod" in lines[i+1]: break
            t = l.strip()
            if t.startswith(("//","#","use ","pub use","mod ","extern","assert","debug_assert")) or not t: continue
            code = l.split(" // ")[0] if '"' not in l else l
            for k, (a, b) in enumerate(SUBS):
                for m in re.finditer(a, code):
                    if "->" in code[m.start():m.end()+1] and k in (3,5): continue
                    n = code[:m.start()] + m.expand(b) + code[m.end():]
                    if n != l: out.append((f, i, n))
            if t.endswith(";") and not t.startswith(("let ","return","const","static","pub ","type ","break","continue","}",")",".","fn ","]")) and "macro" not in t and t.count("(") == t.count(")"):
                out.append((f, i, re.match(r" *", l).group() + "{}"))
            if t in ("break;","continue;"): out.append((f, i, l.replace("break;","{}").replace("continue;","{}")))
    seen = set(); r = []
    for x in out:
        if x not in seen: seen.add(x); r.append(x)
    return r
Q = dict(re.findall(r'p\("(\w\d\d)", [a-z_:0-9]+, ([\d_]+)', open("/verif/harness/src/main.rs").read()))
ORDER = ["D01","D03","T03","T02","S02","S01","I01","I02","P01","T01","P02","P03","S06","S05","S03","S04","S08","T06","T07","T08","R04","I03","R01","D02","I04","G01","S07","T04","T05","I05","G02"]
def sh(cmd, cwd, env=None, timeout=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, stdin=subprocess.DEVNULL)
    try: o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); o, _ = p.communicate(); return 124, o.decode("utf-8","replace")
    return p.returncode, o.decode("utf-8","replace")
def worker(w, q, out, lock, scale):
    d = f"/tmp/mut/w{w}"
    os.makedirs(d + "/vd", exist_ok=True)
    if not os.path.exists(d + "/repo"):
        sh(["cp","-a","/repo",d + "/repo"], "/"); sh(["git","checkout","-q","."], d + "/repo")
        os.makedirs(d + "/harness"); sh(["cp","-a","/verif/harness/src","/verif/harness/Cargo.toml","/verif/harness/Cargo.lock",d + "/harness"], "/")
        for f in ORIG: open(f"{d}/repo/{f}", "w").write(ORIG[f])
        s = open(d + "/harness/Cargo.toml").read(); open(d + "/harness/Cargo.toml","w").write(s.replace('"/repo"', f'"{d}/repo"').replace("incremental = false","incremental = true"))
    env = {"VERIF_DIR": d + "/vd", "CARGO_NET_OFFLINE": "true", "VERIF_SEED": "7", "MON_WORKERS": "2", "CARGO_BUILD_JOBS": "2"}
    while True:
        try: idx, (f, i, n) = q.get_nowait()
        except queue.Empty: return
        p = f"{d}/repo/{f}"; orig = ORIG[f]; L = orig.split("\n"); old = L[i]; L[i] = n
        open(p, "w").write("\n".join(L))
        t = time.time(); res = None
        rc, o = sh(["cargo","build","--offline","--quiet"], d + "/harness", env, 300)
        if rc != 0: res = "nobuild"
        else:
            for c in ORDER:
                env["MON_CASES"] = str(64 if c == "D02" else max(8, int(int(Q.get(c, "272").replace("_","")) * scale))) if c != "D03" else "700"
                rc, o = sh([d + "/harness/target/debug/mon","check",c], d, env, 120)
                if "VIOLATION" in o: res = c; break
                if rc == 124: res = c + " timeout"; break
                if rc == 2 and "nothing observed" not in o and "INCONCLUSIVE" in o: res = c + " inconclusive"; break
            if res is None or "timeout" in res or "incon" in res:
                rc, o = sh(["cargo","test","--offline","--quiet","--lib"], d + "/repo", env, 120)
                res = ("survived" if res is None else res) + (" (tests fail)" if rc else "")
        open(p, "w").write(orig)
        with lock:
            open(out, "a").write(json.dumps({"i": idx, "file": f, "line": i + 1, "old": old.strip(), "new": n.strip(), "res": res, "s": round(time.time() - t, 1)}) + "\n")
if __name__ == "__main__":
    M = mutants()
    if sys.argv[1] == "list": print(len(M)); sys.exit()
    a = sys.argv; out = a[2]; first = int(a[3]) if len(a) > 3 else 0; step = int(a[4]) if len(a) > 4 else 1
    j = int(a[a.index("-j") + 1]) if "-j" in a else 8; scale = float(a[a.index("-s") + 1]) if "-s" in a else 0.02
    done = {json.loads(l)["i"] for l in open(out)} if os.path.exists(out) else set()
    q = queue.Queue()
    for k in range(first, len(M), step):
        if k not in done: q.put((k, M[k]))
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(w, q, out, lock, scale)) for w in range(j)]
    [t.start() for t in ts]; [t.join() for t in ts]
    subprocess.run(["rm","-rf"] + [f"/tmp/mut/w{w}" for w in range(j)])
