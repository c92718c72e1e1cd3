#!/usr/bin/env python3
"""Development tool: mk_seed.py [ID...] -- (re)makes /verif/seeded/ID from tools/seeds/ID.seed, and confirms it.
A .seed file is Python: property, needs, breaks, edits = [(file, old, new)...], demo = rust source."""
import json, os, shutil, subprocess, sys, glob, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"

def sh(cmd, cwd=None, env=None, timeout=1200):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, capture_output=True, text=True)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"

def reset(d):
    shutil.rmtree(f"{d}/src", ignore_errors=True)
    shutil.copytree("/repo/src", f"{d}/src")

def main():
    os.makedirs(W, exist_ok=True)
    repo, ws = f"{W}/repo", f"{W}/ws"
    if not os.path.isdir(repo):
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "target"))
        shutil.copytree("/opt/vp/ws", ws, ignore=shutil.ignore_patterns("target"))
    ids = sys.argv[1:] or sorted(os.path.basename(f)[:-5] for f in glob.glob(f"{HERE}/tools/seeds/*.seed"))
    base = subprocess.run(["git", "-C", "/repo", "show", "d6802b4", "--stat"], capture_output=True)
    for i in ids:
        s = {}
        exec(open(f"{HERE}/tools/seeds/{i}.seed").read(), s)
        for d in (repo, ws): reset(d)
        reset(f"{W}/a" if os.path.isdir(f"{W}/a") else (os.makedirs(f"{W}/a") or f"{W}/a"))
        bad = None
        for f, old, new in s["edits"]:
            p = f"{repo}/src/{f}"
            t = open(p).read()
            if t.count(old) != 1: bad = f"{f}: {t.count(old)} matches for {old!r}"; break
            o = subprocess.run(["git", "-C", "/repo", "show", f"d6802b4:src/{f}"], capture_output=True, text=True).stdout
            ol = [x.strip() for x in o.split("\n")]
            if any(l.strip() and l.strip() not in ol and l not in new.split("\n") for l in t[t.rfind("\n", 0, t.index(old))+1: t.find("\n", t.index(old)+len(old))].split("\n")): print(i, "note:", f"{f}: changes a line that is not original", f)
            open(p, "w").write(t.replace(old, new))
        if bad: print(i, "BAD", bad); continue
        shutil.rmtree(f"{ws}/src"); shutil.copytree(f"{repo}/src", f"{ws}/src")
        env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
        c, o = sh(["cargo", "test", "--offline", "-q", "--target-dir", f"{W}/target"], ws, env)
        if c: print(i, "TESTS FAIL\n", o[-1500:]); continue
        _, diff = sh(["diff", "-ru", "--label", "x", "--label", "y", f"/repo/src", f"{repo}/src"])
        out = []
        for f in sorted({e[0] for e in s["edits"]}):
            _, d = sh(["diff", "-u", "--label", f"a/src/{f}", "--label", f"b/src/{f}", f"/repo/src/{f}", f"{repo}/src/{f}"])
            out.append(d)
        dst = f"{HERE}/seeded/{i}"
        shutil.rmtree(dst, ignore_errors=True); os.makedirs(dst)
        open(f"{dst}/patch.diff", "w").write("".join(out))
        open(f"{dst}/demo.rs", "w").write(s["demo"].lstrip())
        for f in ("demo.sh", "common.rs"): shutil.copy(f"{HERE}/tools/seeds/{f}", f"{dst}/{f}")
        os.chmod(f"{dst}/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f"{dst}/meta.json", "w"), indent=1)
        c0, o0 = sh([f"{dst}/demo.sh"], "/repo", env)
        c1, o1 = sh([f"{dst}/demo.sh"], repo, env)
        ca, oa = sh(["git", "-C", "/repo", "apply", "--check", f"{dst}/patch.diff"])
        ok = c0 == 0 and c1 not in (0, 3, 4) and ca == 0
        print(i, s["property"], "ok" if ok else "DEMO BAD", c0, c1, ca, (o0[-1500:] + "\n--\n" + o1[-1500:]) if not ok else "", flush=True)
        if not ok: shutil.rmtree(dst); continue
        if os.environ.get("NOCHECK"): continue
        e2 = dict(env, VERIF_REPO=repo, VERIF_BUILD=f"{W}/build")
        del e2["RUSTFLAGS"]
        c, o = sh([f"{HERE}/check", s["property"], "quick"], HERE, e2)
        v = [l for l in o.split("\n") if "VIOLATION" in l]
        print("   ", "CAUGHT" if c == 1 and v else f"MISSED (exit {c})", o.strip().split("\n")[-1][:200], flush=True)
main()
