#!/usr/bin/env python3
"""Development tool (no check uses it): operator mutants of /repo/src that still pass the tests, run
against the checks.   mutate.py WORKERS FILE...   Work directories under /tmp/mut; results in
/tmp/mut/results.jsonl."""
import json, os, re, shutil, subprocess, sys, threading, queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/mut"
RULES = [
    (r"<=", "<"), (r">=", ">"), (r"(?<![-=<>&'])<(?=\s)", "<="), (r"(?<![-=>])>(?=\s)(?!\s*\{)", ">="),
    (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|(?= )", "&&"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r" \* ", " / "), (r" / ", " * "),
    (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"),
    (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\bmin\(", "max("), (r"\bmax\(", "min("),
    (r"saturating_sub", "saturating_add"), (r"saturating_add", "saturating_sub"),
    (r"\.rev\(\)", ""), (r"\.reverse\(\);", ";"), (r"\bleft\b", "right"), (r"\bright\b", "left"),
    (r"\bopt1\b", "opt2"), (r"\bopt2\b", "opt1"), (r"prev_blocks", "next_blocks"), (r"next_blocks", "prev_blocks"),
    (r"\.first\(", ".last("), (r"\.last\(", ".first("), (r"\.is_empty\(\)", ".len() == 1"), (r"is_none\(\)", "is_some()"), (r"is_some\(\)", "is_none()"),
    (r"if (?!let)([^{]*) \{", r"if !(\1) {"), (r"if (?!let)([^{]*) \{", "if true {"), (r"if (?!let)([^{]*) \{", "if false {"),
    (r"\bwidth\b", "height"), (r"\bheight\b", "width"), (r"\brow\b", "col"), (r"\bcol\b", "row"),
    (r"Some\((\w+)\)(?! =)", "None"), (r"\bstyle: [\w.]+", "style: Default::default()"),
    (r"focusing_first_block", "focusing_last_block"), (r"focusing_last_block", "focusing_first_block"),
    (r"\bflat\b", "false"), (r"at_eol", "false"), (r"\.clone\(\)", ".clone().clone()") ,
    (r"^\s*[\w.]+(\.\w+\(.*\)|\s[-+|&]?=\s.*);\s*$", ""), (r"\bWidth\b", "Height"), (r"\bchild\b", "parent"),
    (r"\.skip\((\w+)\)", ""), (r"\.take\([^)]*\)", ""), (r"Ordering::Less", "Ordering::Greater"), (r"\.combine\(", ".clone().combine("),
    (r"\((\w+), (\w+)\)", r"(\2, \1)"), (r"\(&(\w+), &(\w+)\)", r"(&\2, &\1)"),
    (r"\|= ", "&= "), (r"\|= ", "= "), (r"\+= ", "= "), (r"\.len\(\)", ".len() - 1"), (r"\.len\(\)", ".len() + 1"),
    (r"\?;", ".ok();"), (r"continue", "break"), (r"return Ok\(None\)", "break"),
]
RULES = [r for r in RULES if r[1] not in (".clone().clone()",)]

ORDER = {
    "pane": "C12 C13 C14 C15 C16",
    "plain_text": "C20",
    "json": "C17", "tree": "C21 C17 C08", "style": "C21",
    "notation": "C22 C10 C19 C02", "valid": "C10", "oracle": "C18",
    "pretty_print": "C01 C04 C03 C05 C08 C06 C09 C11 C07 C16", "consolidated": "C01 C02 C06 C11 C08 C09 C04 C07",
    "geometry": "C16 C13 C01", "pretty_doc": "C11 C01",
}
ALL = "C10 C22 C19 C21 C15 C02 C20 C05 C01 C18 C09 C03 C04 C08 C12 C13 C14 C06 C07 C16 C17 C11".split()

def mutants(f):
    src = open(f"/repo/src/{f}").read().split("\n")
    stop = next((i for i, l in enumerate(src) if "#[cfg(test)]" in l), len(src))
    seen = set()
    for i, l in enumerate(src[:stop]):
        s = l.strip()
        if not s or s.startswith(("//", "use ", "#[", "span!", "pub use", "mod ", "panic!", "assert")):
            continue
        for pat, rep in RULES:
            for m in re.finditer(pat, l):
                new = l[:m.start()] + m.expand(rep) + l[m.end():]
                if "//" in l and m.start() > l.index("//"):
                    continue
                if new != l and (i, new) not in seen:
                    seen.add((i, new))
                    yield i, new

def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, capture_output=True, text=True)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def worker(n, q, lock, cores):
    w = f"{ROOT}/w{n}"
    repo = f"{w}/repo"
    os.makedirs(w, exist_ok=True)
    if not os.path.isdir(repo):
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "target"))
    ws = f"{w}/ws"
    if not os.path.isdir(ws):
        shutil.copytree("/opt/vp/ws", ws, ignore=shutil.ignore_patterns("target"), symlinks=False)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", VERIF_REPO=repo, VERIF_BUILD=f"{w}/build", CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings")
    ts = ["taskset", "-c", cores]
    while True:
        try: f, i, new = q.get_nowait()
        except queue.Empty: return
        orig = open(f"/repo/src/{f}").read()
        lines = orig.split("\n"); old = lines[i]; lines[i] = new
        txt = "\n".join(lines)
        for d in (repo, ws):
            shutil.rmtree(f"{d}/src"); shutil.copytree("/repo/src", f"{d}/src")
            open(f"{d}/src/{f}", "w").write(txt)
        r = dict(file=f, line=i + 1, old=old.strip(), new=new.strip())
        c, o = sh(ts + ["cargo", "test", "--offline", "--lib", "--tests", "--target-dir", f"{w}/ttarget", "--no-run", "-q"], ws, env)
        if c: r["result"] = "nocompile"
        else:
            c, o = sh(ts + ["timeout", "120", "cargo", "test", "--offline", "--lib", "--tests", "--target-dir", f"{w}/ttarget", "-q"], ws, env)
            if c: r["result"] = "tests"
            else:
                key = next(k for k in ("plain_text", "pretty_print", "pane/", "json", "tree", "style", "oracle", "valid", "consolidated", "geometry", "pretty_doc", "notation", "") if k in f)
                order = ORDER.get(key.strip("/"), "").split()
                r["result"] = "SURVIVED"
                for pid in order:
                    c, o = sh(ts + [f"{HERE}/check", pid, "quick"], HERE, env)
                    if c == 1 and "VIOLATION" in o:
                        r["result"] = pid; r["how"] = o[-300:]; break
                    if c != 0:
                        r.setdefault("odd", []).append([pid, c, o[-300:]])
                        if "build failed" in o: r["result"] = "nobuild"; break
        with lock:
            open(f"{ROOT}/results.jsonl", "a").write(json.dumps(r) + "\n")

def main():
    nw = int(sys.argv[1])
    done = set()
    try:
        for l in open(f"{ROOT}/results.jsonl"):
            r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
    except FileNotFoundError: pass
    q = queue.Queue(); k = 0
    for f in sys.argv[2:]:
        for i, new in mutants(f):
            if (f, i + 1, new.strip()) not in done:
                q.put((f, i, new)); k += 1
    print(k, "mutants", flush=True)
    lock = threading.Lock()
    per = 8 // nw
    ts = [threading.Thread(target=worker, args=(n, q, lock, f"{n*per}-{n*per+per-1}")) for n in range(nw)]
    [t.start() for t in ts]; [t.join() for t in ts]

main()
