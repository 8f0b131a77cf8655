#!/usr/bin/env python3
"""Makes /verif/seeded from list.py: every planted bug is applied to a scratch copy of /repo, has to
build, pass the tests, fail its demonstration, and only replace lines of the original repository.
usage: make.py [ID...]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from list import S
OUT = os.path.join(here, "../../seeded")
BASE = "186db75"
ENV = dict(os.environ, RUST_BACKTRACE="0", RUSTFLAGS="--cap-lints warn", RUSTDOCFLAGS="--cap-lints warn")
def run(cmd, cwd, env=ENV, t=300):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode(errors="replace")
# lines my own commits added
def own_lines(f):
    _, out = run("git blame -s -l %s" % f, "/repo")
    _, base = run("git rev-list %s" % BASE, "/repo")
    base = set(base.split())
    return [l.split()[0].lstrip("^") not in {b[:len(l.split()[0].lstrip("^"))] for b in base} for l in out.splitlines()]
OWN = {}
def make(s, slot):
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        repo = d + "/repo"
        run("git clone -q /repo %s" % repo, "/tmp")
        os.makedirs(repo + "/target")
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                return "edit of %s occurs %d times: %r" % (f, t.count(old), old[:60])
            open(p, "w").write(t.replace(old, new))
        _, diff = run("git diff", repo)
        mine, orig, cur, n = [], 0, None, 0
        for l in diff.splitlines():
            if l.startswith("--- a/"): cur = l[6:]
            elif l.startswith("+++"): pass
            elif l.startswith("@@"): n = int(l.split()[1].split(",")[0][1:])
            elif l.startswith("-"):
                if OWN[cur][n - 1]: mine.append(l)
                else: orig += 1
                n += 1
            elif l.startswith("+") or l.startswith("diff") or l.startswith("index"): pass
            else: n += 1
        warn = []
        if mine: warn.append("own lines: %d %r" % (len(mine), mine[0][:70]))
        if not orig: warn.append("no original line is changed")
        sd = os.path.join(d, s["id"])
        os.makedirs(sd)
        open(sd + "/demo.rs", "w").write(open(here + "/prelude.rs").read() + "\nfn main() {" + s["demo"].rstrip() + "\n}\n")
        shutil.copy(here + "/demo.sh", sd + "/demo.sh")
        os.chmod(sd + "/demo.sh", 0o755)
        open(sd + "/patch.diff", "w").write(diff)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(sd + "/meta.json", "w"), indent=1)
        env = dict(ENV, CARGO_TARGET_DIR="/tmp/seedtarget/%d" % slot)
        c, out = run("cargo test --workspace --offline 2>&1", repo, env, 600)
        if out.count("test result: ok") != 3 or c != 0:
            return "tests: " + "\n".join([l for l in out.splitlines() if l.startswith("error") or "FAILED" in l or "panicked" in l][:6]) + out[-1500:]*(os.environ.get("V") is not None)
        c, out = run("bash %s/demo.sh" % sd, repo)
        if c == 0: return "the demonstration passes with the bug"
        if c == 2: return "the demonstration doesn't build: " + out[-1500:]
        s["fails"] = "\n".join(out.strip().splitlines()[-4:])
        run("git checkout -- .", repo)
        c, out = run("bash %s/demo.sh" % sd, repo)
        if c: return "the demonstration fails without the bug: " + out[-700:]
        run("git apply --check %s/patch.diff" % sd, repo)
        if any("no original" in w or "own" in w for w in warn): return "; ".join(warn)
        shutil.rmtree(os.path.join(OUT, s["id"]), ignore_errors=True)
        shutil.copytree(sd, os.path.join(OUT, s["id"]))
        return None
    except Exception as e:
        return repr(e)
    finally:
        shutil.rmtree(d)
def main():
    ids = sys.argv[1:]
    todo = [s for s in S if not ids or any(s["id"].startswith(i) for i in ids)]
    os.makedirs(OUT, exist_ok=True)
    for s in todo:
        for e in s["edits"]:
            OWN.setdefault(e[0], None)
    for f in OWN: OWN[f] = own_lines(f)
    import queue
    q = queue.Queue()
    for i in range(6): q.put(i)
    def one(s):
        i = q.get()
        try: return s, make(s, i)
        finally: q.put(i)
    bad = 0
    with ThreadPoolExecutor(6) as ex:
        for s, r in ex.map(one, todo):
            if r: bad += 1; print("BAD", s["id"], r)
            elif os.environ.get("V"): print("ok ", s["id"], s["fails"].replace("\n", " | ")[:300])
            sys.stdout.flush()
    print("%d made, %d bad" % (len(todo) - bad, bad))
    shutil.rmtree("/tmp/seedtarget", ignore_errors=True)
main()
