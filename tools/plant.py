#!/usr/bin/env python3
"""Plant bugs: turn specs into /verif/seeded/<id>/ and confirm them in scratch copies.

  plant.py make SPEC...     write patch.diff, demo, meta.json
  plant.py verify ID...     in a scratch copy: apply, stable tests, demo on both trees
  plant.py check ID...      apply to /repo, run check.sh of the property, undo
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = "/verif"; S = V + "/seeded"; T = V + "/tools"
BASE = json.load(open("/opt/vp/BASELINE.json"))

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def make(path):
    bid = os.path.basename(path).rsplit(".", 1)[0]
    txt = open(path).read()
    head, *parts = re.split(r"^=== ", txt, flags=re.M)
    meta = dict(re.findall(r"^(\w+): (.*)$", head, flags=re.M))
    w = tempfile.mkdtemp(prefix="plant-")
    sh(f"git clone -q /repo {w}/r")
    demo = None; kind = "rust"
    for p in parts:
        h, body = p.split("\n", 1)
        if h.startswith("file "):
            f = w + "/r/" + h[5:].strip()
            s = open(f).read()
            for old, new in re.findall(r"^<<<<\n(.*?)^====\n(.*?)^>>>>$", body, flags=re.M | re.S):
                assert s.count(old) == 1, (bid, s.count(old), old)
                s = s.replace(old, new)
            open(f, "w").write(s)
        elif h.startswith("demo"):
            demo = body; kind = h[4:].strip() or "rust"
    diff = subprocess.run(["git", "-C", w + "/r", "diff"], stdout=subprocess.PIPE, text=True).stdout
    assert diff, bid
    d = f"{S}/{bid}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    if kind in ("rust", "valgrind"):
        open(d + "/main.rs", "w").write(open(T + "/plant_prelude.rs").read() + demo)
        t = open(T + "/plant_demo.sh").read()
        if kind == "valgrind":
            t = t.replace('timeout 200 "', 'timeout 250 valgrind -q --error-exitcode=9 "')
        open(d + "/demo.sh", "w").write(t)
        shutil.copy(V + "/repo.Cargo.lock", d + "/Cargo.lock.txt")
    else:
        open(d + "/demo.sh", "w").write(demo)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
    return bid

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="")
ENV.pop("RUSTFLAGS", None)

def verify(bid):
    d = f"{S}/{bid}"
    w = tempfile.mkdtemp(prefix="plant-")
    out = []
    try:
        sh(f"cp -a /repo {w}/r")
        sh(f"git -C {w}/r checkout -q -- .")
        r = sh(["bash", d + "/demo.sh"], cwd=w + "/r", env=ENV)
        out.append(f"demo clean rc={r.returncode}")
        if r.returncode: out.append(r.stdout[-1500:])
        r = sh(f"git -C {w}/r apply {d}/patch.diff")
        if r.returncode: out.append("APPLY " + r.stdout)
        # build as build.sh would leave it
        sh(f"rm -rf {w}/r/target/debug/.fingerprint/bitboost-*")
        r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 4", cwd=w + "/r",
               env=dict(ENV, CARGO_TARGET_DIR=w + "/r/target", CARGO_PROFILE_DEV_DEBUG="line-tables-only"))
        ok = len(re.findall(r"^test .* \.\.\. ok$", r.stdout, flags=re.M))
        bad = re.findall(r"^test (.*) \.\.\. FAILED$", r.stdout, flags=re.M)
        bad = [b for b in bad if "src/" not in b]
        out.append(f"tests ok={ok} failed={bad}")
        if ok == 0: out.append(r.stdout[-1500:])
        r = sh(["bash", d + "/demo.sh"], cwd=w + "/r", env=ENV)
        out.append(f"demo patched rc={r.returncode}: " + r.stdout.strip()[-200:].replace("\n", " / "))
        good = out[0] == "demo clean rc=0" and not bad and ok >= 48 and r.returncode not in (0, 3, 4)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return bid, good, out

def check(bid, props=None):
    d = f"{S}/{bid}"
    prop = json.load(open(d + "/meta.json"))["property"]
    assert sh("git -C /repo status --porcelain").stdout == ""
    res = []
    try:
        r = sh(f"git -C /repo apply {d}/patch.diff"); assert r.returncode == 0, r.stdout
        for p in props or [prop]:
            r = sh(["bash", V + "/check.sh", p], env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"), cwd=V)
            hit = f"VIOLATION property={p} " in r.stdout
            line = [l for l in r.stdout.splitlines() if "VIOLATION" in l][:1]
            res.append((p, r.returncode, hit, line, "" if hit else r.stdout[-300:]))
    finally:
        sh("git -C /repo checkout -q -- .")
    return res

if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        for a in args:
            try: print("made", make(a))
            except AssertionError as e: print("FAILED", a, e)
    elif cmd == "verify":
        with ThreadPoolExecutor(4) as ex:
            for bid, good, out in ex.map(verify, args or sorted(os.listdir(S))):
                print("GOOD" if good else "BAD ", bid, *out, sep="\n   ", flush=True)
    elif cmd == "check":
        props = [a for a in args if re.fullmatch(r"C\d\d", a)] or None
        ids = [a for a in args if not re.fullmatch(r"C\d\d", a)]
        for bid in ids or sorted(os.listdir(S)):
            for p, rc, hit, line, tail in check(bid, props):
                print("CAUGHT" if hit and rc == 1 else "MISSED", bid, p, rc, *line, tail, flush=True)
