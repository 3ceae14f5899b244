#!/usr/bin/env python3
"""Run the checks in copies of /repo and /verif beside each other, several at once, with a patch applied.

  mirror.py [-j N] [-s SEED] [-t TIER] bug [ID...] [Cxx...]   planted bugs: their property's check must find them
  mirror.py [-j N] ... quiet PATCH... [Cxx...]      behaviour-preserving patches: every check must stay quiet
  mirror.py [-j N] ... clean SEED... [Cxx...]       the unchanged tree with other seeds: every check must stay quiet
"""
import json, os, queue, re, shutil, subprocess, sys, tempfile, threading
V = "/verif"; S = V + "/seeded"
ALL = ["C%02d" % i for i in range(1, 36)]

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def mirror():
    w = tempfile.mkdtemp(prefix="mirror-", dir="/tmp")
    sh(f"git clone -q /repo {w}/repo && cp -a /repo/Cargo.lock {w}/repo/ 2>/dev/null")
    os.mkdir(w + "/verif")
    sh(f"cd {V} && cp -a *.sh *.txt *.json *.jsonl repo.Cargo.lock harness tools target {w}/verif/")
    return w

BIN = {}
for b, ps in {"vcore": "C01 C02 C03 C04 C05 C06 C07 C10 C17 C18 C19 C23 C29 C30 C31 C32 C33 C34 C35", "vparts": "C08 C09 C16 C20 C21 C22 C25",
              "vlow": "C11 C12 C13 C14 C15", "vffi": "C24", "vext": "C26 C27"}.items():
    for p in ps.split(): BIN[p] = b
BUILD = """cd verif; . ./env.sh
rm -rf "$PWD"/target/release/.fingerprint/bitboost-*
RUSTFLAGS="-C target-cpu=x86-64-v3" quiet_build all cargo build --release --offline --manifest-path harness/Cargo.toml --target-dir target \
    --bin vcore --bin vparts --bin vlow --bin vffi --bin vext && build_repo && build_python"""

def run(w, prop, seed, tier, built):
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_REPO=w + "/repo", VERIF_DIR=w + "/verif", RUST_BACKTRACE="0")
    cmd = [f"{w}/verif/target/release/{BIN[prop]}", "run", prop] if built and prop in BIN else ["bash", f"{w}/verif/check.sh", prop]
    try:
        r = sh(cmd, env=env, cwd=w + "/verif", timeout=7200)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "TIMEOUT"

def worker(jobs, lock, seed, tier, save):
    w = mirror()
    try:
        while True:
            try: kind, name, patch, props, s = jobs.get_nowait()
            except queue.Empty: return
            sh(f"git -C {w}/repo checkout -q -- .")
            if patch:
                r = sh(f"git -C {w}/repo apply {patch}")
                if r.returncode:
                    with lock: print("APPLY-FAILED", name, r.stdout, flush=True)
                    continue
            built = len(props) > 1
            if built:
                r = sh(["bash", "-c", BUILD], cwd=w)
                if r.returncode:
                    with lock: print("BUILD-FAILED", name, r.stdout[-1000:], flush=True)
                    continue
            for p in props:
                rc, out = run(w, p, s if s is not None else seed, tier, built)
                hit = [l for l in out.splitlines() if l.startswith(f"VIOLATION property={p} ")]
                if kind == "bug":
                    word = "CAUGHT" if rc == 1 and hit else "MISSED"
                else:
                    word = "quiet" if rc == 0 and not hit else "ALARM"
                with lock:
                    print(word, name, p, rc, *hit[:1], "" if word in ("CAUGHT", "quiet") else out[-1500:], flush=True)
                    if hit:
                        m = re.search(r"replay=(\S+)", hit[0])
                        if m and os.path.exists(m.group(1)):
                            os.makedirs("/tmp/mirror-replays", exist_ok=True)
                            shutil.copy(m.group(1), f"/tmp/mirror-replays/{name}-{os.path.basename(m.group(1))}")
    finally:
        shutil.rmtree(w, ignore_errors=True)

def main():
    a = sys.argv[1:]; n, seed, tier = 4, 1, "quick"
    while a[0].startswith("-"):
        o, v = a[0], a[1]; a = a[2:]
        if o == "-j": n = int(v)
        if o == "-s": seed = int(v)
        if o == "-t": tier = v
    kind, a = a[0], a[1:]
    props = [x for x in a if re.fullmatch(r"C\d\d", x)]
    a = [x for x in a if not re.fullmatch(r"C\d\d", x)]
    jobs = queue.Queue(); k = 0
    if kind == "bug":
        for b in a or sorted(os.listdir(S)):
            own = json.load(open(f"{S}/{b}/meta.json"))["property"]
            jobs.put((kind, b, f"{S}/{b}/patch.diff", props or [own], None)); k += 1
    elif kind == "quiet":
        for p in a:
            jobs.put((kind, os.path.basename(p), os.path.abspath(p), props or ALL, None)); k += 1
    elif kind == "clean":
        for s in a:
            jobs.put((kind, "seed" + s, None, props or ALL, int(s))); k += 1
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(jobs, lock, seed, tier, None)) for _ in range(min(n, k))]
    for t in ts: t.start()
    for t in ts: t.join()

main()
