#!/usr/bin/env python3
"""Mutation runs: small syntactic changes of /repo's sources, one at a time, in copies beside each other.

  mutate.py [-j N] [-n COUNT] [-s SEED] [-f FILEREGEX] OUT.jsonl

For each mutant that compiles, the checks run (scaled down first, then in full); what no check notices is
run against the repository's tests and written to OUT with the diff line. Survivors are looked at by hand: either no
behaviour changed, or a check has a gap.
"""
import json, os, queue, random, re, shutil, subprocess, sys, threading, time
sys.argv0 = sys.argv[0]
V = "/verif"
sys.path.insert(0, V + "/tools")

BIN = {}
for b, ps in {"vcore": "C01 C02 C03 C04 C05 C06 C07 C10 C17 C18 C19 C23 C29 C30 C31 C32 C33 C34", "vparts": "C08 C09 C16 C20 C21 C22 C25",
              "vlow": "C11 C12 C13 C14 C15", "vffi": "C24", "vext": "C26 C27"}.items():
    for p in ps.split(): BIN[p] = b
LIKELY = {
    "objective.rs": "C08 C09 C01 C23", "learner.rs": "C02 C03 C01 C04 C23 C10", "tree.rs": "C01 C03 C06 C07 C25", "dataset.rs": "C17 C18 C19 C01 C23",
    "boost.rs": "C07 C01 C26 C24", "binner.rs": "C16 C17 C18", "bitblock.rs": "C14", "bitset.rs": "C14", "bitslice.rs": "C11 C12",
    "count_and_sum.rs": "C12", "simd.rs": "C12 C02", "slice_store.rs": "C15 C13 C11 C14 C12 C02", "config.rs": "C21", "data.rs": "C22 C25 C23",
    "metric.rs": "C20 C26", "c_api.rs": "C24 C27", "run.rs": "C26", "bitboost.py": "C27", "sklearn.py": "C27", "__init__.py": "C27",
    "bitboost_gen_config_csv.rs": "C21 C27", "lib.rs": "C23"}
FILES = ["src/objective.rs", "src/tree/learner.rs", "src/tree/tree.rs", "src/dataset.rs", "src/boost.rs", "src/binner.rs", "src/bitblock.rs",
         "src/bitset.rs", "src/bitslice.rs", "src/count_and_sum.rs", "src/simd.rs", "src/slice_store.rs", "src/config.rs", "src/data.rs",
         "src/metric.rs", "src/c_api.rs", "src/bin/run.rs", "src/bin/bitboost_gen_config_csv.rs", "src/lib.rs",
         "python/bitboost/bitboost.py", "python/bitboost/sklearn.py"]

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

OPS = [(r" < ", [" <= ", " >= "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / ", " + "]), (r" / ", [" * "]), (r" % ", [" / "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]),
       (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" & ", [" | "]), (r" \| (?!\|)", [" & "]), (r" \^ ", [" | "]), (r" << ", [" >> "]), (r" >> ", [" << "]),
       (r" and ", [" or "]), (r" or ", [" and "]), (r"\bnot ", [""]),
       (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"::min\(", ["::max("]), (r"::max\(", ["::min("]), (r"\.floor\(\)", [".ceil()", ".round()"]), (r"\.round\(\)", [".floor()"]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bTrue\b", ["False"]), (r"\bFalse\b", ["True"]), (r"!(?=[a-z(])", [""]), (r"(?<=[ (=])-(?=[a-z0-9(])", [""]),
       (r"\.abs\(\)", [""]), (r"\bleft_", ["right_"]), (r"\bright_", ["left_"]), (r"\bl(grad|count|loss)\b", [r"r\1"]), (r"\bparent_", ["child_"]),
       (r"\.\.=", [".."]), (r"\.rev\(\)", [""]), (r"\bNone\b", ["Some(Default::default())"]),
       (r"(?<![\w.])0\.5(?!\d)", ["0.25"]), (r"(?<![\w.])(\d+)\.0(?!\d)", [r"(\1.0+1.0)"]), (r"(?<![\w.#])(\d+)(?![\w.])", [r"(\1+1)"]),
       (r"\bcontinue;", [""]), (r"\bbreak;", [""]), (r"\.nactive_examples\(\)", [".data().nexamples()"]), (r"\bu64\b", ["u16 as u64"]), (r"sample_freq", ["metric_frequency"])]

def mutants(path):
    src = open("/repo/" + path).read()
    body = src.split("#[cfg(test)]")[0] if path.endswith(".rs") else src
    lines = body.split("\n")
    out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "use ", "/*", "*", '"""', "import ", "from ")) or re.match(r"(pub )?(unsafe )?(fn|impl|struct|enum|trait|type|where|mod|macro_rules!)\b", s): continue
        if re.search(r"println!|debug!|warn!|assert|safety_check|panic!|print\(|expect\(|Debug|#\[", s): continue
        code = l.split("//")[0]
        for pat, subs in OPS:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2: continue
                for sub in subs:
                    new = code[:m.start()] + m.expand(sub) + code[m.end():]
                    if new != code: out.append((path, i, l, new))
        if re.match(r"[a-z_][\w.\[\]()&:<>,* ]*( [-+*/|&^]?= |\().*;$", s) and not s.startswith(("let", "return", "pub")):
            out.append((path, i, l, ""))
        if path.endswith(".py") and re.match(r"(self\.|[a-z_]+ = |[a-z_.]+\()", s) and s.endswith(")"):
            out.append((path, i, l, re.match(r"\s*", l).group() + "pass"))
    return out

def mirror(k):
    w = f"/tmp/mutate-{os.getpid()}-{k}"
    os.makedirs(w)
    sh(f"git clone -q /repo {w}/repo; cp -a /repo/Cargo.lock {w}/repo/")
    os.mkdir(w + "/verif")
    sh(f"cd {V} && mkdir -p {w}/verif/target && cp -a *.sh *.txt *.json *.jsonl repo.Cargo.lock harness tools {w}/verif/ && cp -a target/release {w}/verif/target/ && cp -a target/repo {w}/verif/target/")
    return w

SCRIPT = """cd verif; . ./env.sh; ulimit -v 12000000
build() { rm -rf "$PWD"/target/release/.fingerprint/bitboost-*
RUSTFLAGS="-C target-cpu=x86-64-v3" timeout 300 cargo build -q --release --offline --manifest-path harness/Cargo.toml --target-dir target --bin vcore --bin vparts --bin vlow --bin vffi --bin vext >target/b.log 2>&1 || return 1
build_repo && build_python; }
build"""

def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))

def worker(k, jobs, out, lock, n):
    w = mirror(k)
    base = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VERIF_REPO=w + "/repo", VERIF_DIR=w + "/verif", VERIF_EVIDENCE=w + "/ev.json", RUST_BACKTRACE="0")
    try:
        while True:
            try: path, i, old, new = jobs.get_nowait()
            except queue.Empty: return
            f = f"{w}/repo/{path}"
            sh(f"git -C {w}/repo checkout -q -- .")
            lines = open(f).read().split("\n")
            assert lines[i] == old
            lines[i] = new
            open(f, "w").write("\n".join(lines))
            t0 = time.time()
            rec = {"file": path, "line": i + 1, "old": old.strip(), "new": new.strip()}
            # what the existing tests notice is of no interest here
            try:
                r = sh("cargo test --lib --bins --no-fail-fast --offline -- --test-threads 2", cwd=w + "/repo",
                       env=dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=w + "/tt"), timeout=300)
                ok = len(re.findall(r"^test .* \.\.\. ok$", r.stdout, flags=re.M))
            except subprocess.TimeoutExpired: ok = -1
            if ok < 48:
                rec["result"] = "nobuild" if "could not compile" in r.stdout else "tests"
            elif sh(["bash", "-c", SCRIPT], cwd=w, env=base).returncode:
                rec["result"] = "nobuild"
            else:
                like = LIKELY.get(os.path.basename(path), "").split()
                order = like + [p for p in sorted(BIN) if p not in like]
                if path.endswith(".py"): like = order = ["C27"]
                if path.endswith("run.rs"): like = order = ["C26"]
                rec["result"] = "SURVIVED"
                for scale, ps in (("0.1", order), ("0.6", like)):
                    for p in ps:
                        env = dict(base, VERIF_SCALE=scale)
                        try:
                            r = sh([f"{w}/verif/target/release/{BIN[p]}", "run", p], cwd=w + "/verif", env=env, timeout=600, preexec_fn=limit)
                            rc, o = r.returncode, r.stdout
                        except subprocess.TimeoutExpired:
                            rc, o = 124, ""
                        if rc:
                            rec["result"] = "caught"; rec["by"] = p; rec["rc"] = rc; rec["scale"] = scale
                            if rc != 1: rec["out"] = o[-300:]
                            break
                    if rec["result"] == "caught": break
            rec["s"] = round(time.time() - t0)
            with lock:
                out.write(json.dumps(rec) + "\n"); out.flush()
    finally:
        shutil.rmtree(w, ignore_errors=True)

def main():
    a = sys.argv[1:]; j, n, seed, fre = 3, 100, 1, "."
    while a[0].startswith("-"):
        o, v = a[0], a[1]; a = a[2:]
        if o == "-j": j = int(v)
        if o == "-n": n = int(v)
        if o == "-s": seed = int(v)
        if o == "-f": fre = v
    rnd = random.Random(seed)
    done = set()
    for extra in a[1:]:
        for l in open(extra): r = json.loads(l); done.add((r["file"], r["line"], r["old"], r["new"]))
    all_ = [m for f in FILES if re.search(fre, f) for m in mutants(f)]
    print(len(all_), "mutants"); 
    rnd.shuffle(all_)
    all_ = [m for m in all_ if (m[0], m[1] + 1, m[2].strip(), m[3].strip()) not in done][:n]
    jobs = queue.Queue()
    for m in all_: jobs.put(m)
    lock = threading.Lock()
    with open(a[0], "a") as out:
        ts = [threading.Thread(target=worker, args=(k, jobs, out, lock, n)) for k in range(j)]
        for t in ts: t.start()
        for t in ts: t.join()

main()
