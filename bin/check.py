#!/usr/bin/env python3
"""check.py <property>             run the check (tier and seed from VERIF_TIER / VERIF_SEED)
check.py --replay <file>        run one saved failure again
check.py --setup                build everything

Exit 0: held on everything explored. Exit 1: a line "VIOLATION property=<id> replay=<path>"."""

import concurrent.futures
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import registry  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = VERIF + "/src"
BUILD = VERIF + "/build"
CXX = "g++"
BASE = ("-std=gnu++11 -DNDEBUG -msse2 -mfpmath=sse -march=x86-64 -mtune=generic -fPIC -fomit-frame-pointer -m64 "
        "-DMIE_ATE_USE_GMP -w").split()
VARIANT_FLAGS = {"default": [], "snark": ["-DBN_SUPPORT_SNARK"],
                 # other capacities of the big integers (VUINT_BIT_LEN of the Makefile; at least 512)
                 "v512": ["-DMIE_ZM_VUINT_BIT_LEN=512"], "v1024": ["-DMIE_ZM_VUINT_BIT_LEN=1024"],
                 "v2048": ["-DMIE_ZM_VUINT_BIT_LEN=2048"], "v512snark": ["-DMIE_ZM_VUINT_BIT_LEN=512", "-DBN_SUPPORT_SNARK"],
                 "tsan": ["-fsanitize=thread"], "snarktsan": ["-DBN_SUPPORT_SNARK", "-fsanitize=thread"]}
# builds of C33: assertions, optimisation, compiler, without the GMP interface, capacity
_B33 = {"debug": ["-O0", "-UNDEBUG"], "debugO2": ["-UNDEBUG"], "native": ["-O3", "-march=native", "-mtune=native"], "clang": [], "clangdebug": ["-O1", "-UNDEBUG"],
        "nogmp": ["-UMIE_ATE_USE_GMP"], "size": ["-Os", "-fno-inline", "-fno-pic", "-no-pie"], "wide": ["-DMIE_ZM_VUINT_BIT_LEN=1000"], "cxx17": ["-std=gnu++17"]}
for _k, _f in _B33.items():
    VARIANT_FLAGS["b" + _k] = _f
    VARIANT_FLAGS["s" + _k] = _f + ["-DBN_SUPPORT_SNARK"]
# sanitizers of C34 (generated code is not instrumented: C28)
_SAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
VARIANT_FLAGS["san"] = _SAN
VARIANT_FLAGS["sansnark"] = _SAN + ["-DBN_SUPPORT_SNARK"]
# coverage-guided search
_COV = ["-O1", "-fsanitize-coverage=trace-pc-guard,trace-cmp"]
VARIANT_FLAGS["cov"] = _COV
VARIANT_FLAGS["covsnark"] = _COV + ["-DBN_SUPPORT_SNARK"]
VARIANT_FLAGS["sancov"] = _COV + ["-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fno-sanitize-recover=all"]
VARIANT_CXX = {k: "clang++" for k in VARIANT_FLAGS if "clang" in k or k.startswith("cov") or k == "sancov"}
VARIANT_LINK = {"sancov": ["-fsanitize=address"], "san": ["-fsanitize=address,undefined"], "sansnark": ["-fsanitize=address,undefined"], "bsize": ["-no-pie"], "ssize": ["-no-pie"], "tsan": ["-fsanitize=thread"], "snarktsan": ["-fsanitize=thread"]}
JOBS = max(2, min(16, os.cpu_count() or 2))


class BuildError(Exception):
    pass


def sh(cmd, timeout=800, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)


def digest_of(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\1")
    return h.hexdigest()[:20]


def files_under(*dirs, exts=(".h", ".hpp", ".cpp", ".c", ".inc", ".i")):
    out = []
    for d in dirs:
        for r, ds, fs in os.walk(d):
            ds[:] = [x for x in ds if x not in (".git", "_build", "lib", "bin", "mcl")]
            out += [os.path.join(r, f) for f in fs if f.endswith(exts)]
    return sorted(out)


_repo_key = None
_locks = {}
_locks_lock = threading.Lock()
_compilers = threading.Semaphore(10)  # at most so many compilers at a time


def lock_for(name):
    with _locks_lock:
        return _locks.setdefault(name, threading.Lock())


def repo_key():
    global _repo_key
    if _repo_key is None:
        _repo_key = digest_of(files_under(REPO + "/include", REPO + "/src", REPO + "/java"))
    return _repo_key


def compile_obj(src, name, flags, deps=(), cxx=CXX):
    """Compile src unless an object made from the same text and flags exists."""
    key = digest_of([src] + list(deps), repo_key() + " ".join(flags) + cxx)
    d = f"{BUILD}/obj/{key[:2]}"
    obj = f"{d}/{name}-{key}.o"
    with lock_for(obj):
        if os.path.exists(obj):
            os.utime(obj)
            return obj
        os.makedirs(d, exist_ok=True)
        tmp = f"{obj}.{os.getpid()}.tmp"
        with _compilers:
            p = sh([cxx] + flags + ["-c", src, "-o", tmp])
        if p.returncode:
            if os.path.exists(tmp):
                os.remove(tmp)
            raise BuildError(f"{src} [{' '.join(flags)}]\n" + p.stdout.decode(errors="replace")[-6000:])
        os.rename(tmp, obj)
        return obj


def prune():
    """Keep the object cache small."""
    d = BUILD + "/obj"
    objs = [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]
    objs = sorted(objs, key=lambda p: os.path.getmtime(p), reverse=True)
    total = 0
    for p in objs:
        total += os.path.getsize(p)
        if total > 600 << 20:
            os.remove(p)


def harness_deps():
    return files_under(SRC, exts=(".h",))


def build(pid, variant, extra=(), src=None, name=None, link=(), opt="-O2"):
    """Build the harness of one property for one variant; returns the program's path."""
    src = src or f"{SRC}/props/{pid}.cpp"
    link = list(link) + VARIANT_LINK.get(variant, [])
    name = name or pid
    vf = VARIANT_FLAGS[variant]
    cxx = VARIANT_CXX.get(variant, CXX)
    inc = ["-I" + SRC, "-I" + REPO + "/src", "-I" + REPO + "/include", "-I" + REPO + "/java"]
    lib = BASE + ["-O2"] + vf + inc
    har = BASE + [opt] + vf + inc + list(extra)

    def harness():
        try:
            return compile_obj(src, name + "-" + variant, har + ["-DPT_INTERNAL"], harness_deps(), cxx)
        except BuildError as e:
            # helpers that are not part of the interface may have gone: leave their tests out
            obj = compile_obj(src, name + "-" + variant, har, harness_deps(), cxx)
            print(f"note: {name} {variant}: built without the tests of internal helpers\n{str(e)[:1500]}", file=sys.stderr)
            return obj

    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(compile_obj, REPO + "/src/zm.cpp", "zm-" + variant, lib, (), cxx),
              ex.submit(compile_obj, REPO + "/src/zm2.cpp", "zm2-" + variant, lib, (), cxx),
              ex.submit(compile_obj, SRC + "/engine.cpp", "engine", ["-std=gnu++11", "-O2", "-w", "-I" + SRC], harness_deps()),
              ex.submit(harness)]
        objs = [f.result() for f in fs]
    key = digest_of(objs, " ".join(link))
    exe = f"{BUILD}/exe/{name}-{variant}-{key}"
    with lock_for(exe):
        if not os.path.exists(exe):
            os.makedirs(BUILD + "/exe", exist_ok=True)
            for f in os.listdir(BUILD + "/exe"):
                if f.startswith(f"{name}-{variant}-"):
                    try:
                        os.remove(f"{BUILD}/exe/{f}")
                    except OSError:
                        pass
            tmp = f"{exe}.{os.getpid()}.tmp"
            p = sh([cxx if variant == "sancov" else CXX, "-o", tmp] + objs + ["-lgmpxx", "-lgmp", "-lpthread"] + list(link))
            if p.returncode:
                raise BuildError("link: " + p.stdout.decode(errors="replace")[-4000:])
            os.rename(tmp, exe)
    return exe


def build_all(pid, variants, **kw):
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fs = {v: ex.submit(build, pid, v, **kw) for v in variants}
        return {v: f.result() for v, f in fs.items()}


def conf(c):
    """(variant, curve, mode, mulx[, label])"""
    variant, curve, mode, mulx = c[:4]
    label = c[4] if len(c) > 4 else ""
    key = f"{curve}-m{mode}-x{mulx}" + ("-" + label if label else "")
    return variant, curve, mode, mulx, key


def source_of(pid, c):
    """The harness a configuration runs: that of the property, or (spec["multi"]) the one its label names, as in C20.san."""
    spec = registry.PROPS[pid]
    return c[4].split(".")[0] if spec.get("multi") else pid


def build_for(pid, c):
    """The program of one configuration."""
    p = source_of(pid, c)
    spec = registry.PROPS[p]
    return build(p, c[0], extra=spec.get("flags", ()), link=spec.get("link", ()))


def build_confs(pid, matrix):
    todo = {}
    for c in matrix:
        todo.setdefault((c[0], source_of(pid, c)), c)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fs = {k: ex.submit(build_for, pid, c) for k, c in todo.items()}
        return {k: f.result() for k, f in fs.items()}


def is_guided(variant):
    return variant in ("cov", "covsnark", "sancov")


def wrapper(c, log):
    """valgrind, for the configurations labelled so"""
    if len(c) > 4 and c[4].endswith(".vg"):
        return ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--max-stackframe=8000000", "--log-file=/dev/stderr" if log == "/dev/null" else f"--log-file={log}.%p"]
    return []


def run_one(exe, pid, c, tier, seed, scale, tmo, workdir, extra=(), found=None):
    if found:
        return None
    variant, curve, mode, mulx, key = conf(c)
    out = f"{workdir}/{pid}-{key}.json"
    if os.path.exists(out):
        os.remove(out)
    log = f"{workdir}/vg-{key}"
    scale *= registry.PROPS[pid].get("scale_of", {}).get(key.rsplit(".", 1)[-1], 1)
    cmd = wrapper(c, log) + [exe, "--prop", pid, "--variant", variant, "--curve", curve, "--mode", str(mode), "--mulx", str(mulx), "--tier", tier,
           "--seed", str(seed), "--key", key, "--scale", str(scale), "--time", str(tmo), "--out", out] + list(extra)
    if is_guided(variant):
        tmo = registry.PROPS[pid].get("guided_" + tier, 30 if tier == "quick" else 900)
        cmd[cmd.index("--time") + 1] = str(tmo)
        cmd += ["--guided", "1"]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, cwd=workdir)
    end = time.time() + tmo * 2 + 400
    while True:
        try:
            o, _ = p.communicate(timeout=2)
            break
        except subprocess.TimeoutExpired:
            # enough is known once another configuration has failed for certain
            late = found is not None and found and time.time() > found[0] + 30
            if late or time.time() > end:
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                if late:
                    return None
                raise RuntimeError(f"{key}: the test program did not finish")
    if p.returncode or not os.path.exists(out):
        raise RuntimeError(f"{key}: the test program failed with {p.returncode}: {o.decode(errors='replace')[-2000:]}")
    with open(out) as f:
        r = json.load(f)
    r["config"] = list(c)
    r["key"] = key
    if not r["ok"] and wrapper(c, log):
        for f in sorted(os.listdir(workdir)):
            if f.startswith(os.path.basename(log)) and os.path.getsize(f"{workdir}/{f}"):
                r["fail"]["text"] = open(f"{workdir}/{f}", errors="replace").read(4000) + r["fail"].get("text", "")
                break
    if found is not None and not r["ok"] and reproducible(r["fail"]):
        found.append(time.time())
    return r


def save_replay(pid, r, seed, tier):
    f = r["fail"]
    d = BUILD + "/replays"
    os.makedirs(d, exist_ok=True)
    rec = {"property": pid, "config": r["config"], "key": r["key"], "seed": seed, "tier": tier, "repo": repo_key(), **f}
    h = hashlib.sha256(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10]
    path = f"{d}/{pid}-{h}.json"
    with open(path, "w") as fp:
        json.dump(rec, fp, indent=1)
    return path


def reproducible(f):
    return f.get("repeat", 0) == 3 or f.get("histRepeat", 0) == 3 or f.get("flaky", False)


def known_findings(pid):
    out = []
    path = VERIF + "/KNOWN_FINDINGS"
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: ") and f"property={pid} " in line:
                out.append(line[len("known: "):])
    return out


def write_evidence(pid, tier, seed, cov, wall, violations, assumptions=()):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": registry.PROPS[pid].get("level", "exploration"), "coverage": cov,
          "wall_s": round(wall, 2), "violations": violations}
    if assumptions:
        ev["assumptions"] = list(assumptions)
    tmp = f"{VERIF}/evidence/.{pid}.{os.getpid()}"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(tmp, f"{VERIF}/evidence/{pid}.json")


def merge(results):
    """Totals over all runs of the harness."""
    tests = {}
    for r in results:
        for name, t in r.get("tests", {}).items():
            m = tests.setdefault(name, {"evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "classes": {}, "configurations": 0})
            m["evaluations"] += t["evals"]
            m["nontrivial"] += t["nontrivial"]
            m["distinct_nontrivial"] += t["distinct"]
            m["configurations"] += 1
            if "corpus" in t:
                g = m.setdefault("guided", {"evaluations": 0, "tapes_kept": 0, "features": 0})
                g["evaluations"] += t["evals"]
                g["tapes_kept"] += t["corpus"]
                g["features"] += t["features"]
            if t["evals"] < t["planned"]:
                m["stopped_by_time"] = m.get("stopped_by_time", 0) + 1
            for k, v in t.get("classes", {}).items():
                m["classes"][k] = m["classes"].get(k, 0) + v
    for m in tests.values():
        if not m["classes"]:
            del m["classes"]
    return tests


def check(pid, tier, seed):
    spec = registry.PROPS[pid]
    t0 = time.time()
    workdir = f"{BUILD}/run/{pid}-{os.getpid()}"
    os.makedirs(workdir, exist_ok=True)
    try:
        if "custom" in spec:
            import custom
            return getattr(custom, spec["custom"])(sys.modules[__name__], pid, spec, tier, seed, workdir)
        results, fails, notes = run_matrix(pid, spec, tier, seed, workdir)
        return finish(pid, spec, tier, seed, t0, results, fails, notes)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
        prune()


def run_matrix(pid, spec, tier, seed, workdir, matrix=None, extra_args=()):
    matrix = matrix or spec["matrix"]
    exes = build_confs(pid, matrix)
    tmo = spec.get("time_" + tier, 100 if tier == "quick" else 1500)
    scale = spec.get("scale_" + tier, 1.0) * float(os.environ.get("VERIF_SCALE", "1"))
    notes = []
    results = []
    with concurrent.futures.ThreadPoolExecutor(spec.get("jobs", JOBS)) as ex:
        found = []
        fs = [ex.submit(run_one, exes[c[0], source_of(pid, c)], pid, c, tier, seed, scale, tmo, workdir, extra_args, found) for c in matrix]
        results = [f.result() for f in fs]
    fails = []
    for c, r in zip(matrix, results):
        if r is None or r["ok"]:
            continue
        if not reproducible(r["fail"]):
            # once more; a failure of the program that never repeats is no evidence about the code
            r2 = run_one(exes[c[0], source_of(pid, c)], pid, c, tier, seed, scale, tmo, workdir, extra_args)
            if r2["ok"]:
                notes.append(f"{r['key']}: {r['fail']['test']} failed once and not again: {r['fail']['msg'][:300]}")
                continue
            r = r2
        fails.append(r)
    if None in results:
        notes.append(f"{results.count(None)} of {len(results)} configurations not run to their end: others had failed already")
    return [r for r in results if r is not None], fails, notes


def finish(pid, spec, tier, seed, t0, results, fails, notes, extra_cov=None):
    tests = merge(results)
    cov = {
        "evaluations": sum(r["evals"] for r in results),
        "distinct_nontrivial": sum(r["distinct"] for r in results),
        "rule": spec["rule"] + ". Counted per configuration and test; two cases of one test are distinct if they drew different choices.",
        "samples": [s for r in results[:3] for s in r.get("samples", [])][:12],
        "configurations": [r["key"] for r in results],
        "tests": tests,
    }
    if notes:
        cov["notes"] = notes
    if extra_cov:
        cov.update(extra_cov)
    for k in known_findings(pid):
        print("KNOWN-FINDING: " + k)
    paths = []
    for r in fails[:4]:
        path = save_replay(pid, r, seed, tier)
        f = r["fail"]
        paths.append(path)
        print(f"--- {pid} [{r['key']}] {f['test']}: {f['msg'][:1500]}")
        if f.get("text"):
            print(f["text"][:3000])
        print(f"VIOLATION property={pid} replay={path}")
    write_evidence(pid, tier, seed, cov, time.time() - t0, len(fails), spec.get("assumptions", ()))
    if not fails:
        print(f"{pid}: held on {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct non-trivial) in {time.time() - t0:.1f} s")
    return 1 if fails else 0


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    pid = rec["property"]
    spec = registry.PROPS[pid]
    if "replay" in spec and "reference" in rec:
        import custom
        return getattr(custom, spec["replay"])(sys.modules[__name__], rec)
    variant, curve, mode, mulx, key = conf(rec["config"])
    exe = build_for(pid, rec["config"])
    base = wrapper(rec["config"], "/dev/null") + [exe, "--prop", pid, "--variant", variant, "--curve", curve, "--mode", str(mode), "--mulx", str(mulx), "--key", key,
            "--only", rec["test"], "--seed", str(rec["seed"]), "--tier", rec["tier"], "--keep-output", "1"]
    if rec["test"] == "init":
        p = subprocess.run(base + ["--show-case", "0"])
        bad = p.returncode not in (0, 2)
    elif rec.get("repeat", 0) == 0 and rec.get("histRepeat", 0):
        p = subprocess.run(base + ["--replay-history", f"{rec['histFrom']}-{rec['case']}"])
        bad = p.returncode == 1
    else:
        p = subprocess.run(base + ["--replay-tape", ",".join(map(str, rec["tape"])) or "-"])
        bad = p.returncode == 1
    if bad:
        print(f"VIOLATION property={pid} replay={path}")
    return 1 if bad else 0


def setup():
    todo = {}
    for pid, spec in registry.PROPS.items():
        for c in spec["matrix"]:
            todo.setdefault((source_of(pid, c), c[0]), spec if source_of(pid, c) == pid else registry.PROPS[source_of(pid, c)])
        for v in spec.get("all_variants", ()):
            todo.setdefault((pid, v), spec)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(build, p, v, extra=spec.get("flags", ()), link=spec.get("link", ())) for (p, v), spec in todo.items()]
        for f in fs:
            f.result()
    return 0


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        return setup()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) >= 3:
        tier = sys.argv[2]
    tier = "thorough" if tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return check(pid, tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        print("BUILD ERROR: " + str(e), file=sys.stderr)
        sys.exit(2)
