"""Checks that compare several processes."""

import concurrent.futures
import json
import os
import random
import re
import struct
import subprocess
import time

def _base_cmd(chk, exe, pid, c, seed, tier):
    variant, curve, mode, mulx, key = chk.conf(c)
    return [exe, "--prop", pid, "--variant", variant, "--curve", curve, "--mode", str(mode), "--mulx", str(mulx), "--key", key,
            "--seed", str(seed), "--tier", tier]


def _histories(rnd, curve, n):
    """Labels: initialisations before the last one (curve, mode, multiplier)."""
    out = []
    for i in range(n):
        k = rnd.randint(1, 4)
        first = "12"[i % 2]  # both curves come first
        h = "".join((first if j == 0 else rnd.choice("12")) + rnd.choice("901") + rnd.choice("01") for j in range(k))
        out.append((rnd.choice((-1, 0, 1)), rnd.choice((0, 1)), "h" + h))
    return out


def config_matrix(tier, seed):
    """Groups of configurations that must agree; the first of each group is the reference."""
    rnd = random.Random(seed * 7919 + 13)
    groups = []
    for variant, curve in (("default", "bn254"), ("snark", "snark1"), ("snark", "snark2")):
        g = [(variant, curve, 0, 1)]
        g += [(variant, curve, m, x) for m in (0, 1, -1) for x in (0, 1) if (m, x) != (0, 1)]
        g += [(variant, curve, 0, 1, "p")]
        if curve != "snark2":
            g += [(variant, curve, -1, 1, "s")]
        g += [(variant, curve, m, x, lab) for m, x, lab in _histories(rnd, curve, 4 if tier == "quick" else 16)]
        seen, uniq = set(), []
        for c in g:
            k = chk_key(c)
            if k not in seen:
                seen.add(k)
                uniq.append(c)
        groups.append(uniq)
    return groups


def build_matrix(tier, seed):
    """Differently built programs that must agree with the ordinary build."""
    kinds = ("debug", "debugO2", "native", "clang", "clangdebug", "nogmp", "size", "wide", "cxx17")
    groups = []
    for variant, first, curve in (("default", "b", "bn254"), ("snark", "s", "snark1"), ("snark", "s", "snark2")):
        g = [(variant, curve, 0, 1)]
        for i, k in enumerate(kinds):
            # every option of code generation meets some of the builds
            g.append((first + k, curve, (i + seed) % 2, (i // 2 + seed) % 2, k))
        groups.append(g)
    return groups


def chk_key(c):
    return tuple(c)


def _read(path):
    try:
        with open(path, "rb") as f:
            b = f.read()
    except OSError:
        return ()
    return struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8])


def _digest_of_tape(cmd, test, tape, show=False):
    try:
        p = subprocess.run(cmd + ["--only", test, "--digest-tape", ",".join(map(str, tape)) or "-"] + (["--keep-output", "1"] if show else []),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
    except subprocess.TimeoutExpired:
        return "hang", ""
    t = p.stdout.decode(errors="replace")
    m = re.search(r"digest ([0-9a-f]{16})\s*$", t)
    return (m.group(1) if m else f"died {p.returncode}"), t


def _shrink(differs, tape, limit):
    end = time.time() + limit
    best = list(tape)
    n = 0
    k = max(1, len(best) // 2)
    while k >= 1 and time.time() < end:
        i = 0
        while i < len(best) and time.time() < end:
            for cand in (best[:i] + best[i + k:], best[:i] + [0] * min(k, len(best) - i) + best[i + k:]):
                if cand == best:
                    continue
                n += 1
                if differs(cand):
                    best = cand
                    break
            else:
                i += k
                continue
            if len(best) and not any(best[i:i + k]):
                i += k
        k //= 2
    while best and best[-1] == 0:
        best.pop()
    return best, n


def configurations(chk, pid, spec, tier, seed, workdir):
    """Same inputs in processes with different options and histories of initialisation."""
    t0 = time.time()
    groups = (build_matrix if spec.get("groups") == "builds" else config_matrix)(tier, seed)
    exes = chk.build_all(pid, sorted({c[0] for g in groups for c in g}))
    tmo = 100 if tier == "quick" else 1500
    scale = spec.get("scale_" + tier, 1.0) * float(os.environ.get("VERIF_SCALE", "1"))
    runs = [c for g in groups for c in g]
    dig = {c: f"{workdir}/dig-{chk.conf(c)[4]}" for c in runs}
    with concurrent.futures.ThreadPoolExecutor(chk.JOBS) as ex:
        fs = {c: ex.submit(chk.run_one, exes[c[0]], pid, c, tier, seed, scale, tmo, workdir, ("--digest", dig[c])) for c in runs}
        res = {c: f.result() for c, f in fs.items()}
    results = [res[c] for c in runs]
    fails, notes = [], []
    for c in runs:
        r = res[c]
        if r["ok"]:
            continue
        if chk.reproducible(r["fail"]):
            fails.append(r)
        else:
            notes.append(f"{r['key']}: {r['fail']['test']} failed once and not again: {r['fail']['msg'][:300]}")
    compared = 0
    for g in groups:
        ref = g[0]
        bad = set()
        for test in ("parameters", "small", "medium", "large"):
            a = _read(f"{dig[ref]}.{test}")
            for c in g[1:]:
                if c in bad or not res[c]["ok"] or not res[ref]["ok"]:
                    continue
                b = _read(f"{dig[c]}.{test}")
                n = min(len(a), len(b))
                compared += n
                if a[:n] == b[:n]:
                    continue
                i = next(k for k in range(n) if a[k] != b[k])
                bad.add(c)
                if len(fails) >= 4:
                    continue
                fails.append(_config_failure(chk, pid, exes, ref, c, test, i, seed, tier))
    return chk.finish(pid, spec, tier, seed, t0, results, fails, notes, {"digests_compared_across_processes": compared})


def _config_failure(chk, pid, exes, ref, c, test, i, seed, tier):
    ca, cb = _base_cmd(chk, exes[ref[0]], pid, ref, seed, tier), _base_cmd(chk, exes[c[0]], pid, c, seed, tier)
    p = subprocess.run(ca + ["--only", test, "--show-case", str(i)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    m = re.search(r"^tape: ([0-9,]*)$", p.stdout.decode(errors="replace"), re.M)
    tape = [int(x) for x in m.group(1).split(",") if x] if m else []

    def differs(t):
        return _digest_of_tape(ca, test, t)[0] != _digest_of_tape(cb, test, t)[0]
    alone = bool(m) and differs(tape)
    execs = 0
    if alone:
        tape, execs = _shrink(differs, tape, 25)
    text = ""
    if alone:
        ta, tb = _digest_of_tape(ca, test, tape, True)[1].splitlines(), _digest_of_tape(cb, test, tape, True)[1].splitlines()
        text = "\n".join(x if x == y else f"{x}\n{y}   <-- other configuration" for x, y in zip(ta, tb))
    key = chk.conf(c)[4]
    return {"config": list(c), "key": key, "ok": False, "evals": 0, "distinct": 0,
            "fail": {"test": test, "case": i, "msg": f"same inputs give something else than in {chk.conf(ref)[4]}" + ("" if alone else " (after the cases before it)"),
                     "text": text, "repeat": 3, "flaky": False, "execs": execs, "tape": tape, "reference": list(ref), "alone": alone}}


def replay_configurations(chk, rec):
    pid = rec["property"]
    ref, c = tuple(rec["reference"]), tuple(rec["config"])
    exes = {v: chk.build(pid, v) for v in {ref[0], c[0]}}
    ca, cb = _base_cmd(chk, exes[ref[0]], pid, ref, rec["seed"], rec["tier"]), _base_cmd(chk, exes[c[0]], pid, c, rec["seed"], rec["tier"])
    if rec["alone"]:
        a, ta = _digest_of_tape(ca, rec["test"], rec["tape"], True)
        b, tb = _digest_of_tape(cb, rec["test"], rec["tape"], True)
    else:
        a = b = ta = tb = ""
        d = f"{chk.BUILD}/run/replay-{os.getpid()}"
        os.makedirs(d, exist_ok=True)
        for cmd, n in ((ca, "a"), (cb, "b")):
            subprocess.run(cmd + ["--only", rec["test"], "--digest", f"{d}/{n}", "--out", f"{d}/{n}.json", "--time", "600"], stdout=subprocess.DEVNULL)
        a, b = _read(f"{d}/a.{rec['test']}")[:rec["case"] + 1], _read(f"{d}/b.{rec['test']}")[:rec["case"] + 1]
        subprocess.run(["rm", "-r", d])
    print(ta)
    print(tb)
    return 1 if a != b else 0
