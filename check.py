#!/usr/bin/env python3
"""Decide one property: check.py <id> [quick|thorough].

Builds the symbolic engine, the harness' whole-program LLVM IR (with /repo's current crate in it)
and the native replay binary, lets the engine + z3 decide every job of the property, replays every
counterexample against the real code, validates sampled paths natively, writes the evidence file.
Exit 0: held on everything explored. 1: VIOLATION (reproduced natively). 2: no answer.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(V, "build")
sys.path.insert(0, V)
from props import PROPS  # noqa: E402

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_TARGET_DIR", None)
NCPU = os.cpu_count() or 8


class NoAnswer(Exception):
    pass


def run(cmd, cwd=V, timeout=None, env=None):
    return subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def tree_hash():
    """Content hash of everything the IR is generated from."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(V, "harness", "src")]
    files = [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock", "README.md")]
    files += [os.path.join(V, "harness", f) for f in ("Cargo.toml", "Cargo.lock")]
    for r in roots:
        for d, _, fs in os.walk(r):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode() + b"\0")
            h.update(hashlib.sha256(open(f, "rb").read()).digest())
    return h.hexdigest()


def build_engine():
    r = run(["cargo", "build", "--release", "--offline", "--manifest-path", V + "/engine/Cargo.toml", "--target-dir", B + "/engine"])
    exe = B + "/engine/release/vpsym"
    if r.returncode or not os.path.exists(exe):
        raise NoAnswer("engine build failed:\n" + r.stdout[-3000:])
    return exe


def fresh(d, stamp):
    """Drop everything cargo derived from our two crates unless it was built from this tree."""
    f = d + "/stamp"
    if os.path.exists(f) and open(f).read() == stamp:
        return True
    for sub in ("release", "debug", "miri/x86_64-unknown-linux-gnu/debug"):
        fp = os.path.join(d, sub, ".fingerprint")
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith(("vph-", "perf-event-data-")):
                    shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    if os.path.exists(f):
        os.remove(f)
    return False


def build_ir(feat, stamp):
    d = "%s/ir/%s" % (B, feat)
    os.makedirs(d, exist_ok=True)
    ll = d + "/release/deps/vph.ll"
    if not (fresh(d, stamp) and os.path.exists(ll)):
        if os.path.exists(ll):
            os.remove(ll)
        r = run(["cargo", "rustc", "--lib", "--crate-type", "cdylib", "--release", "--offline", "--features", feat, "--target-dir", d, "--", "--emit=llvm-ir"], cwd=V + "/harness")
        if r.returncode or not os.path.exists(ll):
            raise NoAnswer("harness IR build failed:\n" + r.stdout[-4000:])
        open(d + "/stamp", "w").write(stamp)
    return ll


def build_replay(feat, stamp):
    d = "%s/replay/%s" % (B, feat)
    os.makedirs(d, exist_ok=True)
    exe = d + "/debug/replay"
    if not (fresh(d, stamp) and os.path.exists(exe)):
        r = run(["cargo", "build", "--bin", "replay", "--offline", "--features", feat, "--target-dir", d], cwd=V + "/harness")
        if r.returncode or not os.path.exists(exe):
            raise NoAnswer("replay build failed:\n" + r.stdout[-4000:])
        open(d + "/stamp", "w").write(stamp)
    return exe


PROCS = set()
STOP = []


def popen_job(cmd):
    if STOP:
        return None
    p = subprocess.Popen(cmd, cwd=V, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    PROCS.add(p)
    if STOP:
        p.kill()
    p.stdout_text = p.communicate()[0]
    PROCS.discard(p)
    if STOP and p.returncode:
        return None
    return subprocess.CompletedProcess(cmd, p.returncode, p.stdout_text)


def stop_jobs():
    STOP.append(1)
    for p in list(PROCS):
        p.kill()


def engine_job(exe, ll, prop, job, tier, outdir):
    name = "%s-%s" % (job["entry"], job.get("param", 0))
    out = "%s/%s.json" % (outdir, name)
    cmd = [exe, "--ll", ll, "--entry", job["entry"], "--param", str(job.get("param", 0)), "--out", out]
    cmd += ["--time", os.environ.get("VP_TIME") or str(job.get("time", 780 if tier == "quick" else 7200))]
    cmd += ["--max-viol", os.environ.get("VP_MAXVIOL", "1")]
    for pp, lab, _ in known_findings():
        if pp == prop and lab.startswith(job["entry"] + "/"):
            cmd += ["--known", lab.split("/", 1)[1].replace("_", " ")]
    if "max_steps" in job:
        cmd += ["--max-steps", str(job["max_steps"])]
    if tier == "thorough":
        dd = "%s/dump-%s" % (outdir, name)
        os.makedirs(dd, exist_ok=True)
        cmd += ["--samples", "200", "--dump", dd, "--dump-every", str(job.get("dump_every", 40))]
    r = popen_job(cmd)
    if r is None:
        return None
    if not os.path.exists(out):
        raise NoAnswer("engine failed on %s: %s" % (name, r.stdout[-2000:]))
    j = json.load(open(out))
    j["job"] = job
    return j


def replay_native(exe, entry, param, hexin, kind):
    try:
        r = run([exe, entry, str(param), hexin], timeout=40)
    except subprocess.TimeoutExpired:
        return ("hang", "native run does not terminate within 40 s")
    o = r.stdout[-1500:]
    rc = r.returncode
    if rc == 0:
        return None
    if rc == 3:
        return ("check", o)
    if rc == 4:
        return ("alloc", o)
    if rc == 5:
        return None
    if rc == 101 or rc == -6:
        return ("panic", o)
    return ("crash", "exit status %d\n%s" % (rc, o))


def replay_miri(feat, entry, param, hexin):
    """Undefined behaviour has no dependable native symptom: confirm it with the interpreter."""
    d = "%s/miri/%s" % (B, feat)
    env = dict(ENV, RUSTUP_TOOLCHAIN="nightly", MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-symbolic-alignment-check")
    try:
        r = run(["cargo", "miri", "run", "--offline", "--features", feat, "--target-dir", d, "--bin", "replay", "--", entry, str(param), hexin], cwd=V + "/harness", timeout=420, env=env)
    except subprocess.TimeoutExpired:
        return None
    m = re.search(r"error: (Undefined Behavior.*|.*memory access.*|.*uninit.*)", r.stdout)
    if m:
        return ("miri", r.stdout[r.stdout.index(m.group(0)):][:1800])
    return None


def known_findings():
    f = V + "/known-findings.txt"
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) label=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def cross_check(outdir, limit):
    """Second opinion: replay dumped queries with cvc5 (and report disagreement)."""
    n = bad = 0
    msgs = []
    files = []
    for d, _, fs in os.walk(outdir):
        files += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".smt2")]
    step = max(1, len(files) // limit)
    files = files[::step][:limit]

    def one(f):
        exp = "unsat" if f.endswith(".unsat.smt2") else "sat"
        try:
            r = subprocess.run(["cvc5", "--tlimit=20000", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
            got = r.stdout.strip().split("\n")[0]
        except subprocess.TimeoutExpired:
            got = "timeout"
        return f, exp, got
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f, exp, got in ex.map(one, files):
            if got in ("sat", "unsat"):
                n += 1
                if got != exp:
                    bad += 1
                    msgs.append("%s: z3 %s, cvc5 %s" % (f, exp, got))
    return n, bad, msgs


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        build_engine()
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    feat = P["feature"]
    t0 = time.time()
    evf = "%s/evidence/%s.json" % (V, pid)
    os.makedirs(V + "/evidence", exist_ok=True)
    if os.path.exists(evf):
        os.remove(evf)
    outdir = "%s/out/%s" % (B, pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    stamp = tree_hash()
    with cf.ThreadPoolExecutor(3) as ex:
        a, b, c = ex.submit(build_engine), ex.submit(build_ir, feat, stamp), ex.submit(build_replay, feat, stamp)
        exe, ll, rep = a.result(), b.result(), c.result()
    tbuild = time.time() - t0
    selft = run([exe, "selftest"])
    if selft.returncode:
        raise NoAnswer("engine self test failed: " + selft.stdout[-500:])
    jobs = [dict(j) for j in P["jobs"] if tier == "thorough" or not j.get("thorough")]
    jobs.sort(key=lambda j: -j.get("cost", 1))
    res, errors = [], []
    # counterexamples are replayed against the real code; the first confirmed one ends the run
    confirmed, unconfirmed, known = [], [], []
    kf = known_findings()

    def handle(r):
        for v in r["violations"]:
            entry, param = r["entry"], r["param"]
            got = replay_native(rep, entry, param, v["input"], v["kind"])
            if got is None and v["kind"] in ("memory", "uninit", "ub", "hang", "alloc", "panic"):
                if len(confirmed) < 1 and len(unconfirmed) < 2:
                    got = replay_miri(feat, entry, param, v["input"])
            ce = dict(property=pid, entry=entry, param=param, input=v["input"], kind=v["kind"], message=v["msg"], stack=v["stack"][:8], notes=v["notes"])
            if got is None:
                unconfirmed.append(ce)
                continue
            ce["native"] = {"kind": got[0], "output": got[1]}
            lab = v["msg"].replace(" ", "_")
            hit = [k for k in kf if k[0] == pid and k[1] == "%s/%s" % (entry, lab)]
            (known if hit else confirmed).append(ce)
            if hit:
                ce["finding"] = hit[0][2]

    with cf.ThreadPoolExecutor(int(os.environ.get("VP_JOBS", NCPU))) as ex:
        fs = [ex.submit(engine_job, exe, ll, pid, j, tier, outdir) for j in jobs]
        for f in cf.as_completed(fs):
            r = f.result()
            if r is None:
                continue
            res.append(r)
            handle(r)
            if confirmed and not os.environ.get("VP_ALL"):
                stop_jobs()
    for r in res:
        tag = "%s/%s" % (r["entry"], r["param"])
        errors += ["%s: %s" % (tag, e) for e in r["errors"]]
        if r["paths"] == 0 and not r["violations"]:
            errors.append("%s: no path explored" % tag)

    # sampled paths: the native run must pass the same checks in the same order
    validated = 0
    mism = []
    lines = []
    for r in res:
        for hx, tr in r["samples"]:
            lines.append((r["entry"], r["param"], hx, tr))
    if lines and not confirmed:
        bf = outdir + "/batch"
        parts = [lines[i::NCPU] for i in range(NCPU)]

        def batch(i):
            if not parts[i]:
                return []
            open("%s%d" % (bf, i), "w").write("".join("%s %s %s\n" % l[:3] for l in parts[i]))
            r = run([rep, "--batch", "%s%d" % (bf, i)], timeout=600)
            got = re.findall(r"TRACE ([0-9a-f]{16})", r.stdout)
            return list(zip(parts[i], got + ["died: " + r.stdout[-300:]] * (1 if len(got) < len(parts[i]) else 0)))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for lst in ex.map(batch, range(NCPU)):
                for l, g in lst:
                    if l[3] == g:
                        validated += 1
                    else:
                        mism.append("%s/%s input %s: engine %s, native %s" % (l[0], l[1], l[2][:80], l[3], g))
    if mism:
        errors.append("engine and native run disagree on %d sampled paths, e.g. %s" % (len(mism), mism[0]))
    covers, checks, funcs = {}, {}, {}
    for r in res:
        for k, n in r["covers"].items():
            covers[k] = covers.get(k, 0) + n
        for k, c in r["checks"].items():
            d = checks.setdefault(k, {"by_simplification": 0, "by_solver": 0, "violated": 0})
            for x in d:
                d[x] += c[x]
        for k, n in r["functions"].items():
            funcs[k] = funcs.get(k, 0) + n
    if not confirmed:
        for c in P.get("covers", []):
            if not covers.get(c):
                errors.append("vacuity: '%s' was never reached" % c)
        for r in res:
            if r["job"].get("nocheck"):
                continue
            if not r["checks"] and not r["violations"]:
                errors.append("vacuity: %s/%s evaluated no assertion" % (r["entry"], r["param"]))
    xn = xbad = 0
    if tier == "thorough":
        xn, xbad, msgs = cross_check(outdir, 400)
        if xbad:
            errors.append("solver disagreement: " + "; ".join(msgs[:3]))
    tot = lambda k: sum(r[k] for r in res)  # noqa: E731
    samples = []
    for r in res[:3]:
        for hx, tr in r["samples"][:2]:
            samples.append({"entry": r["entry"], "param": r["param"], "input_hex": hx[:400], "trace": tr})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("instructions"),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "what": "states: completed symbolic paths (each stands for every input that satisfies its path condition); transitions: LLVM instructions executed symbolically",
            "jobs": [{"entry": r["entry"], "param": r["param"], "paths": r["paths"], "wall_s": r["wall_s"], "bounds": r["job"].get("bounds", "")} for r in res],
            "bounds": P["bounds"],
            "outside_bounds": P.get("outside", ""),
            "functions_encoded": sorted(funcs)[:400],
            "functions_encoded_count": len(funcs),
            "instructions_in_crate": tot("our_instructions"),
            "forks": tot("forks"),
            "solver_queries": tot("queries"), "solver_sat": tot("sat"), "solver_unsat": tot("unsat"),
            "query_cache_hits": tot("cache_hits"), "unsat_core_hits": tot("core_hits"), "solver_s": round(tot("solver_s"), 3),
            "max_query_s": max([r["max_query_s"] for r in res] or [0]),
            "assertions": checks,
            "covers": covers,
            "queries_rechecked_with_cvc5": xn,
            "build_s": round(tbuild, 1),
            "source_hash": stamp[:16],
        },
        "assumptions": [
            "LLVM IR of the optimised build (opt-level 1, fat LTO, overflow checks and debug assertions on) as produced by rustc stable for x86_64",
            "the engine's semantics of that IR, cross-checked natively on the sampled paths of this run",
            "z3 4.8.12",
        ],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(confirmed),
    }
    json.dump(ev, open(evf, "w"), indent=1)
    ced = B + "/ce"
    os.makedirs(ced, exist_ok=True)
    for ce in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, ce["finding"]))
    if confirmed:
        for i, ce in enumerate(confirmed[:4]):
            f = "%s/%s-%d.json" % (ced, pid, i)
            ce["replay_cmd"] = "%s %s %s %s" % (rep, ce["entry"], ce["param"], ce["input"])
            json.dump(ce, open(f, "w"), indent=1)
            print("counterexample: %s: %s [%s] %s" % (ce["entry"], ce["message"], ce["kind"], ce["native"]["output"].strip().split("\n")[0][:200]))
            print("VIOLATION property=%s replay=%s" % (pid, f))
        sys.exit(1)
    for ce in unconfirmed[:3]:
        errors.append("counterexample not reproduced by the real code: %s %s" % (ce["entry"], json.dumps(ce)[:600]))
    if errors:
        raise NoAnswer("\n".join(errors[:8]))
    print("%s held: %d jobs, %d paths, %d solver queries (%.2f s), %d assertions labels, %d sampled paths validated natively, %.1f s" % (
        pid, len(res), ev["coverage"]["states"], ev["coverage"]["solver_queries"], ev["coverage"]["solver_s"], len(checks), validated, time.time() - t0))


if __name__ == "__main__":
    try:
        main()
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        sys.exit(2)
