#!/usr/bin/env python3
"""Model-checking driver: builds /repo's working tree together with a harness,
explores it in parallel shards, replays whatever fails before reporting it, and
writes evidence/<property>.json."""
import argparse, concurrent.futures, glob, hashlib, json, os, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(VERIF, "src")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

DEFS = ["-DCOPY_2ND_ARG_IS_CONST", "-DDECODE_2ND_ARG_IS_CONST"]
INC = ["-I" + os.path.join(REPO, d) for d in ("dstulib", "engine", "keylib")]
ASAN = ["-fsanitize=address", "-fsanitize=bounds,null,return", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
FLAVORS = {
    "asan": dict(c=["-O1", "-g1"] + ASAN, cxx=["-O1", "-g1"] + ASAN, ld=ASAN),
    "plain": dict(c=["-O2", "-g1"], cxx=["-O2", "-g1"], ld=[]),
    # every basic block of /repo's code is a scheduling point
    "access": dict(c=["-O1", "-g1", "-fsanitize=thread"], cxx=["-O1", "-g1"], ld=[]),   # ... every shared memory access is one
    "sched": dict(c=["-O1", "-g1", "-fsanitize-coverage=trace-pc"], cxx=["-O1", "-g1"], ld=[]),
}
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:print_summary=1",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=98", OPENSSL_CONF="/dev/null", LC_ALL="C.UTF-8")


class CheckError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def compile_one(args):
    cc, flags, src, out = args
    tmp = out + ".%d.tmp" % os.getpid()
    p = run([cc] + flags + ["-c", src, "-o", tmp])
    if p.returncode:
        raise CheckError("cannot compile %s:\n%s" % (src, p.stderr.decode(errors="replace")[-3000:]))
    os.rename(tmp, out)
    return out


def repo_sources(parts):
    out = []
    for p in parts:
        out += sorted(glob.glob(os.path.join(REPO, p, "*.c")))
        if p == "dstulib":
            out += sorted(glob.glob(os.path.join(REPO, "dstulib", "*", "*.c")))
    return out


def tree_hash():
    h = hashlib.sha256()
    for d in ("engine", "dstulib", "dstulib/gost", "keylib"):
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.[ch]"))):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()


def harness_hash(names):
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(SRC, "*.h"))) + sorted(names):
        h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()


def build(unit, pool):
    """unit: dict(harness, flavor, wrap, parts, extra, so). Returns the executable."""
    fl = FLAVORS[unit.get("flavor", "asan")]
    parts = unit.get("parts", ["dstulib", "engine", "keylib"])
    hsrc = [os.path.join(SRC, s) for s in ["mc.cpp", "ref.cpp"] + unit.get("cxx", []) + [unit["harness"] + ".cpp"]]
    cdefs = DEFS + unit.get("cdefs", [])
    xdefs = unit.get("xdefs", [])
    key = hashlib.sha256("|".join([tree_hash(), harness_hash(hsrc), json.dumps(fl, sort_keys=True), json.dumps(unit, sort_keys=True, default=str)]).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, key)
    exe = os.path.join(d, unit["harness"])
    if os.path.exists(os.path.join(d, ".done")):
        return exe
    os.makedirs(d, exist_ok=True)
    jobs = []
    for s in repo_sources(parts):
        o = os.path.join(d, "r_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
        cf = fl["c"]
        if "cov" in unit and not any(("/" + k) in s for k in unit["cov"]):   # scheduling points only where asked for
            cf = [x for x in cf if x not in ("-fsanitize-coverage=trace-pc", "-fsanitize=thread")]
        if any(s.endswith(k) for k in unit.get("fast", [])):   # checked elsewhere; only slow here
            cf = ["-O2", "-g1"]
        jobs.append(("gcc", cf + ["-fPIC", "-w", "-std=gnu11"] + cdefs + INC, s, o))
    nrepo = len(jobs)
    if not nrepo:
        raise CheckError("no sources under " + REPO)
    for s in hsrc:
        o = os.path.join(d, "h_" + os.path.basename(s) + ".o")
        jobs.append(("g++", fl["cxx"] + ["-std=c++17", "-w"] + xdefs + INC, s, o))
    objs = list(pool.map(compile_one, jobs))
    if unit.get("ext"):
        objs = objs[:nrepo] + objs[nrepo:] + [leave_points(d, objs[:nrepo], unit)]
    ld = ["g++"] + fl["ld"] + ["-o", exe] + objs
    if unit.get("so"):
        so = os.path.join(d, "dstu.so")
        p = run(["gcc"] + fl["ld"] + ["-shared", "-o", so] + [o for o, j in zip(objs, jobs) if "/r_dstulib" in j[3] or "/r_engine" in j[3]] + ["-lcrypto"])
        if p.returncode:
            raise CheckError("cannot link dstu.so:\n" + p.stderr.decode(errors="replace")[-3000:])
        ld = ["g++"] + fl["ld"] + ["-o", exe] + objs[nrepo:]
    for w in unit.get("wrap", []):
        ld.append("-Wl,--wrap=" + w)
    ld += ["-lcrypto", "-ldl", "-lpthread"]
    p = run(ld)
    if p.returncode:
        raise CheckError("cannot link %s:\n%s" % (unit["harness"], p.stderr.decode(errors="replace")[-3000:]))
    open(os.path.join(d, ".done"), "w").close()
    return exe


def leave_points(d, objs, unit):
    """Routes every call of /repo's code into a library through a scheduling point, and gathers its static
    data in sections of its own. Returns the object with the stubs."""
    names = lambda a: [l.split() for l in run(["nm"] + a).stdout.decode().splitlines()]
    undef, defd = set(), set()
    for o in objs:
        for f in names([o]):
            (undef if f[-2] == "U" else defd).add(f[-1])
    ld = run(["gcc", "-print-file-name=libcrypto.so"]).stdout.decode().strip()
    libc = run(["gcc", "-print-file-name=libc.so.6"]).stdout.decode().strip()
    funcs = {f[-1].split("@")[0] for l in (ld, libc) for f in names(["-D", "--defined-only", l]) if len(f) > 2 and f[-2] in "TWi"}
    ext = sorted(n for n in undef - defd if n in funcs and n not in unit.get("wrap", []) and not n.startswith("_"))
    red = os.path.join(d, "ext.syms")
    open(red, "w").write("".join("%s ext_%s\n" % (n, n) for n in ext))
    for o in objs:
        p = run(["objcopy", "--redefine-syms=" + red, "--rename-section", ".data=repo_data", "--rename-section", ".data.rel=repo_data", "--rename-section", ".data.rel.local=repo_data",
                 "--rename-section", ".bss=repo_bss", o])
        if p.returncode:
            raise CheckError("objcopy: " + p.stderr.decode(errors="replace"))
    push = ["rdi", "rsi", "rdx", "rcx", "r8", "r9", "rax"]
    body = "".join(" push %%%s\n" % r for r in push) + " sub $16,%rsp\n movups %xmm0,(%rsp)\n lea 16(%rsp),%rdi\n call sched_ext@PLT\n movups (%rsp),%xmm0\n add $16,%rsp\n" + "".join(" pop %%%s\n" % r for r in reversed(push))
    s = os.path.join(d, "ext.s")
    with open(s, "w") as f:
        f.write(".text\n")
        for n in ext:
            f.write(".globl ext_%s\n.type ext_%s,@function\next_%s:\n%s jmp *%s@GOTPCREL(%%rip)\n" % (n, n, n, body, n))
        f.write('.section .note.GNU-stack,"",@progbits\n.section repo_data,"aw",@progbits\n.quad 0\n.section repo_bss,"aw",@nobits\n.quad 0\n')
    return compile_one(("gcc", [], s, os.path.join(d, "ext.o")))


def read_crash(path):
    try:
        b = open(path, "rb").read()
        g = b[:64].split(b"\0")[0].decode()
        phase, n = struct.unpack_from("ii", b, 64)
        n = max(0, min(n, 4096))
        c = list(struct.unpack_from("%di" % n, b, 72))
        return g, c
    except Exception:
        return "", []


def tail(b, n=2500):
    t = b.decode(errors="replace")
    i = t.find("ERROR: AddressSanitizer")
    if i < 0:
        i = t.find("runtime error:")
    if i >= 0:
        return t[max(0, i - 40):i + n]
    return t[-n:]


def run_replay(exe, prop, tier, group, choices, timeout):
    cmd = [exe, "--prop", prop, "--tier", tier, "--repo", REPO, "--timeout", str(timeout), "--replay", group, ",".join(map(str, choices))]
    try:
        p = run(cmd, env=dict(ENV, VERIF_KNOWN=known_keys()), timeout=timeout + 120, cwd=BUILD)
        return p.returncode, p.stdout.decode(errors="replace"), tail(p.stderr)
    except subprocess.TimeoutExpired:
        return 70, "", "timed out after %d s" % (timeout + 120)


def run_shard(exe, prop, tier, i, n, work, unit, stop=None):
    out = os.path.join(work, "%s_%d.json" % (unit["harness"], i))
    crash = os.path.join(work, "%s_%d.crash" % (unit["harness"], i))
    cap = unit.get("cap", {}).get(tier, 600 if tier == "quick" else 3000)
    cmd = [exe, "--prop", prop, "--tier", tier, "--repo", REPO, "--shard", str(i), str(n), "--out", out, "--crash", crash, "--cap", str(cap), "--timeout", str(unit.get("timeout", 60))]
    if stop:
        cmd += ["--stop", stop]
    scratch = os.path.join(work, "s%s%d" % (unit["harness"], i))
    os.makedirs(scratch, exist_ok=True)
    try:
        p = run(cmd, env=dict(ENV, VERIF_KNOWN=known_keys()), cwd=scratch, timeout=cap + 400)
        rc, so, se = p.returncode, p.stdout.decode(errors="replace"), tail(p.stderr)
    except subprocess.TimeoutExpired:
        rc, so, se = 70, "", "shard timed out"
    if stop and rc not in (0, 3):   # a violation, crash or hang ends the other shards soon
        open(stop, "w").close()
    data = None
    if rc in (0, 1) and os.path.exists(out):
        data = json.load(open(out))
    return dict(i=i, rc=rc, stdout=so, stderr=se, data=data, crash=crash)


def violation(prop, tier, unit, what, group, choices, msg, trace, extra=None):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    key = hashlib.sha256(json.dumps([prop, group, choices, msg]).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (prop, key))
    json.dump(dict(property=prop, tier=tier, harness=unit["harness"], flavor=unit.get("flavor", "asan"), kind=what, group=group,
                   choices=choices, message=msg, trace=trace, extra=extra,
                   how="python3 check.py --replay " + path), open(path, "w"), indent=1)
    return path


def known_keys():
    return ",".join(w[4:] for k in known_findings() for w in k.split() if w.startswith("key="))


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                out.append(line[6:].strip())
    return out


def check(prop, tier):
    t0 = time.time()
    spec = PROPS[prop]
    ncpu = os.cpu_count() or 4
    os.makedirs(BUILD, exist_ok=True)
    units = spec["units"]
    viols = []   # (path, message)
    agg = dict(executions=0, transitions=0)
    states, outcomes, samples, groups, capped = set(), set(), [], {}, False
    with concurrent.futures.ThreadPoolExecutor(ncpu) as pool:
        exes = [build(u, pool) for u in units]
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="run_", dir=BUILD)
    try:
        jobs = []
        for u, e in zip(units, exes):
            n = u.get("shards", ncpu)
            for i in range(n):
                jobs.append((u, e, i, n))
        jobs.sort(key=lambda j: j[0].get("order", 0))
        with concurrent.futures.ThreadPoolExecutor(ncpu) as pool:
            futs = [(u, e, i, n, pool.submit(run_shard, e, prop, tier, i, n, work, u, os.path.join(work, "stop"))) for (u, e, i, n) in jobs]
            res = [(u, e, i, n, f.result()) for (u, e, i, n, f) in futs]
        for u, e, i, n, r in res:
            d = r["data"]
            if r["rc"] == 0 and d:
                agg["executions"] += d["executions"]
                agg["transitions"] += d["transitions"]
                states.update(d["states"])
                outcomes.update(d["outcomes"])
                capped = capped or d["capped"]
                for s in d["samples"]:
                    if len(samples) < 40:
                        samples.append(s)
                for g in d["groups"]:
                    k = groups.setdefault(u["harness"] + ":" + g["group"], dict(executions=0, transitions=0, cpu_s=0.0))
                    k["executions"] += g["executions"]
                    k["transitions"] += g["transitions"]
                    k["cpu_s"] = round(k["cpu_s"] + g["wall"], 2)
                continue
            if r["rc"] == 1 and d and "violation" in d:
                v = d["violation"]
                rc, so, se = run_replay(e, prop, tier, v["group"], v["choices"], 300)
                if rc == 3:
                    raise CheckError("replay diverged: " + so + se)
                kind = "expectation" if rc != 0 else "expectation (needs the preceding cases of its shard)"
                if rc == 0:   # not reproducible alone: must reproduce as a shard
                    r2 = run_shard(e, prop, tier, i, n, work, u)
                    if r2["rc"] == 0:
                        raise CheckError("violation did not reproduce: " + v["message"])
                viols.append((violation(prop, tier, u, kind, v["group"], v["choices"], v["message"], v["trace"], dict(shard=[i, n])), v["message"]))
                continue
            if r["rc"] == 3 or "HARNESS-ERROR" in r["stderr"]:
                raise CheckError("harness error: " + r["stderr"][-1500:] + r["stdout"][-500:])
            # crash, sanitizer report or hang: find the case and run it alone
            g, c = read_crash(r["crash"])
            rc, so, se = run_replay(e, prop, tier, g, c, max(60, 2 * u.get("timeout", 60))) if g else (0, "", "")
            if rc == 3:
                raise CheckError("replay diverged: " + so + se)
            if rc != 0:
                what = "hang" if rc == 70 else "crash"
                msg = ("%s in %s: " % (what, g)) + (se or so).replace("\n", " | ")[:1200]
                viols.append((violation(prop, tier, u, what, g, c, msg, so.splitlines()[-60:], dict(stderr=se)), msg))
                continue
            r2 = run_shard(e, prop, tier, i, n, work, u)
            if r2["rc"] not in (0, 3):
                msg = "crash in %s (needs the preceding cases of shard %d/%d): %s" % (g, i, n, r2["stderr"].replace("\n", " | ")[:1000])
                viols.append((violation(prop, tier, u, "crash of a shard", g, c, msg, [], dict(shard=[i, n], stderr=r2["stderr"])), msg))
                continue
            raise CheckError("shard %d of %s ended with %s once and not again: %s" % (i, u["harness"], r["rc"], r["stderr"][-800:]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if not viols and (agg["executions"] == 0 or agg["transitions"] == 0):
        raise CheckError("nothing was explored")
    level = spec["level"]
    cov = dict(samples=samples[:12], exhaustive=not capped and not viols, groups=groups, distinct_outcomes=len(outcomes), bounds=spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"], build_s=round(tb, 1))
    if level == "model_checking":
        cov.update(states=len(states), transitions=agg["transitions"], traces_validated_against_impl=agg["executions"])
    else:
        cov.update(evaluations=agg["executions"], distinct_nontrivial=len(states), rule=spec["rule"])
    known = [k for k in known_findings() if k.startswith("property=%s " % prop)]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k in known:
        print("KNOWN-FINDING: " + k)
    if viols:
        for path, msg in viols[:4]:
            print("  " + msg[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, viols[0][0]))
        return 1
    print("%s ok: %d executions, %d transitions, %d states, %d outcomes%s, %.1f s (build %.1f s)" %
          (prop, agg["executions"], agg["transitions"], len(states), len(outcomes), " CAPPED" if capped else "", time.time() - t0, tb))
    return 0


def replay(path):
    j = json.load(open(path))
    prop = j["property"]
    for u in PROPS[prop]["units"]:
        if u["harness"] == j["harness"] and u.get("flavor", "asan") == j["flavor"]:
            os.makedirs(BUILD, exist_ok=True)
            with concurrent.futures.ThreadPoolExecutor(8) as pool:
                exe = build(u, pool)
            rc, so, se = run_replay(exe, prop, j["tier"], j["group"], j["choices"], 300)
            print(so)
            print(se)
            print("replay exit %d" % rc)
            return 1 if rc else 0
    raise CheckError("no such harness")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        if a.replay:
            return replay(a.replay)
        if a.prop == "all":
            rc = 0
            for p in sorted(PROPS):
                rc = max(rc, check(p, tier))
            return rc
        return check(a.prop, tier)
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (a.prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
