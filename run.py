#!/usr/bin/env python3
"""Runs the check of one property: see DESIGN.md.

  run.py --setup                          build everything
  run.py --property C01 --tier quick      check one property

Exit 0: held on everything explored.  Exit 1: VIOLATION.  Exit 2: no answer.
"""
import argparse, fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import props  # noqa: E402

WORK = os.path.join(V, "work")
REPO = "/repo"
ENGINE = os.path.join(V, "engine/target/release/mitex-sym")
IR = os.path.join(V, "harness/target/release/deps/mh.ll")
REPLAY = os.path.join(V, "replay/target/debug/mitex-replay")
KNOWN = os.path.join(V, "known-findings.txt")
MITEX = ["mitex", "mitex-lexer", "mitex-parser", "mitex-glob", "mitex-spec", "mitex-spec-gen", "mitex-cli"]
NTHREADS = os.cpu_count() or 4
T0 = time.time()


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k != "CARGO_HOME" or k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
            del e[k]
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["PATH"] = "/opt/typst/bin:" + e["PATH"]
    e["CARGO_NET_OFFLINE"] = "true"
    return e


class NoAnswer(Exception):
    pass


def sh(cmd, cwd, timeout=1500, extra=None):
    e = env()
    e.update(extra or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        raise NoAnswer("%s failed in %s:\n%s" % (" ".join(cmd), cwd, r.stdout[-4000:]))
    return r.stdout


def digest(roots, skip=("target", ".git", "node_modules", "work", "evidence")):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            h.update(root.encode() + b"\0" + open(root, "rb").read())
            continue
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in skip)
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as x:
                    h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()


def stamp(name):
    p = os.path.join(WORK, name + ".stamp")
    return open(p).read() if os.path.exists(p) else ""


def set_stamp(name, v):
    with open(os.path.join(WORK, name + ".stamp"), "w") as f:
        f.write(v)


def build(log):
    """engine, harness IR and native replayer from the present sources"""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        d = digest([os.path.join(V, "engine")])
        if stamp("engine") != d or not os.path.exists(ENGINE):
            sh(["cargo", "build", "--release", "--offline"], os.path.join(V, "engine"))
            set_stamp("engine", d)
        src = [os.path.join(REPO, x) for x in ("crates", "packages", "Cargo.toml", "Cargo.lock", "assets") if os.path.exists(os.path.join(REPO, x))]
        rd = digest(src)
        d = rd + digest([os.path.join(V, "harness"), os.path.join(V, "replay"), os.path.join(V, "vendor"), os.path.join(V, "tools")])
        if stamp("harness") != d or not os.path.exists(IR) or not os.path.exists(REPLAY):
            # cargo looks at times, which copies do not keep
            fresh = stamp("repo") != rd
            set_stamp("harness", "")

            def one(where, cmd, extra):
                if fresh:
                    for p in MITEX:
                        try:
                            sh(["cargo", "clean", "--offline", "-p", p] + (["--release"] if where == "harness" else []), os.path.join(V, where))
                        except NoAnswer:
                            pass
                    os.utime(os.path.join(V, where, "src", "lib.rs" if where == "harness" else "main.rs"))
                return sh(cmd, os.path.join(V, where), extra=extra)

            if os.path.exists(IR):
                os.remove(IR)
            os.utime(os.path.join(V, "harness/src/lib.rs"))
            with ThreadPoolExecutor(2) as ex:
                a = ex.submit(one, "harness", ["cargo", "rustc", "--offline", "--release", "--", "--emit=llvm-ir", "-C", "save-temps"],
                              {"RUSTFLAGS": "--cfg mitex_verif -C no-vectorize-loops -C no-vectorize-slp", "RUSTC_WRAPPER": os.path.join(V, "tools/rustc-wrap")})
                b = ex.submit(one, "replay", ["cargo", "build", "--offline"], {"RUSTFLAGS": "--cfg mitex_verif"})
                a.result(), b.result()
            # save-temps leaves much behind that is not needed
            for dd, _, fs in os.walk(os.path.join(V, "harness/target/release/deps")):
                for f in fs:
                    if f.startswith("mh.") and f.endswith((".bc", ".o", ".rcgu.o", ".rcgu.ll")) and f != "mh.ll":
                        os.remove(os.path.join(dd, f))
            set_stamp("repo", rd)
            set_stamp("harness", d)
            log["built"] = True
        log["repo_digest"] = rd[:16]
        log["ir_bytes"] = os.path.getsize(IR)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay_one(entry, args, inp, timeout=20):
    """verdict of one native run"""
    cmd = [REPLAY, "one", entry, ",".join(map(str, args)) or "0", inp or "-"]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, preexec_fn=limits, cwd=WORK)
        o = r.stdout.decode("utf-8", "replace").strip().split("\n")
        if r.returncode != 0 and not (o and o[-1].startswith("VERDICT")):
            return o, "crash (status %d)" % r.returncode
    except subprocess.TimeoutExpired as e:
        o = (e.stdout or b"").decode("utf-8", "replace").strip().split("\n")
        return o, "hang (no answer in %d s)" % timeout
    return o[:-1], o[-1][8:]


def known(pid):
    """listed findings: KNOWN property=<id> text=<what the conversion was given> -- description"""
    l = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"KNOWN property=(\S+) entry=(\S+) outs=(\S*) -- (.*)", line.strip())
            if m and m.group(1) == pid:
                l.append((m.group(2), m.group(3), m.group(4)))
    return l


def demangle(s):
    m = re.match(r"_ZN(.*)E$", s)
    if not m:
        return s
    s, o = m.group(1), []
    while s and s[0].isdigit():
        n = re.match(r"\d+", s).group()
        s = s[len(n):]
        o.append(s[: int(n)])
        s = s[int(n):]
    if o and re.match(r"h[0-9a-f]{16}$", o[-1]):
        o.pop()
    r = "::".join(o)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$C$", ","), ("..", "::"), ("$u7b$", "{"), ("$u7d$", "}")):
        r = r.replace(a, b)
    return re.sub(r"\$[A-Za-z0-9]+\$", "_", r)


def cvc5_check(dirname, n):
    """a second solver on the queries the engine dumped"""
    if not os.path.isdir(dirname) or not shutil.which("cvc5"):
        return 0, 0, []
    fs = sorted(os.listdir(dirname), key=lambda f: int(f.split(".")[0]))
    fs = fs[:: max(1, len(fs) // n)][:n]

    def one(f):
        try:
            r = subprocess.run(["cvc5", "--tlimit=5000", os.path.join(dirname, f)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=10).stdout.strip()
        except subprocess.TimeoutExpired:
            r = "unknown"
        return f, r

    with ThreadPoolExecutor(NTHREADS) as ex:
        rs = list(ex.map(one, fs))
    bad = [(f, r) for f, r in rs if r in ("sat", "unsat") and r != f.split(".")[1]]
    agreed = sum(r == f.split(".")[1] for f, r in rs)
    return len(rs), agreed, bad


def check(pid, tier):
    P = props.PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    wd = os.path.join(WORK, pid + "-" + tier)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    log = {}
    build(log)
    tb = time.time() - T0
    jobs = list(P["quick"])
    if tier == "thorough":
        jobs += [j for j in P.get("thorough", []) if j not in jobs]
    wit = 150 if tier == "quick" else 600
    limit = P.get("time", 500) if tier == "quick" else P.get("thorough_time", 3000)
    spec = ["threads %d" % NTHREADS, "time %d" % limit, "wit %d %d" % (wit, 1 + seed % 7), "viol 60",
            "pccheck 16", "dump %d" % (400 if tier == "quick" else 4000), "init h_init"]
    names = []
    for i, j in enumerate(jobs):
        n = "%s_%d_%s" % (pid, i, "_".join(map(str, j[1:])))
        names.append(n)
        spec.append("job %s %s %s" % (n, j[0], " ".join(map(str, j[1:]))))
    sp, op, wp = (os.path.join(wd, x) for x in ("spec.txt", "out.json", "wit.txt"))
    open(sp, "w").write("\n".join(spec) + "\n")
    r = subprocess.run([ENGINE, IR, sp, op, wp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit + 200)
    if r.returncode != 0:
        raise NoAnswer("the engine failed: " + r.stdout[-3000:])
    o = json.load(open(op))
    J = {j["name"]: j for j in o["jobs"]}

    # counterexamples, replayed against the real build
    vs = o["violations"]
    vs.sort(key=lambda v: (len(v["input"]), v["input"]))
    vs.sort(key=lambda v: v["kind"] == "limit")
    groups = {}
    for v in vs:
        groups.setdefault((v["job"], v["kind"], v["what"]), []).append(v)
    todo = [v for g in groups.values() for v in g[:6]][:160]

    def rep(v):
        return v, replay_one(J[v["job"]]["entry"], J[v["job"]]["args"], v["input"])

    with ThreadPoolExecutor(NTHREADS) as ex:
        rs = list(ex.map(rep, todo))
    real, ghost, listed = [], [], []
    for v, (outs, verdict) in rs:
        good = verdict.startswith(("fail", "panic", "crash", "hang"))
        v["replay"], v["outs"] = verdict, outs
        if not good:
            ghost.append(v)
            continue
        k = [x for x in known(pid) if x[0] == J[v["job"]]["entry"] and outs and x[1] == hashlib.sha256("\n".join(outs[:1]).encode()).hexdigest()[:16]]
        (listed if k else real).append((v, k))

    # the engine's own account of paths without violation, against the real build
    nw, badw, badlines = 0, 0, []
    if os.path.exists(wp) and os.path.getsize(wp):
        lines = open(wp).read().splitlines(True)
        parts = [lines[i::NTHREADS] for i in range(NTHREADS)]

        def batch(i):
            if not parts[i]:
                return 0, 0, []
            f = os.path.join(wd, "wit.%d" % i)
            open(f, "w").writelines(parts[i])
            x = subprocess.run([REPLAY, "batch", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300, cwd=WORK)
            t = x.stdout.decode("utf-8", "replace").strip().split("\n")
            m = re.match(r"BATCH (\d+) (\d+)", t[-1])
            if not m:
                return len(parts[i]), len(parts[i]), ["replayer died: %d" % x.returncode]
            return int(m.group(1)), int(m.group(2)), t[:-1]

        with ThreadPoolExecutor(NTHREADS) as ex:
            for a, b, c in ex.map(batch, range(NTHREADS)):
                nw += a
                badw += b
                badlines += c
    nc, agreed, badc = cvc5_check(op + ".smt", 40 if tier == "quick" else 300)

    # what keeps this run from being an answer
    trouble = []
    if o["timed_out"]:
        trouble.append("time limit reached before every path was explored")
    for j in o["jobs"]:
        if j["paths"].get("unsupported"):
            trouble.append("%s: unsupported %s" % (j["name"], j["unsupported"]))
        if not j["paths"].get("ok") and not j["violations"]:
            trouble.append("%s: vacuous, no path reaches the end" % j["name"])
    if o["z3"]["unknown"]:
        trouble.append("%d queries undecided" % o["z3"]["unknown"])
    if badw:
        trouble.append("%d engine paths disagree with the native run: %s" % (badw, badlines[:3]))
    if badc:
        trouble.append("solvers disagree: %s" % badc[:3])
    if ghost and not real:
        g = ghost[0]
        trouble.append("%d counterexamples do not reproduce natively, e.g. %s %s %s -> %s" % (len(ghost), g["job"], g["what"], g["input"], g["replay"]))

    status = 1 if real else 2 if trouble else 0
    rp = None
    if real:
        rp = os.path.join(V, "work", "violation-%s.json" % pid)
        v = real[0][0]
        e = J[v["job"]]
        json.dump({"property": pid, "entry": e["entry"], "args": e["args"], "input_hex": v["input"], "what": v["what"], "kind": v["kind"],
                   "native": v["replay"], "outputs": v["outs"], "trace": v["trace"],
                   "reproduce": " ".join([REPLAY, "one", e["entry"], ",".join(map(str, e["args"])) or "0", v["input"] or "-"]),
                   "others": [{"entry": J[x["job"]]["entry"], "args": J[x["job"]]["args"], "input_hex": x["input"], "native": x["replay"], "outputs": x["outs"]} for x, _ in real[1:20]]},
                  open(rp, "w"), indent=1, ensure_ascii=False)
    fns = sorted({demangle(f) for f in o["functions"]})
    mine = [f for f in fns if "mitex" in f]
    jobs_ev = []
    for j in o["jobs"]:
        e = {k: j[k] for k in ("name", "entry", "args", "paths", "steps", "forks", "dom_decisions", "z3_decisions", "asserts", "asserts_folded", "asserts_z3", "pc_checks", "audits", "vars")}
        if j["relational"] == 0 and not j["violations"] and not o["timed_out"]:
            # the share of the input space the explored paths add up to
            e["input_space_covered"] = round(j["weight"], 6)
        e["what"] = props.describe(j["entry"], j["args"])
        jobs_ev.append(e)
    samples = []
    if nw:
        for l in lines[:: max(1, len(lines) // 6)][:6]:
            p = l.strip().split("|")
            samples.append({"entry": p[0], "args": p[1], "solved_input_hex": p[2],
                            "observed": [bytes.fromhex(x).decode("utf-8", "replace") if x != "-" else "" for x in p[3].split()][:6]})
    tot = lambda k: sum(j[k] for j in o["jobs"])  # noqa: E731
    npaths = sum(sum(j["paths"].values()) for j in o["jobs"])
    if not samples:
        samples = [{"violation": v["input"], "native": v["replay"]} for v, _ in real[:3]] or ["none"]
    cov = {
        "states": npaths, "transitions": tot("forks"), "traces_validated_against_impl": nw - badw,
        "samples": samples, "exhaustive": not trouble and not real,
        "explanation": "states: symbolic paths run to their end, each a class of inputs with one course of execution; transitions: decided symbolic branches; "
                       "traces_validated_against_impl: solved inputs of explored paths whose native run gave byte for byte the predicted outputs",
        "functions_encoded": {"total": len(fns), "of_mitex": mine[:400]},
        "bounds": P["bounds"], "outside": P["outside"],
        "instructions_executed": tot("steps"),
        "decisions": {"by_value_set": tot("dom_decisions"), "by_z3": tot("z3_decisions"), "path_conditions_recheck_z3": tot("pc_checks"), "paths_whose_branches_z3_proved_equivalent_to_their_value_sets": tot("audits")},
        "assertions": {"evaluated": tot("asserts"), "valid_by_rewriting": tot("asserts_folded"), "discharged_by_z3": tot("asserts_z3")},
        "solver": {"z3_queries": o["z3"]["queries"], "sat": o["z3"]["sat"], "unsat": o["z3"]["unsat"], "unknown": o["z3"]["unknown"],
                   "z3_time_s": o["z3"]["time_s"], "slowest_ms": o["z3"]["max_ms"], "cvc5_cross_checked": nc, "cvc5_agreed": agreed},
        "jobs": jobs_ev, "engine_wall_s": o["wall_s"], "build_s": round(tb, 1), "counterexamples": {"found": len(vs), "reproduced": len(real) + len(listed), "listed": len(listed)},
        "source_digest": log["repo_digest"], "ir_bytes": log["ir_bytes"],
    }
    if trouble:
        cov["inconclusive"] = trouble
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": props.ASSUMPTIONS + P.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": len(real)}
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for d in sorted({k[0][2] for _, k in listed}):
        print("KNOWN-FINDING: property=%s %s" % (pid, d))
    print("%s %s: %d jobs, %d paths, %d branches, %d z3 queries, %d native replays, engine %.1f s, build %.1f s" %
          (pid, tier, len(jobs), npaths, tot("forks"), o["z3"]["queries"], nw, o["wall_s"], tb))
    for t in trouble:
        print("INCONCLUSIVE: " + t)
    for v, _ in real[:8]:
        e = J[v["job"]]
        print("  %s(%s): %s [%s]" % (e["entry"], ",".join(map(str, e["args"])), v["what"], v["replay"]))
        for x in v["outs"][:4]:
            print("     " + x[:300])
    if real:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    shutil.rmtree(op + ".smt", ignore_errors=True)
    return status


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--setup", action="store_true")
    a.add_argument("--property")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = a.parse_args()
    try:
        if a.setup:
            build({})
            print("built in %.1f s" % (time.time() - T0))
            return 0
        return check(a.property, a.tier)
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
    except subprocess.TimeoutExpired as e:
        print("NO ANSWER: %s" % e)
    return 2


if __name__ == "__main__":
    sys.exit(main())
