#!/usr/bin/env python3
"""check.py <property id>: decide one property by monitored executions of /repo's current tree.

Exit 0: held on everything explored. Exit 1 with VIOLATION line: broken. Anything else: error.
Environment: VERIF_SEED, VERIF_TIER (quick|thorough), ZV_SHARDS, ZV_SCALE, ZV_ONLY (debugging).
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import zvbuild
from zvmeta import CHECKS, SCALE

TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
MODULE = "github.com/livekit/psrpc"


def psrpc_frame(line):
    return MODULE in line and "/internal/zverif" not in line and "zverif." not in line


def parse_races(text):
    """-> [(is_psrpc, key, block)]"""
    out = []
    for block in re.split(r"={18}\n", text):
        if "WARNING: DATA RACE" not in block:
            continue
        # the two access stacks come before the goroutine creation stacks
        access = re.split(r"\nGoroutine \d+ ", block)[0]
        frames = [l.strip() for l in access.split("\n") if l.startswith("  ") and "(" in l and not l.startswith("      ")]
        ps = [re.sub(r"\(0x.*|\(\)$", "", f) for f in frames if psrpc_frame(f)]
        out.append((bool(ps), " | ".join(ps[:2]), block[:6000]))
    return out


def parse_crash(text):
    """-> (is_psrpc, headline, excerpt) or None"""
    m = re.search(r"^(panic: |fatal error: |SIGSEGV|unexpected fault)", text, re.M)
    if not m:
        return None
    ex = text[m.start():m.start() + 12000]
    head = ex.split("\n", 1)[0]
    # first goroutine only
    gi = ex.find("\ngoroutine ")
    g = ex[gi:] if gi >= 0 else ex
    first = g.split("\n\n")[0] if gi >= 0 else g
    is_ps = False
    for l in first.split("\n"):
        if l.startswith("\t") or "panic(" in l and MODULE not in l:
            continue
        if "zverif/zs" in l or "zverif/zcore" in l:
            continue
        if "/internal/zverif" in l:
            break
        if MODULE in l:
            is_ps = True
            break
    # e.g. "fatal error: concurrent map writes" or a panic inside a library called by the code
    if not is_ps and MODULE in first and "/internal/zverif" not in first:
        is_ps = True
    return is_ps, head, ex[:6000]


def run_shard(binary, work, prop, shard, shards, procs, only, tlimit):
    out = os.path.join(work, "shard%d.json" % shard)
    env = dict(os.environ)
    env.update(ZV_PROP=prop, ZV_OUT=out, ZV_SEED=str(SEED), ZV_TIER=TIER, ZV_SHARD=str(shard), ZV_SHARDS=str(shards),
               GOMAXPROCS=str(procs), GORACE="halt_on_error=0 exitcode=0 log_path=%s" % (out + ".race"), GOTRACEBACK="all")
    if "ZV_SCALE" not in os.environ:
        env["ZV_SCALE"] = str(int(100 * SCALE.get(prop, 1) * (3 if TIER == "thorough" else 1)))
    if only:
        env["ZV_ONLY"] = only
    cwd = os.path.join(work, "cwd%d" % shard)
    os.makedirs(cwd, exist_ok=True)
    log = open(out + ".log", "wb")
    p = subprocess.Popen([binary, "-test.run", "^TestVerif$", "-test.timeout", "0", "-test.count", "1"],
                         cwd=cwd, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    return dict(p=p, out=out, shard=shard, procs=procs, t0=time.time(), limit=tlimit, timeout=False)


def wait_all(jobs):
    for j in jobs:
        left = j["t0"] + j["limit"] - time.time()
        try:
            j["p"].wait(max(left, 0.1))
        except subprocess.TimeoutExpired:
            j["timeout"] = True
            try:
                j["p"].send_signal(signal.SIGQUIT)
                j["p"].wait(10)
            except subprocess.TimeoutExpired:
                pass
        try:
            os.killpg(j["p"].pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        j["p"].wait()


def read(path, n=None):
    try:
        with open(path, "rb") as f:
            return f.read(n).decode("utf-8", "replace")
    except OSError:
        return ""


def collect(j, prop):
    """-> (shard json or None, violations, problems)"""
    viol, prob = [], []
    o = None
    try:
        o = json.loads(read(j["out"]))
    except ValueError:
        pass
    cur = read(j["out"] + ".cur")
    log = read(j["out"] + ".log")
    if o:
        for v in o["violations"] or []:
            viol.append(v)
    for f in glob.glob(j["out"] + ".race.*"):
        for is_ps, key, block in parse_races(read(f)):
            if is_ps:
                viol.append(dict(property=prop, rule="data-race", key=key, msg="data race in the code under test: " + key, case=cur, trace=block))
            elif MODULE + "/internal/zverif" in block:
                prob.append("race in the harness: " + block[:3000])
    h = read(j["out"] + ".harness")
    if h:
        prob.append("harness panic: " + h[:3000])
    if j["timeout"]:
        prob.append("TIMEOUT in case " + cur + "\n" + log[-3000:])
    elif not (o and o.get("done")):
        c = parse_crash(log)
        if c and c[0]:
            viol.append(dict(property=prop, rule="crash", key=c[1], msg="the process crashed in the code under test: " + c[1], case=cur, trace=c[2]))
        elif o and o.get("violations"):
            pass
        else:
            prob.append("shard %d ended early (exit %s) in case %s: %s" % (j["shard"], j["p"].returncode, cur, (c[2] if c else log[-3000:])))
    return o, viol, prob, cur


def main():
    prop = sys.argv[1]
    meta = CHECKS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="zv-%s-" % prop)
    try:
        return run(prop, meta, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.jsonl")
    for l in read(p).split("\n"):
        l = l.strip()
        if l:
            d = json.loads(l)
            if d.get("property") == prop and d.get("status") == "known":
                out.append(d)
    return out


def run(prop, meta, t0, work):
    if meta.get("extra_only"):
        binary, binfo = None, dict(secs=0, mode="none")
    else:
        binary, binfo = zvbuild.build(work)
    shards = int(os.environ.get("ZV_SHARDS", "8"))
    procs = [1, 2, 2, 4, 1, 2, 4, 3]
    only = os.environ.get("ZV_ONLY", "")
    if only and ":" in only:
        shards = 1
    tlimit = 300 if TIER == "quick" else 5400
    jobs = [] if binary is None else [run_shard(binary, work, prop, s, shards, procs[s % len(procs)], only, tlimit) for s in range(shards)]
    wait_all(jobs)
    outs, viol, prob = [], [], []
    for j in jobs:
        o, v, p, cur = collect(j, prop)
        if o:
            outs.append(o)
        viol += v
        if j["timeout"] and cur and not v:
            # the reference needs milliseconds per case: a case that repeatedly uses up a
            # minute of real time by itself is a hang of the code under test
            hung = 0
            txt = ""
            for k in range(2):
                jj = run_shard(binary, work, prop, 100 + k, 1, 2, cur, 60)
                wait_all([jj])
                if jj["timeout"]:
                    hung += 1
                    txt = read(jj["out"] + ".log")[-6000:]
            if hung == 2:
                viol.append(dict(property=prop, rule="hang", key="", msg="the case uses up real time without end", case=cur, trace=txt))
                p = []
        prob += p

    # the extra monitors of a property that do not run inside the Go harness
    extra = None
    if meta.get("extra") and (not only or binary is None):
        extra = meta["extra"](work, TIER, SEED, binfo)
        viol += extra["violations"]
        prob += extra["problems"]

    known = known_findings(prop)
    new, seen = [], set()
    for v in viol:
        hit = None
        for k in known:
            if k["rule"] == v["rule"] and re.search(k["match"], v.get("key") or v["msg"], re.S):
                hit = k
        if hit:
            seen.add(hit["id"])
        else:
            new.append(v)
    for k in known:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k["what"], "observed in this run" if k["id"] in seen else "not observed in this run"))

    sigs = set()
    counts, perwl, sites, samples = {}, {}, set(), []
    for o in outs:
        sigs.update(o["nontrivial"] or [])
        for k, v in o["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in o["per_workload"].items():
            perwl[k] = perwl.get(k, 0) + v
        sites.update(o["sites"] or [])
        samples += (o["samples"] or [])[:1]
    cases = sum(o["cases"] for o in outs)
    cov = {
        "evaluations": cases + (extra["evaluations"] if extra else 0),
        "distinct_nontrivial": len(sigs) + (extra["distinct"] if extra else 0),
        "rule": meta["rule"],
        "samples": (extra["samples"] if extra else []) + samples[:6],
        "cases_per_workload": perwl,
        "observed": dict(sorted(counts.items())),
        "instrumented": binfo["mode"],
        "perturbation": {"delays_injected": sum(o["delays"] for o in outs), "yields_injected": sum(o["yields"] for o in outs), "statements_executed": sum(o["steps"] for o in outs)},
        "statement_sites_executed": len(sites),
        "statement_sites_total": max([o["sites_total"] for o in outs] or [0]),
        "virtual_seconds": round(sum(o["virtual_s"] for o in outs), 1),
        "gomaxprocs": sorted(o["gomaxprocs"] for o in outs),
        "problems": [p[:500] for p in prob[:5]],
    }
    if extra:
        cov["extra"] = extra["coverage"]
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": meta.get("level", "exploration"), "coverage": cov,
          "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if not only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    print("%s: %d cases, %d distinct non-trivial, %d violations, %d problems, %.1fs (build %.1fs, %s)" % (
        prop, cov["evaluations"], cov["distinct_nontrivial"], len(new), len(prob), time.time() - t0, binfo["secs"], binfo["mode"]))
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        groups = {}
        for v in new:
            groups.setdefault((v["rule"], v.get("key", "")), []).append(v)
        for n, ((rule, key), vs) in enumerate(list(groups.items())[:5]):
            path = os.path.join(HERE, "replays", "%s-%d.txt" % (prop, n))
            with open(path, "w") as f:
                f.write("property %s rule %s key %s\nreproduce: cd /verif && VERIF_SEED=%d VERIF_TIER=%s ZV_ONLY='%s' python3 check.py %s\n\n" % (prop, rule, key, SEED, TIER, vs[0].get("case", ""), prop))
                for v in vs[:3]:
                    f.write("case %s\n%s\n%s\n\n" % (v.get("case"), v["msg"], v.get("trace", "")))
            print("  %s [%s] in %s (%d times): %s" % (rule, key[:200], vs[0].get("case"), len(vs), vs[0]["msg"].split("\n")[0][:400]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if prob:
        for p in prob[:3]:
            print("PROBLEM:", p[:3000])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
