#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough: decides one property on /repo's current working tree.

1. builds the driver from /repo's working tree (overlay, nothing is written there),
2. drives the real modules through generated histories,
3. lets TLC check every recorded step against spec/Kyve.tla (Trace.tla) and evaluate the
   property's predicates (Props.tla) on it,
4. maps deviations to the property (tools/props.py).
exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import collections, concurrent.futures, itertools, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
CP = "/opt/veriftools/tla/tla2tools.jar"
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


class Broken(Exception):
    pass


def run(cmd, cwd=None, timeout=600, out=None, env=None):
    e = dict(os.environ)
    e.update(env or {})
    with open(out or os.devnull, "w") as f:
        p = subprocess.run(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e)
    return p.returncode


def tail(path, n=2500):
    try:
        return open(path, errors="replace").read()[-n:]
    except OSError:
        return ""


def javac(w):
    d = os.path.join(w, "classes")
    os.makedirs(d)
    src = [os.path.join(VERIF, "tools/java", f) for f in sorted(os.listdir(os.path.join(VERIF, "tools/java")))]
    if run(["javac", "-nowarn", "-cp", CP, "-d", d] + src, out=os.path.join(w, "javac.log")):
        raise Broken("javac: " + tail(os.path.join(w, "javac.log")))
    return d


def build(w):
    drv = os.path.join(w, "drv")
    if run([os.path.join(VERIF, "tools/build_driver.sh"), drv], out=os.path.join(w, "build.log")):
        raise Broken("driver build failed: " + tail(os.path.join(w, "build.log")))
    return drv


def drive(w, drv, jobs):
    """jobs: (name, profile, seed, traces, steps); returns trace files, stats and crashes"""
    crashes, files, stats = [], [], collections.Counter()

    def one(j):
        name, prof, seed, traces, steps = j[:5]
        d = os.path.join(w, "run_" + name)
        os.makedirs(d)
        f, st, lg = os.path.join(w, name + ".ndjson"), os.path.join(w, name + ".stats"), os.path.join(w, name + ".log")
        try:
            rc = run([drv, "-profile", prof, "-seed", str(seed), "-traces", str(traces), "-steps", str(steps), "-out", f, "-stats", st] + list(j[5:]), cwd=d, out=lg,
                     timeout=800, env={"GOMAXPROCS": "2", "GOGC": "200"})
        except subprocess.TimeoutExpired:
            raise Broken("driver timed out on profile " + prof)
        shutil.rmtree(d, ignore_errors=True)
        return j, rc, f, st, lg
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for j, rc, f, st, lg in ex.map(one, jobs):
            if rc == 0:
                stats.update(json.load(open(st)))
                files.append(f)
            elif rc == 2 and "goroutine" in tail(lg, 100000):
                crashes.append((j, tail(lg, 6000)))
                if os.path.exists(f) and os.path.getsize(f):
                    files.append(f)
            else:
                raise Broken("driver failed (%s) on %s: %s" % (rc, j, tail(lg)))
    return files, stats, crashes


def replicas(w, drv, jobs, how):
    """the same histories once more, in one process each: the lines where they part"""
    again = [("again_" + j[0],) + j[1:] + ("-inplace",) for j in jobs]
    _, _, crashes = drive(w, drv, again)
    diffs = []
    for j in jobs:
        fa, fb = (os.path.join(w, n + ".ndjson") for n in (j[0], "again_" + j[0]))
        parted = False
        with open(fa) as a, open(fb) as b:
            for n, (x, y) in enumerate(itertools.zip_longest(a, b, fillvalue=""), 1):
                if x.startswith('{"init"'):
                    parted = False
                if parted or x == y:
                    continue
                try:
                    dx, dy = json.loads(x), json.loads(y)
                except ValueError:
                    dx, dy = {}, {}
                for d in (dx, dy):
                    d.pop("err", None)
                    if how == "state":
                        d.pop("x", None)
                if dx and dx == dy or how == "state" and dx.get("a", {}).get("kind") == "Reimport":
                    continue
                diffs.append({"step": "%s:%d" % (fa, n), "kind": dx.get("a", {}).get("kind", "?"), "tag": "replica", "exp": y[:3000], "got": x[:3000]})
                parted = True
    return diffs, crashes


def explore(w, classes, drv, scens, want, budget):
    """TLC explores the specification from where the real chain was led (spec/MC.tla); the explored
    graph is replayed on the real chain.  Yields trace files, reports of TLC, coverage, crashes"""
    crashes, pre = [], []
    d = os.path.join(w, "mc")
    os.makedirs(d)

    def prefix(sc):
        f, lg = os.path.join(w, "scen_%s.ndjson" % sc), os.path.join(w, "scen_%s.log" % sc)
        os.makedirs(os.path.join(w, "run_scen_" + sc))
        return sc, run([drv, "-scenario", sc, "-out", f], cwd=os.path.join(w, "run_scen_" + sc), out=lg, timeout=300), f, lg
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for sc, rc, f, lg in ex.map(prefix, scens):
            if rc == 0:
                pre.append((sc, f))
            elif rc == 2 and "goroutine" in tail(lg, 100000):
                crashes.append((("scenario", sc), tail(lg, 6000)))
            else:
                raise Broken("driver failed (%s) on scenario %s: %s" % (rc, sc, tail(lg)))
    if not pre:
        return [], [], {}, crashes, None
    rep, lg = os.path.join(d, "report"), os.path.join(d, "tlc.log")
    share = {sc: budget * n // sum(scens[x] for x, _ in pre) for sc, n in scens.items()}
    rc = run([os.path.join(VERIF, "tools/mc.sh"), classes, d, rep, ",".join(f for _, f in pre), "-Dtrace.want=" + ",".join(want)] +
             ["-Dmc.max.%s=%d" % x for x in share.items()], out=lg, timeout=840, env={"JOPTS": "-Xmx16g"})
    t = open(lg, errors="replace").read()
    problem = None if rc == 0 and "Model checking completed. No error" in t else "TLC (exploration): " + t[-3000:]
    reports = [json.loads(l) for l in open(rep)] if os.path.exists(rep) else []
    cov, jobs = {}, []
    for sc, f in pre:
        ef = os.path.join(d, "edges_" + sc)
        if not os.path.exists(ef):
            continue
        depth, kids, out, n = {0: 0}, collections.defaultdict(list), set(), 0
        kinds = collections.Counter()
        with open(ef) as fh:
            for l in fh:
                try:
                    e = json.loads(l)
                except ValueError:
                    break
                n += 1
                out.add(e["f"])
                kinds[e["a"]["kind"]] += 1
                if e["new"]:
                    kids[e["f"]].append(e["t"])
        q = [0]
        for v in q:
            for x in kids[v]:
                depth[x] = depth[v] + 1
                q.append(x)
        cov[sc] = {"states": len(depth), "transitions": n, "explored_completely_to_depth": min([depth[v] for v in depth if v not in out] or [max(depth.values())]),
                   "depth": max(depth.values()), "transitions_by_action": dict(kinds)}
        parts = max(1, min(8, n // 1000))
        jobs += [(sc, ef, i, parts) for i in range(parts)]

    def replay(j):
        sc, ef, i, parts = j
        n = "graph_%s_%d" % (sc, i)
        f, lg = os.path.join(w, n + ".ndjson"), os.path.join(w, n + ".log")
        os.makedirs(os.path.join(w, "run_" + n))
        rc = run([drv, "-scenario", sc, "-graph", ef, "-part", str(i), "-parts", str(parts), "-out", f], cwd=os.path.join(w, "run_" + n), out=lg,
                 timeout=840, env={"GOMAXPROCS": "2", "GOGC": "200"})
        return j, rc, f, lg
    files = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for j, rc, f, lg in ex.map(replay, jobs):
            if rc == 0:
                files.append(f)
            elif rc == 2 and "goroutine" in tail(lg, 100000):
                crashes.append((j, tail(lg, 6000)))
                if os.path.exists(f) and os.path.getsize(f):
                    files.append(f)
            else:
                raise Broken("driver failed (%s) on %s: %s" % (rc, j, tail(lg)))
    for r in reports:
        r["edges"] = os.path.join(d, "edges_" + r["scenario"])
    return files, reports, cov, crashes, problem


def model_history(edges, node):
    """the actions that lead to a state of an explored graph"""
    par = {}
    for l in open(edges):
        e = json.loads(l)
        if e["new"]:
            par[e["t"]] = (e["f"], e["a"])
    h = []
    while node in par:
        node, a = par[node]
        h.append({"action": a})
    return h[::-1]


def tlc_trace(w, classes, files, want):
    rep, lg = os.path.join(w, "report"), os.path.join(w, "tlc.log")
    for f in files:   # a crashed driver leaves an incomplete last line
        b = open(f, "rb").read()
        if b and not b.endswith(b"\n"):
            open(f, "wb").write(b[:b.rfind(b"\n") + 1])
    rc = run([os.path.join(VERIF, "tools/trace.sh"), classes, os.path.join(w, "md"), rep, ",".join(files), "-Dtrace.want=" + ",".join(want)],
             out=lg, timeout=800, env={"JOPTS": "-Xmx16g"})
    t = open(lg, errors="replace").read()
    if rc != 0 or "Model checking completed. No error" not in t:
        raise Broken("TLC (trace): " + t[-3000:])
    n = 0
    for l in t.splitlines():
        if re.match(r"^[\d,]+ states generated, [\d,]+ distinct", l):
            n = int(l.split()[0].replace(",", ""))
    return [json.loads(l) for l in open(rep)], n


def relevant(pid, kind, tag):
    if tag == "replica":
        return True
    if tag in props.PREDS[pid]:
        return True
    if tag.startswith(("inv:", "step:")):
        return False
    for kinds, tags in props.P[pid]["rules"]:
        if kind in kinds and (props.ANY[0] in tags and tag != "ev" or tag in tags or tag == "eval"):
            return True
    return False


def plan(pid, tier, seed):
    total = {"quick": 32000, "thorough": 400000}[tier]
    pr = props.P[pid]["profiles"]
    W = sum(n for _, n in pr)
    jobs = []
    per = total // 8 // (1 if tier == "quick" else 4)
    k = 0
    for name, share in pr:
        cnt = max(1, round(8 * share / W)) * (1 if tier == "quick" else 4)
        for i in range(cnt):
            steps = props.STEPS.get(name, 250)
            jobs.append(("%s_%d" % (name, i), name, (seed * 1000 + k * 37 + props.NUM.index(pid) * 7919) % 1_000_000_007, max(1, per // steps), steps))
            k += 1
    return jobs


def replay_file(pid, kind, what, extra, n):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (pid, n))
    json.dump(extra, open(p, "w"), indent=1)
    return p


def history(step):
    f, ln = step.rsplit(":", 1)
    ln = int(ln)
    h, meta = [], None
    if "/graph_" in f:
        at = {}
        with open(f) as fh:
            for i, l in enumerate(fh, 1):
                if i > ln:
                    break
                d = json.loads(l)
                if "init" in d:
                    at[i], meta = [], d.get("meta")
                else:
                    at[i] = (d.get("p", i - 1), {"action": d["a"], "ok": d["ok"], "err": d.get("err", "")})
        while at.get(ln):
            h.append(at[ln][1])
            ln = at[ln][0]
        return meta, h[::-1]
    with open(f) as fh:
        for i, l in enumerate(fh, 1):
            if i > ln:
                break
            d = json.loads(l)
            if "init" in d:
                h, meta = [], d.get("meta")
            else:
                h.append({"action": d["a"], "ok": d["ok"], "err": d.get("err", "")})
    return meta, h


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    w = tempfile.mkdtemp(prefix="verif_")
    try:
        return check(pid, tier, seed, w)
    except Broken as e:
        print("CHECK BROKEN:", e)
        return 2
    finally:
        shutil.rmtree(w, ignore_errors=True)


def check(pid, tier, seed, w):
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fc, fb = ex.submit(javac, w), ex.submit(build, w)
        classes, drv = fc.result(), fb.result()
    log("built")
    jobs = plan(pid, tier, seed)
    files, stats, crashes = drive(w, drv, jobs)
    log("drove", sum(stats.values()), "steps")
    parted = []
    how = props.P[pid].get("replicas")
    if how:
        parted, c2 = replicas(w, drv, jobs, how)
        crashes += c2
        log("replicas:", len(parted), "histories part")
    scens = props.P[pid].get("mc")
    mrep, mcov, problem = [], {}, None
    if scens:
        gf, mrep, mcov, c3, problem = explore(w, classes, drv, scens, props.PREDS[pid] + (["queries"] if props.P[pid].get("ask") else []),
                                              props.MC[tier])
        crashes += c3
        log("explored", {k: (v["states"], v["transitions"], v["explored_completely_to_depth"], v["depth"]) for k, v in mcov.items()}, "and replayed")
        files = files + gf
    rep, n = tlc_trace(w, classes, files, props.PREDS[pid])
    log("validated", n, "steps,", len(rep), "reports")

    rep = parted + rep
    known = [l.strip() for l in open(os.path.join(VERIF, "known_findings.txt")) if l.startswith("known:")]
    viol, seen_known = collections.OrderedDict(), collections.Counter()
    other = collections.Counter()
    for d in rep:
        if d["tag"].startswith("known:"):
            seen_known[d["tag"]] += 1
            continue
        if relevant(pid, d["kind"], d["tag"]):
            viol.setdefault((d["kind"], d["tag"]), []).append(d)
        else:
            other[(d["kind"], d["tag"])] += 1
    for k in other:
        log("deviation outside of this property:", k, other[k])
    n_viol = 0
    for k in known:
        # known: property=<id> <tag> <text>
        f = k[len("known:"):].split(None, 2)
        p, tag, text = f[0].split("=")[1], f[1], f[2]
        if p == pid and seen_known["known:" + tag]:
            print("KNOWN-FINDING: property=%s %s (%d occurrences)" % (pid, text, seen_known["known:" + tag]))
    for (kind, tag), ds in viol.items():
        n_viol += 1
        d = min(ds, key=lambda x: int(x["step"].rsplit(":", 1)[1]))
        meta, h = history(d["step"])
        path = replay_file(pid, kind, tag, {"property": pid, "deviation": {"action": kind, "component": tag, "expected": d["exp"], "observed": d["got"]},
                                             "occurrences": len(ds), "history": meta, "steps": h}, n_viol)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s at step %d of history %s: the specification expects\n    %s\n  but the chain has\n    %s" % (
            (kind + "/" + tag), len(h), json.dumps(meta), d["exp"][:400], d["got"][:400]))
    mviol = collections.OrderedDict()
    for d in mrep:
        mviol.setdefault((d["kind"], d["tag"]), []).append(d)
    for (kind, tag), ds in mviol.items():
        n_viol += 1
        d = min(ds, key=lambda x: x["node"])
        h = model_history(d["edges"], d["node"])
        path = replay_file(pid, kind, tag, {"property": pid, "scenario": d["scenario"], "steps": h + [{"action": d["act"]}], "predicate": tag, "result": d["got"]}, n_viol)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s fails after %s in scenario %s of the specification" % (tag, kind, d["scenario"]))
    for j, t in crashes:
        n_viol += 1
        path = replay_file(pid, "crash", "crash", {"property": pid, "crash": t, "job": j}, n_viol)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  the real code crashed outside of message handling:\n" + t[:600])
    if problem:
        if not n_viol:
            raise Broken(problem)
        log(problem[:300])
    samples = []
    for f in files[:2]:
        for i, l in enumerate(open(f)):
            if i in (1, 60):
                d = json.loads(l)
                samples.append({"action": d["a"], "ok": d["ok"], "changed": sorted(d["c"])})
    extra = {"replicas": how, "histories_repeated": sum(j[3] for j in jobs)} if how else {}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": n + len(files), "transitions": n, "traces_validated_against_impl": sum(j[3] for j in jobs) + sum(v["states"] for v in mcov.values()),
                       "model_states": sum(v["states"] for v in mcov.values()), "model_transitions": sum(v["transitions"] for v in mcov.values()), "scenarios": mcov,
                       "samples": samples, "steps_by_kind": dict(sorted(stats.items())), "profiles": [list(j) for j in jobs], **extra,
                       "deviations_elsewhere": {"/".join(k): v for k, v in other.items()}},
          "wall_s": round(time.time() - T0, 1), "violations": n_viol}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    log("done,", n_viol, "violations")
    return 1 if n_viol else 0


if __name__ == "__main__":
    sys.exit(main())
