#!/usr/bin/env python3
"""checks/run.py <property> [--tier quick|thorough] [--replay FILE]

Builds the conformance drivers of one property from /repo's working tree, runs
their workloads (seeded random histories and scripts generated from the TLA+
model), and has TLC check every recorded execution against the specification.
Exit 0: nothing the specification forbids about this property was observed.
Exit 1: VIOLATION line printed.  Exit 2: the check itself failed."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(ROOT, "checks"))
from profiles import PROFILES, TITLES            # noqa: E402
import model                                     # noqa: E402

TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
JOBS = int(os.environ.get("VP_JOBS", "8"))
CXX = ["g++", "-std=c++17", "-O0", "-g0", "-w", f"-I{REPO}/include",
       "-isystem", "/opt/vp/cmake/guard", f"-I{ROOT}/harness"]


class CheckError(Exception):
    pass


def tlc_jar():
    cps = [p for p in CP.split(":") if os.path.exists(p)]
    if not cps:
        raise CheckError("TLC jar not found")
    return ":".join(cps)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_driver(work, src, flags, libs=()):
    key = hashlib.sha1(json.dumps([src, flags, list(libs)]).encode()).hexdigest()[:12]
    exe = os.path.join(work, f"d_{key}")
    r = run(CXX + list(flags) + [os.path.join(ROOT, "harness", src), "-o", exe] + list(libs))
    if r.returncode:
        raise CheckError(f"driver does not compile ({src} {flags}):\n{r.stdout[-3000:]}")
    return exe


def execute(work, exe, args, name, timeout):
    """run a driver; its log always ends in an `end` or a `crash` event"""
    log = os.path.join(work, name + ".nd")
    try:
        r = run([exe, f"out={log}"] + args, timeout=timeout, cwd=work)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = -1
    lines = open(log, errors="replace").read().split("\n") if os.path.exists(log) else []
    lines = [x for x in lines if x]
    if lines:
        try:
            json.loads(lines[-1])
        except ValueError:
            lines.pop()
    last = lines[-1] if lines else ""
    if not lines or not ('"op":"end"' in last or '"op":"crash"' in last):
        lines.append(json.dumps({"op": "crash", "in": "?", "sig": rc}, separators=(",", ":")))
    os.unlink(log) if os.path.exists(log) else None
    return lines


def split_traces(lines):
    out = []
    for x in lines:
        if x.startswith('{"op":"reset"') or not out:
            out.append([])
        out[-1].append(x)
    return out


REJ = re.compile(r'REJECT \[(\d+),(.*)\]"\s*$')


def tlc(work, spec, lines, tag):
    """validate lines against spec; returns (rejections, states)"""
    d = tempfile.mkdtemp(prefix="tlc", dir=work)
    try:
        tr = os.path.join(d, "trace.nd")
        with open(tr, "w") as f:
            f.write("\n".join(lines) + "\n")
        env = dict(os.environ, TRACE=tr)
        r = run(["java", "-XX:+UseSerialGC", "-Xss16m", "-Xmx2500m", f"-Djava.io.tmpdir={d}", "-cp", tlc_jar(), "tlc2.TLC", "-workers", "1",
                 "-metadir", os.path.join(d, "m"), "-noGenerateSpecTE", "-lncheck", "final",
                 "-config", os.path.join(ROOT, "spec", spec + ".cfg"),
                 os.path.join(ROOT, "spec", spec + ".tla")], env=env, timeout=840, cwd=d)
        rej = []
        for ln in r.stdout.split("\n"):
            m = REJ.search(ln)
            if m:
                rej.append((int(m.group(1)), json.loads(m.group(2).replace('\\"', '"'))))
        m = re.search(r"(\d+) states generated, (\d+) distinct", r.stdout)
        if not m or "No error has been found" not in r.stdout:
            raise CheckError(f"TLC failed on {tag}:\n" + r.stdout[-1200:])
        return rej, int(m.group(2))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load_findings():
    p = os.path.join(ROOT, "known-findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def finding_for(pid, clause, ev, job):
    for f in load_findings():
        m = f["match"]
        if f["property"] == pid and m["clause"] == clause and m["op"] == ev.get("op") and \
           all(ev.get(k) == v for k, v in m.get("args", {}).items()):
            return f
    return None


class Job:
    """one workload: driver + arguments + specification it is validated against"""
    def __init__(self, src, flags, args, spec="MITrace", libs=(), script=None, name=""):
        self.src, self.flags, self.args, self.spec = src, tuple(flags), list(args), spec
        self.libs, self.script, self.name = tuple(libs), script, name

    def desc(self):
        return {"driver": self.src, "flags": list(self.flags), "args": self.args, "spec": self.spec,
                "libs": list(self.libs), "script": self.script}


def main():
    t0 = time.time()
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        k = a.index("--tier")
        tier = a[k + 1]
        del a[k:k + 2]
    replay = None
    if "--replay" in a:
        k = a.index("--replay")
        replay = a[k + 1]
        del a[k:k + 2]
    pid = a[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prof = PROFILES[pid]
    os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"{pid}-", dir=os.path.join(ROOT, "build"))
    try:
        return check(pid, tier, seed, prof, work, replay, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(pid, tier, seed, prof, work, replay, t0):
    jobs, info = [], {}
    ex = cf.ThreadPoolExecutor(JOBS)
    if replay:
        d = json.load(open(replay))["job"]
        jobs = [Job(d["driver"], d["flags"], d["args"], d["spec"], d["libs"], d["script"], "replay")]
        models = []
    else:
        jobs = [Job(**x) for x in prof["jobs"](tier, seed)]
        models = prof["models"](tier) if "models" in prof else []
    # model checking and script generation run alongside compilation
    model_futs = [ex.submit(model.check_and_generate, work, m, tlc_jar(), seed, tier) for m in models]
    builds = {}

    def build(src, flags, libs):
        k = (src, flags, libs)
        if k not in builds:
            builds[k] = ex.submit(compile_driver, work, src, flags, libs)
        return builds[k]
    for j in jobs:
        build(j.src, j.flags, j.libs)
    for m in models:
        for j in m["replay"]:
            build(j["src"], tuple(j["flags"]), tuple(j.get("libs", ())))
    states = transitions = 0
    mc = []
    for m, f in zip(models, model_futs):
        r = f.result()
        mc.append({k: r[k] for k in r if k != "scripts"})
        if r.get("error"):
            raise CheckError("model checking failed: " + r["error"])
        states += r["states"]
        transitions += r["transitions"]
        for j in m["replay"]:
            for n, s in enumerate(r["scripts"]):
                jobs.append(Job(j["src"], j["flags"], j.get("args", []), j.get("spec", "MITrace"),
                                j.get("libs", ()), s, f"model-{m['name']}-{n}"))

    def go(n, j):
        exe = build(j.src, j.flags, j.libs).result()
        args = list(j.args)
        if j.script:
            p = os.path.join(work, f"s{n}.txt")
            open(p, "w").write(j.script)
            args.append("script=" + p)
        return n, execute(work, exe, args, f"j{n}", 150)
    # the compilations are already queued: the runs below only wait for finished ones
    runs = cf.ThreadPoolExecutor(JOBS)
    ops, bad_end, nev, ntr, samples, distinct, thrown = {}, 0, 0, 0, [], set(), {}
    chunk_futs = []
    limit = 4000 if tier == "quick" else 9000

    for n, lines in [f.result() for f in cf.as_completed([runs.submit(go, n, j) for n, j in enumerate(jobs)])]:
        j = jobs[n]
        cur, cnt = [], 0
        for tn, t in enumerate(split_traces(lines)):
            ntr += 1
            nev += len(t)
            for x in t:
                m = re.match(r'\{"op":"(\w+)"', x)
                if m:
                    ops[m.group(1)] = ops.get(m.group(1), 0) + 1
                m = re.search(r'"x":(\d+)', x)
                if m and m.group(1) != "0":
                    thrown[m.group(1)] = thrown.get(m.group(1), 0) + 1
                distinct.add(hash(x))
            if len(samples) < 4 and len(t) > 3:
                samples.append({"job": j.desc() if not j.script else {**j.desc(), "script": "(generated)"},
                                "events": [e[:600] for e in t[1:4]]})
            cur.append((tn, t))
            cnt += len(t)
            if cnt >= limit:
                chunk_futs.append((n, cur, ex.submit(tlc, work, j.spec, [e for _, u in cur for e in u], f"job {n}")))
                cur, cnt = [], 0
        if cur:
            chunk_futs.append((n, cur, ex.submit(tlc, work, j.spec, [e for _, u in cur for e in u], f"job {n}")))
    viol, known, other = [], {}, 0
    for n, cur, f in chunk_futs:
        rej, st = f.result()
        states += st
        transitions += st
        if not rej:
            continue
        flat = [(tn, k) for tn, t in cur for k in range(len(t))]
        for line, clauses in rej:
            mine = [c for c in clauses if c[0] in (pid, "ALL")]
            tn, k = flat[line - 1]
            t = dict(cur)[tn]
            if not mine:
                other += 1
                if os.environ.get("VP_DEBUG"):
                    print("other:", clauses, t[k][:600], file=sys.stderr)
                continue
            ev = json.loads(t[k])
            unl = []
            for c in mine:
                kf = finding_for(pid, c[1], ev, jobs[n])
                if kf:
                    known[kf["id"]] = kf
                else:
                    unl.append(c)
            if unl:
                viol.append((n, tn, t[:k + 1], unl))
    rc = 0
    for kf in known.values():
        print(f"KNOWN-FINDING: property={pid} {kf['what']}")
    # a violation is reported when validating its trace alone rejects it too
    seen = set()
    nviol = 0
    for n, tn, t, cl in viol:
        sig = (jobs[n].flags, json.loads(t[-1])["op"], str(cl))
        if sig in seen or len(seen) > 5:
            continue
        seen.add(sig)
        again = []
        if t[0].startswith('{"op":"reset"') or jobs[n].spec != "MITrace":
            again = [c for ln, cs in tlc(work, jobs[n].spec, t, "confirmation")[0] for c in cs if c[0] in (pid, "ALL")]
        if not again and len(t) > 1:
            print(f"note: not confirmed alone: {cl}", file=sys.stderr)
            continue
        nviol += 1
        rp = os.path.join(ROOT, "build", "replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, f"{pid}-{nviol}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "title": TITLES[pid], "failing": cl, "job": jobs[n].desc(), "trace": tn,
                       "events": [json.loads(e) for e in t],
                       "rerun": f"checks/run.py {pid} --replay {path}"}, f)
        print(f"{pid} violated: {cl} at {t[-1][:700]}")
        print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    if not replay:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump({
            "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": states, "transitions": transitions,
                "traces_validated_against_impl": ntr, "events_validated": nev,
                "distinct_events": len(distinct), "events_by_operation": ops,
                "events_ended_by_exception": thrown, "models": mc,
                "rejections_of_other_properties": other,
                "rule": "states/transitions: distinct states TLC visited, in the bounded models and while following "
                        "the recorded executions (one step per event); every event was judged against the specification",
                "samples": samples or [{"note": "no trace"}]},
            "assumptions": prof.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2), "violations": nviol},
            open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w"), indent=1)
    if nev == 0:
        raise CheckError("nothing was executed")
    print(f"{pid} {tier}: {ntr} traces, {nev} events, {states} states, {len(seen)} kinds of violation, "
          f"{other} other rejections, {time.time()-t0:.1f}s")
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("check error:", e)
        sys.exit(2)
