"""What each property's check runs: configurations, operation mixes, faults."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TITLES = {}
for ln in open(os.path.join(ROOT, "properties.jsonl")):
    if ln.strip():
        d = json.loads(ln)
        TITLES[d["id"]] = d["title"]

# every operation at a moderate rate
BASE = dict(ins=20, insr=3, era=5, errg=1, erk=1, clr=1, rem=1, unq=1, repl=3, modi=6, mrg=3, cpy=3, ext=3,
            extk=2, nhi=4, nhm=1, nhx=1, smg=1, sort=1, rev=1, rel1=1, relr=1, rear=1, look=2, rng=1, cmpc=1,
            take=2, drop=1, rnk=1, pos=1, hpol=1, rpol=1, bkt=1)
FAULTS = 254                      # every kind of user operation may throw

# histories per quick run, relative to the numbers below
SCALE = float(os.environ.get("VP_SCALE", "2"))


def ops(**kw):
    w = dict(BASE)
    for k, v in kw.items():
        w[k] = v
    return w


def mk(cfg, w, seed, traces, length, flags=(), **opts):
    args = [f"seed={seed}", f"traces={traces}", f"len={length}"]
    args += [f"{k}={v}" for k, v in opts.items()] + [f"{k}={v}" for k, v in w.items() if v]
    args += [f for f in flags if not f.startswith("-")]
    return dict(src="main.cpp", flags=[f"-DVP_CFG={cfg}"] + [f for f in flags if f.startswith("-")], args=args)


def std(cfgs, w, quick=(60, 60), flags=(), more=(), thorough_cfgs=None, **opts):
    """random histories over the configurations, the last element of each
    entry optionally giving extra compiler flags"""
    def jobs(tier, seed):
        out = []
        tr, ln = quick
        tr = int(tr * SCALE)
        cs = list(cfgs) if tier == "quick" else list(thorough_cfgs or cfgs)
        if tier == "quick":
            for n, c in enumerate(cs):
                c, fl = (c, ()) if not isinstance(c, tuple) else c
                out.append(mk(c, w, seed * 1000 + n, tr, ln, list(flags) + list(fl), **opts))
        else:
            for n, c in enumerate(cs):
                c, fl = (c, ()) if not isinstance(c, tuple) else c
                for r in range(4):
                    o = dict(opts)
                    if r == 1:
                        o.update(maxn=16, ka=16)
                    if r == 2:
                        o.update(maxn=5, ka=4, kb=2, kc=2)
                    if r == 3:
                        o.update(fault=max(30, o.get("fault", 0)), fmask=FAULTS)
                    out.append(mk(c, w, seed * 1000 + 100 * (r + 1) + n, tr * 3, ln * 2, list(flags) + list(fl), **o))
        for m in more:
            out += m(tier, seed)
        return out
    return jobs


ALLC = list(range(1, 19))


def H(n):
    return f"hash={n}"


def A(n):
    return f"-DVP_ALB={n}"


FA = "-DVP_FANCY"                 # pointers relative to their own address
NC = "-DBOOST_MULTI_INDEX_DISABLE_COMPRESSED_ORDERED_INDEX_NODES"
VARIANTS = [(c, [f]) for n, c in enumerate(ALLC) for f in ((FA, NC)[n % 2],)]
PROFILES = {}


def M(cfg, ops_, vals, maxn, thorough=None, flags=(), args=(), libs=(), **kw):
    """a bounded model (see model.py) and the driver its walks are replayed in;
    thorough: constants that differ in the thorough tier"""
    def f(tier, n):
        m = dict(name=f"cfg{cfg}-{n}", cfg=cfg, ops=set(ops_.split()), vals=vals, maxn=maxn, **kw)
        if tier != "quick":
            m["events"] = 30 * m.get("events", 2500)
            m["faults"] = 20 * m.get("faults", 0)
            m.update(thorough or {})
        m["replay"] = [dict(src="main.cpp", flags=[f"-DVP_CFG={cfg}", *flags], args=list(args), libs=list(libs))]
        return m
    return f


def V(na, nb=1, nc=1):
    return [(a, b, c) for a in range(na) for b in range(nb) for c in range(nc)]


MODELS = {
    "P01": [M(6, "ins era errg clr modi repl sort rev rel1 rem unq", [(0, 0, 0), (0, 1, 0), (1, 2, 0)], 2, bs=[1])],
    "P02": [M(17, "ins node", V(2, 2, 2)[:5], 2, cs=[1, 3], through=[1, 2, 3]),
            M(15, "ins insr hint", V(2, 2), 2, bs=[1])],
    "P03": [M(1, "ins hint modi erk", V(3, 2), 3, bs=[1], through=[1, 2])],
    "P04": [M(10, "ins era look rng", V(3), 4, bs=[1])],
    "P05": [M(11, "ins era rnk look rng modi", V(3), 4, bs=[1], through=[1])],
    "P06": [M(9, "ins era look modi erk", V(1, 3), 4, bs=[1], through=[1])],
    "P07": [M(9, "ins era bkt hpol clr erk", V(1, 3), 3, bs=[1], through=[1])],
    "P08": [M(9, "ins sort rev rel1 relr rear unq rem", V(2, 2), 3, bs=[1], through=[2])],
    "P09": [M(3, "ins sort rev rel1 relr rear unq rem pos", V(3, 2), 3, bs=[1], through=[3])],
    "P10": [M(15, "ins modi repl", V(2, 2, 2), 3, bs=[1], through=[1, 4])],
    "P11": [M(2, "ins era errg erk clr rem unq", V(3, 2), 3, bs=[1])],
    "P12": [M(7, "ins modi", V(2, 2, 2), 3, bs=[1], through=[1, 3], faults=1500, args=["fmask=254"])],
    "P13": [M(4, "ins insr node modi repl sort rear mrg mrgr", [(0, 0, 0), (1, 0, 0)], 2, cs=[1, 3], through=[1, 3], events=600, faults=1500,
              args=["fmask=254", "fault=100"])],
    "P14": [M(2, "ins node hint", V(2, 2)[:3], 2, cs=[1, 3])],
    "P15": [M(2, "ins mrg mrg1 mrgr", V(2, 2), 2, cs=[1, 3]), M(2, "ins mrg mrgr smg sort", V(2, 2), 2, through=[1])],
    "P16": [M(3, "ins era cpy", V(2, 2), 2)],
    "P17": [M(2, "ins era modi repl mrg cpy rel1", V(2, 2), 2, take=0.4)],
    "P18": [M(3, "ins node cpy mrg mrg1", [(0, 0, 0), (1, 0, 0), (0, 1, 0)], 2, events=700, faults=600, args=["fmask=254", "fault=100"])],
    "P19": [M(6, "ins ser rel1 rear modi", [(0, 0, 0), (0, 1, 0), (1, 2, 0)], 2, bs=[1], through=[1, 4], events=1200,
              flags=["-DVP_SER"], libs=["-lboost_serialization"])],
    "P21": [M(14, "ins look rng", V(2, 2, 2), 2, bs=[1], through=[1, 2])],
    "P22": [M(1, "ins cmpc rel1", V(2, 2), 2), M(9, "ins cmpc", V(2, 1), 3, through=[1])],
}


def prop(pid, jobs, **kw):
    if pid in MODELS:
        kw["models"] = lambda tier: [f(tier, n) for n, f in enumerate(MODELS[pid])]
    PROFILES[pid] = dict(jobs=jobs, **kw)


prop("P01", std([4, 6, 7, 8, 16, (15, [FA, "-DVP_INV"]), (5, [NC, "-DVP_INV"])], ops(), big=20, quick=(80, 60), thorough_cfgs=ALLC + VARIANTS, fault=10, fmask=FAULTS))
prop("P02", std([1, 3, 8, 15, 17], ops(ins=40, insr=8, nhi=8, ext=6, look=0, rng=0, rnk=0, pos=0),
                big=20, quick=(90, 60), thorough_cfgs=ALLC, ka=6, kb=5))
prop("P03", std([1, 5, 6, 7, 14, (13, [FA])], ops(ins=45, insr=8, modi=8, look=0, rnk=0, pos=0, bkt=0, hpol=0, rpol=0),
                quick=(80, 70), thorough_cfgs=[1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 13, 14, 15, 17], maxn=12, ka=8, kb=3, big=8))
prop("P04", std([5, 6, 7, 10, 14, 18], ops(ins=20, insr=5, look=40, rng=25), quick=(50, 80),
                thorough_cfgs=[1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 13, 14, 17, 18], maxn=10, big=10))
prop("P05", std([5, 7, 8, 11, 18], ops(ins=30, insr=5, rnk=20, look=25, rng=15, era=8), quick=(50, 80),
                thorough_cfgs=[3, 5, 6, 7, 8, 11, 13, 14, 17, 18], maxn=14, big=3))
prop("P06", std([3, (4, [H(4)]), (7, [H(1)]), (9, [H(2)]), (15, [H(3), FA]), 18],
                ops(ins=35, insr=6, look=30, modi=10, repl=5, hpol=3), quick=(60, 80),
                thorough_cfgs=[(c, [H(h)]) for c in (2, 3, 4, 7, 9, 13, 15, 18) for h in range(5)], maxn=12, big=10))
prop("P07", std([3, (4, [H(1)]), (7, [H(2)]), (9, [H(3)]), 15], ops(ins=30, insr=12, hpol=15, bkt=15, clr=3, cpy=9),
                quick=(60, 80), thorough_cfgs=[(c, [H(h)]) for c in (2, 3, 4, 7, 9, 13, 15) for h in range(5)],
                maxn=70, ka=100))
prop("P08", std([1, 2, 6, 9, 12],
                ops(ins=30, insr=10, sort=6, rev=4, rel1=6, relr=6, rear=6, smg=6, mrg=10, rem=4, unq=4),
                big=12, quick=(80, 60), thorough_cfgs=[1, 2, 6, 8, 9, 11, 12, 14, 16, 17],
                fault=8, fmask=FAULTS))
prop("P09", std([3, 4, 5, 6, 12, (16, [FA])],
                ops(ins=30, insr=10, sort=6, rev=4, rel1=6, relr=6, rear=6, smg=6, mrg=10, rem=4, unq=4, pos=8, rpol=6),
                quick=(80, 60), thorough_cfgs=[3, 4, 5, 6, 12, 16], big=10))
prop("P10", std([1, 3, 4, 5, 7, 15], ops(repl=40, modi=40, insr=5), quick=(130, 60), thorough_cfgs=ALLC, ka=6, big=10,
                # groups of equal elements that share a bucket with other groups
                more=[std([3, 9], {k: 0 for k in ops()} | dict(ins=45, insr=10, modi=45, repl=25, era=6), quick=(70, 60), maxn=11, ka=6, kb=4,
                          kc=4, hash=2, vary=0)]))
prop("P11", std([1, 4, 6, 7, 12], ops(era=15, errg=8, erk=8, clr=1, rem=8, unq=8, insr=10), big=15, quick=(90, 60),
                thorough_cfgs=ALLC))
prop("P12", std([1, 4, 7, 15, 17], ops(modi=60, repl=5, ins=30), big=20, quick=(60, 60), thorough_cfgs=ALLC,
                fault=50, fmask=FAULTS, ka=6))
prop("P13", std([2, 4, 5, 7, 16, (8, [FA])], ops(look=1, sort=3, smg=3, hpol=3, insr=5), quick=(50, 50), thorough_cfgs=ALLC, fault=70, fmask=FAULTS, bump=1,
                # rehashing of groups interrupted by the hash function
                more=[std([3, (9, [H(1)])], {k: 0 for k in ops()} | dict(ins=40, insr=15, hpol=25, era=8, modi=8, clr=1), quick=(40, 60),
                          maxn=14, ka=5, kb=3, kc=3, fault=50, fmask=FAULTS)]))
prop("P14", std([2, (4, [A(7)]), (5, [A(3)]), 10, 14], ops(ext=18, extk=8, nhi=20, nhm=4, nhx=14, look=0, rng=0), big=20, quick=(90, 60),
                thorough_cfgs=ALLC + [(4, [A(3)]), (5, [A(7)])], bump=1))
prop("P15", std([2, 4, 6, 12, 16], ops(mrg=45, smg=10, insr=8, look=0, rng=0), big=15, quick=(80, 60),
                thorough_cfgs=ALLC + [(4, [A(3)]), (6, [A(7)])], bump=1, fault=10, fmask=FAULTS))
prop("P16", std([(3, [A(0)]), (4, [A(3)]), (7, [A(15)]), (16, [A(9)]), 6], ops(cpy=40, insr=8, hpol=8, look=0, rng=0),
                big=15, quick=(80, 50), thorough_cfgs=[(c, [A(a)]) for c in ALLC for a in (0, 1, 3, 7)][::3], bump=1))
prop("P17", std([2, 4, 5, 6, 14], ops(take=20, drop=1, cpy=4, mrg=8, insr=6, sort=3, rear=3, modi=10, ext=1, extk=1),
                big=20, quick=(80, 60), thorough_cfgs=ALLC))
prop("P18", std([(3, [A(8)]), (4, [A(7)]), (6, [A(11), FA]), (15, [A(1)]), 5], ops(cpy=15, ext=6, nhi=8, nhx=5, mrg=8),
                big=20, quick=(60, 60), thorough_cfgs=[(c, [A(a)]) for c in ALLC for a in (0, 1, 3, 7)][1::3],
                bump=1, fault=30, fmask=FAULTS))
prop("P22", std([1, 4, 6, 9, 12], ops(cmpc=40, cpy=12, insr=8, sort=3, rear=3), big=12, quick=(70, 60), thorough_cfgs=ALLC,
                ka=3, kb=2, kc=2, maxn=5))
def key_jobs(tier, seed):
    f = std([5, 7, 13, 14], ops(look=40, ins=30, insr=5, modi=10, repl=5), quick=(70, 70),
            thorough_cfgs=[4, 5, 7, 8, 13, 14], ka=4, kb=3, kc=3, maxn=10)
    out = f(tier, seed)
    for part in (1, 2, 4):
        for k in range(2 if tier == "quick" else 12):
            n = {1: 4000, 2: 1, 4: 1500}[part]
            out.append(dict(src="keys.cpp", flags=[f"-DVP_PART={part}"], args=[f"seed={seed * 100 + k}", f"n={n}"], spec="Keys"))
    return out


prop("P21", key_jobs)


def ser_jobs(cfgs):
    mix = ops(ser=40, cpy=2, sort=4, rear=6, rel1=4)
    f = std(cfgs, mix, quick=(60, 50), flags=["-DVP_SER"], big=20, thorough_cfgs=ALLC, maxn=10,
            # values with a class version and construction data
            more=[std([8, 12], mix, quick=(60, 50), flags=["-DVP_SER=2"], thorough_cfgs=ALLC, maxn=10)])

    def jobs(tier, seed):
        return [dict(j, libs=["-lboost_serialization"]) for j in f(tier, seed)]
    return jobs


prop("P19", ser_jobs([4, 6, 9, 11, 14]))

SAFE = ops(mis=130, take=50, drop=0, modi=45, cpy=10, ext=8, nhi=8, mrg=8, clr=2, look=1, rng=1, insr=6)
# modifications that lose elements iterators refer to
SAFEM = ops(mis=10, take=90, drop=0, modi=110, ins=70, repl=5, look=0, rng=0, cpy=3)
prop("P20", std([1, 3, 4, 6, 12], SAFE, quick=(60, 70), flags=["-DVP_SAFE"], thorough_cfgs=ALLC, bump=1, fault=8, fmask=FAULTS,
                more=[std([4, 1, 14, 16], SAFEM, quick=(60, 80), flags=["-DVP_SAFE"], thorough_cfgs=ALLC, ka=5, kb=4, kc=4, bump=1,
                          fault=15, fmask=FAULTS)]))


def cost_jobs(tier, seed):
    f = std([1, 4, 6, 7, 12], ops(), quick=(40, 60), flags=["-DVP_INV"], thorough_cfgs=ALLC, big=12, maxn=14,
            # trees that grow and shrink, with the library's invariants (balance among them) checked
            more=[std([10], {k: 0 for k in ops()} | dict(ins=30, era=40, modi=10, insr=6), quick=(60, 100), flags=["-DVP_INV"],
                      big=2, maxn=20, ka=60)])
    out = f(tier, seed)
    runs = [("", 600, 8), ("-DVP_FANCY", 4000, 50)]
    if tier != "quick":
        runs += [("", 600, 1), ("", 5000, 30), ("", 60000, 300), ("-DVP_FANCY", 800, 8), ("-DVP_FANCY", 60000, 300)]
    for k in range(1 if tier == "quick" else 4):
        for fl, n, sm in runs:
            out.append(dict(src="cost.cpp", flags=[fl] if fl else [], args=[f"seed={seed * 100 + k}", f"n={n}", f"sample={sm}"],
                            spec="Cost"))
    return out


prop("P23", cost_jobs)
