"""Bounded models: TLC explores MIModel for given constants, checks its
properties, and the transitions it took become scripts for the driver: walks
that together cover every transition of the state graph (or, beyond the
budget, as many as it allows)."""
import collections, json, os, random, re, subprocess, tempfile, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INV = ["P01_Agree", "P02_Unique", "P03_Sorted", "P04_Bounds", "P05_Ranks", "P06_Grouped", "P06_Find", "P21_Prefix",
       "P22_Compare"]
PROPS = ["P02_Insert", "P02_Range", "P11_Erase", "P14_Node", "P10_Modify", "P12_Rollback", "P15_Merge", "P08_Lists", "P16_Copies",
         "P17_Stable", "P04_Pure"]


def tla(x):
    if isinstance(x, str):
        return '"' + x + '"'
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(map(tla, x)) + ">>"
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(map(tla, sorted(x, key=str))) + "}"
    if isinstance(x, dict):
        return "[" + ", ".join(f"{k} |-> {tla(v)}" for k, v in x.items()) + "]"
    return str(x)


def parse_ixs(cfg):
    """the index descriptors of a configuration, read from the driver's source"""
    src = open(os.path.join(ROOT, "harness", "cfg.hpp")).read()
    m = re.search(r"C\(%d,\((.*?)\),\((.*?)\)\)\s*\\?\n" % cfg, src)

    def one(s):
        out = []
        for k, args in re.findall(r"\b(OU|ON|RU|RN|HU|HN|SQ|RA)\b(?:<((?:P<[^>]*>,?)*)>)?", s):
            ps = []
            for p in re.findall(r"P<([^>]*)>", args or ""):
                v = [int(z) for z in p.split(",")]
                v += [1, 1, 1][len(v) - 1:] if len(v) < 3 else []
                ps.append(v[:3])
            out.append({"k": k.lower(), "p": ps})
        return out
    return one(m.group(1)), one(m.group(2))


def check_and_generate(work, m, jar, seed, tier):
    d = tempfile.mkdtemp(prefix="mod", dir=work)
    try:
        i1, i2 = parse_ixs(m["cfg"])
        cs = m.get("cs", [1, 2])
        ixs = [i1, i1 if cs[1] == 2 else i2]
        with open(os.path.join(d, "M.tla"), "w") as f:
            f.write("---- MODULE M ----\nEXTENDS MIModel\n"
                    f"cIxs == {tla(ixs)}\ncCs == {tla(cs)}\ncVals == {tla(set(map(tuple, m['vals'])))}\n"
                    f"cOps == {tla(set(m['ops']))}\ncThrough == {tla(set(m.get('through', range(1, len(i1) + 1))))}\n"
                    f"cBs == {tla(set(m.get('bs', (1, 2))))}\n====\n")
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write("SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nACTION_CONSTRAINT Emit\n"
                    "CONSTANTS\n Ixs <- cIxs\n Cs <- cCs\n Vals3 <- cVals\n Ops <- cOps\n Through <- cThrough\n Bs <- cBs\n"
                    f" MaxN = {m['maxn']}\n"
                    "INVARIANTS " + " ".join(INV) + "\nPROPERTIES " + " ".join(PROPS) + "\n")
        out = os.path.join(d, "out.txt")
        with open(out, "w") as f:
            r = subprocess.run(["java", "-XX:+UseSerialGC", "-Xss16m", "-Xmx4g", f"-Djava.io.tmpdir={d}",
                                f"-DTLA-Library={os.path.join(ROOT, 'spec')}", "-cp", jar, "tlc2.TLC",
                                "-workers", "1", "-metadir", os.path.join(d, "m"), "-noGenerateSpecTE",
                                "-config", os.path.join(d, "M.cfg"), os.path.join(d, "M.tla")],
                               stdout=f, stderr=subprocess.STDOUT, cwd=d, timeout=m.get("timeout", 700))
        edges, tail, states, gen = [], collections.deque(maxlen=40), 0, 0
        ids = {}
        for ln in open(out):
            if ln.startswith('"EDGE '):
                a, c, b = ln[6:-2].replace('\\"', '"').split("|")
                edges.append((ids.setdefault(a, len(ids)), json.loads(c), ids.setdefault(b, len(ids))))
            else:
                tail.append(ln)
                z = re.search(r"(\d+) states generated, (\d+) distinct", ln)
                if z:
                    gen, states = int(z.group(1)), int(z.group(2))
        res = {"name": m["name"], "states": states, "transitions": gen,
               "constants": {k: m[k] for k in ("cfg", "maxn", "vals")} | {"ops": sorted(m["ops"]), "containers": cs}}
        if "Model checking completed. No error has been found." not in "".join(tail):
            res["error"] = "".join(tail)[-1500:]
            return res
        w = Walker(edges, m.get("events", 2500), random.Random(seed), m.get("take", 0), m.get("faults", 0))
        res.update(scripts=w.scripts(), edges=w.total, edges_replayed=w.covered, commands=w.n,
                   interrupted=w.faulty)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


STRONG = {1, 13, 9, 24, 28, 30, 12}


def vary(cmd, rng):
    """equivalent ways of the same command: overloads, ways to get iterators"""
    c = list(cmd)
    if c[0] == 1:
        c[8] += rng.randrange(3)
    elif c[0] == 2:
        c[8] = rng.randrange(3)
    elif c[0] == 9:
        c[8] = rng.randrange(2)
    elif c[0] in (24, 25):
        c[8] = rng.randrange(16)
        c[9] = rng.randrange(36)
    elif c[0] == 32:
        c[8] = rng.randrange(3)
    elif c[0] == 10:
        c[9] = rng.randrange(2)
    if c[0] in (1, 3, 4, 9, 10, 11, 13, 16, 20, 21):
        c[8] += 16 * rng.randrange(8)
    return " ".join(map(str, c))


class Walker:
    """covers the edges of the graph by walks from the initial state"""
    def __init__(self, edges, budget, rng, take=0, faults=0, maxlen=90):
        self.rng, self.budget, self.take, self.maxlen = rng, budget, take, maxlen
        self.out = collections.defaultdict(list)
        seen = set()
        for a, c, b in edges:
            if (a, tuple(c)) not in seen:
                seen.add((a, tuple(c)))
                self.out[a].append((c, b))
        for a in self.out:
            rng.shuffle(self.out[a])
        self.todo = {a: list(x) for a, x in self.out.items()}
        self.total = sum(map(len, self.out.values()))
        self.start = edges[0][0] if edges else 0
        self.lines, self.n, self.covered, self.faulty = [], 0, 0, 0
        # shortest paths from the initial state
        self.prev, q = {self.start: None}, collections.deque([self.start])
        while q:
            x = q.popleft()
            for c, b in self.out[x]:
                if b not in self.prev:
                    self.prev[b] = (x, c)
                    q.append(b)
        self.cover()
        if faults:
            self.faults(faults)

    def emit(self, cmd):
        self.lines.append(vary(cmd, self.rng))
        self.n += 1
        if self.take and self.rng.random() < self.take:
            # hold an iterator: nothing changes
            c = list(cmd[:10])
            c[0], c[4], c[8] = 33, self.rng.randrange(4), 16 * self.rng.randrange(2)
            self.lines.append(" ".join(map(str, c)) + " 0 0")
            self.n += 1

    def to(self, x):
        p = []
        while self.prev[x] is not None:
            y, c = self.prev[x]
            p.append(c)
            x = y
        return p[::-1]

    def near(self, a, depth):
        prev, q = {a: None}, collections.deque([(a, 0)])
        while q:
            x, d = q.popleft()
            if self.todo.get(x):
                p = []
                while prev[x] is not None:
                    y, c = prev[x]
                    p.append((c, x))
                    x = y
                return p[::-1]
            if d < depth:
                for c, b in self.out[x]:
                    if b not in prev:
                        prev[b] = (x, c)
                        q.append((b, d + 1))
        return None

    def cover(self):
        pending = [a for a in self.todo if self.todo[a]]
        self.rng.shuffle(pending)
        while self.n < self.budget:
            while pending and not self.todo[pending[-1]]:
                pending.pop()
            if not pending:
                break
            # towards some state with something left to do, then greedily
            self.lines.append("R")
            cur = pending[-1]
            p = self.to(cur)
            for c in p:
                self.emit(c)
            ln = len(p)
            while ln < self.maxlen and self.n < self.budget:
                if self.todo.get(cur):
                    c, b = self.todo[cur].pop()
                    self.covered += 1
                    self.emit(c)
                    cur = b
                    ln += 1
                    continue
                p = self.near(cur, 3)
                if p is None:
                    break
                for c, b in p:
                    self.emit(c)
                    cur = b
                    ln += 1

    def faults(self, budget):
        """transitions interrupted by an exception at some point: what follows
        is left open, so each ends its walk"""
        cand = [(a, c) for a in self.out for c, b in self.out[a] if c[0] not in STRONG and c[0] not in (33, 29, 27, 26)]
        self.rng.shuffle(cand)
        n = 0
        for a, c in cand:
            for k in range(1, 9):
                self.lines.append("R")
                p = self.to(a)
                for x in p:
                    self.emit(x)
                self.lines.append(f"F{k} " + vary(c, self.rng))
                n += len(p) + 2
                self.faulty += 1
                if n >= budget:
                    self.n += n
                    return
        self.n += n

    def scripts(self, size=1200):
        out, cur = [], []
        for x in self.lines:
            if x == "R" and len(cur) > size:
                out.append("\n".join(cur) + "\n")
                cur = []
            cur.append(x)
        if cur:
            out.append("\n".join(cur) + "\n")
        return out
