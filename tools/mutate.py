#!/usr/bin/env python3
"""tools/mutate.py FILE [NAME...]: try mutants of the library against the checks.
FILE holds lines  name | property[,property] | file | line | old | new  (old is
searched on that line; old '@del' removes the line).  Each mutant is applied to
a scratch clone of /repo; the property's quick check runs first, and the
existing tests (one configuration) for the mutants no check reports."""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkseed
ROOT = mkseed.ROOT


def main():
    want = set(sys.argv[2:])
    for row in open(sys.argv[1]):
        row = row.rstrip("\n")
        if not row.strip() or row.startswith("#"):
            continue
        name, props, f, line, old, new = [x.strip() for x in row.split(" | ")][:6] if row.count(" | ") >= 5 else \
            [x.strip() for x in row.split(" | ")] + [""] * (5 - row.count(" | "))
        if want and name not in want:
            continue
        work = tempfile.mkdtemp(prefix="mut")
        repo = work + "/repo"
        try:
            mkseed.sh(["git", "clone", "-q", "/repo", repo])
            p = os.path.join(repo, "include/boost", f)
            ls = open(p).read().split("\n")
            n = int(line) - 1
            if old == "@del":
                ls[n] = ""
            elif old not in ls[n]:
                print(f"{name}: no {old!r} in {ls[n]!r}", flush=True)
                continue
            else:
                ls[n] = ls[n].replace(old, new, 1)
            open(p, "w").write("\n".join(ls))
            if os.environ.get("VP_TESTS"):          # only: do the existing tests notice?
                t = mkseed.tests(repo, work)
                print(f"{name} {props}: tests " + (str(t)[:60] if t else "PASS"), flush=True)
                continue
            res = []
            hit = False
            for pr in props.split(","):
                r = subprocess.run([sys.executable, ROOT + "/checks/run.py", pr], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   text=True, env=dict(os.environ, VP_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
                res.append(f"{pr}={r.returncode}")
                hit = hit or r.returncode == 1
                if r.returncode == 2:
                    res.append(r.stdout.strip().split("\n")[-1][:150] if "error" not in r.stdout else
                               r.stdout[r.stdout.index("error"):][:150])
                if r.returncode == 0:
                    t = r.stdout.strip().split("\n")[-1]
                    res.append(t[t.rfind("kinds of") - 3:])
            msg = "caught" if hit else "MISSED"
            if not hit:
                t = mkseed.tests(repo, work)
                msg += " (tests: " + (str(t)[:120] if t else "pass") + ")"
            print(f"{name}: {msg} {' '.join(res)}", flush=True)
        finally:
            shutil.rmtree(work)


if __name__ == "__main__":
    main()
