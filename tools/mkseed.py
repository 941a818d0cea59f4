#!/usr/bin/env python3
"""tools/mkseed.py NAME...: build planted bugs from /tmp/seeds/NAME.py
(variables: property, needs, breaks, edits=[(file, old, new)], demo[, demo_flags]).
Works in a scratch copy; confirms the stable tests (one configuration) and the
demonstration, then writes /verif/seeded/NAME."""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(repo, out):
    groups = []
    for m in sorted(glob.glob(repo + "/test/test_*_main.cpp")):
        n = os.path.basename(m)[:-9]
        if n == "test_all":
            continue
        srcs = [s for s in glob.glob(repo + "/test/*.cpp") if re.fullmatch(n + r"[0-9]*\.cpp", os.path.basename(s))]
        groups.append((n, srcs + [m]))

    def one(g):
        n, srcs = g
        exe = os.path.join(out, n)
        r = sh(["g++", "-std=c++17", "-g0", "-w", f"-I{repo}/include", "-isystem", "/opt/vp/cmake/guard"] + srcs +
               ["-o", exe, "-lboost_serialization"])
        if r.returncode:
            return n, "compile: " + r.stdout[-500:]
        try:
            r = sh([exe], timeout=120)
        except subprocess.TimeoutExpired:
            return n, "timeout"
        return n, None if r.returncode == 0 else "failed: " + r.stdout[-300:]
    with cf.ThreadPoolExecutor(int(os.environ.get("VP_JOBS", "8"))) as ex:
        return [(n, e) for n, e in ex.map(one, groups) if e]


def main():
    for name in sys.argv[1:]:
        g = {}
        exec(open(f"/tmp/seeds/{name}.py").read(), g)
        work = tempfile.mkdtemp(prefix="seed")
        repo = work + "/repo"
        try:
            sh(["git", "clone", "-q", "/repo", repo])
            ok = True
            for f, old, new in g["edits"]:
                p = os.path.join(repo, "include/boost", f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(f"{name}: {s.count(old)} matches in {f}: {old[:60]!r}")
                    ok = False
                    break
                open(p, "w").write(s.replace(old, new))
            if not ok:
                continue
            d = os.path.join(work, "seed")
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(sh(["git", "diff"], cwd=repo).stdout)
            open(d + "/demo.cpp", "w").write(g["demo"])
            fl = g.get("demo_flags", "")
            open(d + "/demo.sh", "w").write(
                '#!/bin/bash\nset -e\nw=$(mktemp -d)\ntrap \'rm -rf "$w"\' EXIT\n'
                f'g++ -std=c++17 -w -Iinclude {fl} "$(dirname "$0")/demo.cpp" -o "$w/demo"'
                f' {g.get("demo_libs", "")}\nulimit -t 100\n"$w/demo"\n')
            json.dump({"property": g["property"], "needs": g["needs"], "what_it_breaks": g["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
            a = sh(["bash", d + "/demo.sh"], cwd="/repo")
            b = sh(["bash", d + "/demo.sh"], cwd=repo)
            if a.returncode or not b.returncode:
                print(f"{name}: demo clean={a.returncode} patched={b.returncode}\n{a.stdout[-1500:]}\n{b.stdout[-500:]}")
                continue
            if "error:" in b.stdout:
                print(f"{name}: demo does not compile with the patch\n{b.stdout[-800:]}")
                continue
            t = tests(repo, work)
            if t:
                print(f"{name}: caught by existing tests: {str(t)[:600]}")
                continue
            dst = os.path.join(ROOT, "seeded", name)
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
            print(f"{name}: planted ({g['property']}); patched demo said: {b.stdout.strip()[-150:]}")
        finally:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
