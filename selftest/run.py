"""Development self-test: apply small edits to a scratch copy of /repo and run the checks on it.

    python3 selftest/run.py [-p C16,C13] [-k name-substring] [-j N] [-b]

cases.py lists (name, kind, property, edits). kind "bug": the property's check must report; kind "ok": every
check must stay quiet. -b additionally builds the scratch copy and runs the stable tests. Nothing here is used by the checks.
"""
import argparse, importlib, io, contextlib, multiprocessing, os, re, shutil, subprocess, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
ROOT = "/tmp/jbkself"


def setup(i):
    d = "%s/%d" % (ROOT, i)
    if not os.path.exists(d + "/build/target-release"):
        os.makedirs(d, exist_ok=True)
        subprocess.check_call(["cp", "-a", VERIF + "/build", d + "/build"])
    shutil.rmtree(d + "/repo", ignore_errors=True)
    shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns("target", ".git"))
    return d


def apply(d, edits):
    for f, old, new in edits:
        p = os.path.join(d, "repo", f)
        s = open(p).read()
        if s.count(old) != 1:
            raise Exception("%s: %d matches for %r" % (f, s.count(old), old[:60]))
        open(p, "w").write(s.replace(old, new))


def one(job):
    i, case, props = job
    name, kind, prop, edits = case
    d = setup(i)
    try:
        if isinstance(edits, str):
            subprocess.check_call(["git", "apply", "--directory=", edits], cwd=d + "/repo") if False else subprocess.check_call("patch -s -p1 < %s" % edits, shell=True, cwd=d + "/repo")
        else:
            apply(d, edits)
    except Exception as e:
        return name, kind, prop, {"!": "EDIT %s" % e}
    out = {}
    code = ("import sys,io,contextlib,importlib;sys.setrecursionlimit(20000);sys.path.insert(0,%r)\n"
            "from jbk.rules import core\nimport traceback\n"
            "for p in %r:\n"
            "  m=importlib.import_module('jbk.rules.'+p.lower())\n"
            "  b=io.StringIO()\n"
            "  with contextlib.redirect_stdout(b), contextlib.redirect_stderr(b):\n"
            "    try: rc=core.run(p,m,'quick',1,m.LEVEL,m.FLOOR,m.TECHNIQUE)\n"
            "    except SystemExit as e: rc='exit %%s'%%e.code\n"
            "    except BaseException: rc='crash'; traceback.print_exc()\n"
            "  print('@@',p,rc); print(b.getvalue())\n" % (VERIF, props))
    env = dict(os.environ, JBK_REPO=d + "/repo", JBK_BUILD=d + "/build", JBK_EVIDENCE=d + "/evidence")
    p = subprocess.run([sys.executable, "-c", code], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    cur = None
    for l in p.stdout.splitlines():
        m = re.match(r"@@ (\S+) (.*)$", l)
        if m:
            cur = m.group(1)
            out[cur] = [m.group(2)]
        elif cur:
            out[cur].append(l)
        else:
            out.setdefault("!", []).append(l)
    return name, kind, prop, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-p", default="")
    ap.add_argument("-k", default="")
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-A", action="store_true", help="run every check on the refactorings")
    ap.add_argument("--seeded", action="store_true")
    a = ap.parse_args()
    import cases
    allp = sorted(f[:-3].upper() for f in os.listdir(VERIF + "/jbk/rules") if re.match(r"c\d+\.py$", f))
    cs = [c for c in cases.CASES if re.search(a.k, c[0])]
    if a.seeded:
        import json
        cs = []
        for s in sorted(os.listdir(VERIF + "/seeded")):
            mj = VERIF + "/seeded/" + s + "/meta.json"
            if os.path.exists(mj) and re.search(a.k, s):
                cs.append((s, "bug", json.load(open(mj))["property"], VERIF + "/seeded/" + s + "/patch.diff"))
    only = a.p.split(",") if a.p else None
    jobs = []
    for c in cs:
        if only and c[2] not in only:
            continue
        props = (allp if a.A else [c[2]]) if c[1] == "ok" else [c[2]]
        jobs.append((c, props))
    from concurrent.futures import ThreadPoolExecutor
    import queue
    slots = queue.Queue()
    for i in range(a.j):
        slots.put(i)

    def work(job):
        i = slots.get()
        try:
            return one((i,) + job)
        finally:
            slots.put(i)
    bad = 0
    with ThreadPoolExecutor(a.j) as ex:
        for name, kind, prop, out in ex.map(work, jobs):
            if "!" in out and len(out) == 1:
                print("ERROR", name, str(out["!"])[-1500:])
                bad += 1
                continue
            rcs = {p: v[0] for p, v in out.items() if p != "!"}
            if kind == "bug":
                good = rcs.get(prop) == "1"
                first = next((l for l in out.get(prop, []) if l.startswith("  [")), "")
                print("%s %-40s %s %s %s" % ("caught" if good else "MISSED", name, prop, rcs.get(prop), first[:150]))
            else:
                w = [p for p, r in rcs.items() if r != "0"]
                good = not w
                print("%s %-40s %s" % ("quiet" if good else "ALARM", name, " ".join(w)))
                for p in w:
                    print("\n".join("      " + l[:300] for l in out[p][1:8]))
            for p, v in out.items():
                for l in v:
                    if l.startswith("INCONCLUSIVE"):
                        print("      " + l[:260])
            if a.v and (not good or kind == "bug"):
                print("\n".join("      " + l[:300] for l in out.get(prop, [])[1:6]))
            bad += not good
            sys.stdout.flush()
    print("done,", bad, "unexpected")


main()
