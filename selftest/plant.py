#!/usr/bin/env python3
"""Plant a bug: build /verif/seeded/<id>/ from an entry of plants.py and confirm it.

usage: plant.py [-n] ID...      (-n: do not confirm)
Applies the change to /repo, builds, runs the stable tests, runs the demo (must fail), runs the
property's check (reported), undoes the change, and runs the demo again (must pass).
"""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
sys.path.insert(0, HERE)


def sh(cmd, t=900, **kw):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **kw)
    return p.returncode, p.stdout


def clean():
    return sh("git -C /repo status --porcelain")[1].strip() == ""


def revert():
    sh("git -C /repo checkout -- .")


def main():
    import plants
    args = sys.argv[1:]
    conf = "-n" not in args
    args = [a for a in args if a != "-n"]
    P = {p["id"]: p for p in plants.PLANTS}
    base = json.load(open("/opt/vp/BASELINE.json"))
    for i in args:
        p = P[i]
        assert clean(), "/repo is not clean"
        d = os.path.join(VERIF, "seeded", i)
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in p["edits"]:
                q = os.path.join(REPO, f)
                s = open(q).read()
                assert s.count(old) == 1, "%s: %d occurrences of %r in %s" % (i, s.count(old), old[:60], f)
                open(q, "w").write(s.replace(old, new))
            open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff")[1])
            name = "jbkdemo-" + i
            open(os.path.join(d, "Cargo.toml"), "w").write('[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n[[bin]]\nname = "%s"\npath = "main.rs"\n[dependencies]\njbk = { package = "jubako", path = "/repo", features = ["all"] }\n%s[workspace]\n' % (name, name, p.get("deps", "")))
            lock = open(os.path.join(HERE, "demo", "Cargo.lock")).read()
            open(os.path.join(d, "Cargo.lock"), "w").write(lock)
            shutil.copy(os.path.join(HERE, "demo", "h.rs"), os.path.join(d, "h.rs"))
            open(os.path.join(d, "main.rs"), "w").write("mod h;\nuse h::*;\n" + p["main"].lstrip("\n"))
            open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# exit 0 when the property holds on this input, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd /repo
exec timeout 280 cargo run -q --offline --manifest-path "$here/Cargo.toml"
""")
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            if not conf:
                continue
            rc, out = sh("bash /opt/vp/build.sh")
            if rc:
                print(i, "DOES NOT BUILD\n" + "\n".join(l for l in out.splitlines() if "error" in l or "-->" in l)[:1500])
                continue
            sh("bash /opt/vp/test.sh /tmp/plant.json")
            r = json.load(open("/tmp/plant.json"))
            passed = set(r.get("passed", []))
            want = set(base["stable"])
            miss = want - passed
            rc1, o1 = sh("RUST_BACKTRACE=0 bash %s/demo.sh" % d)
            rc2, o2 = sh("VERIF_TIER=quick JBK_EVIDENCE=/tmp/plant-ev bash %s/check.sh %s" % (VERIF, p["property"])) if os.path.exists(VERIF + "/jbk/rules/%s.py" % p["property"].lower()) else (9, "")
        finally:
            revert()
        rc3, o3 = sh("RUST_BACKTRACE=0 bash %s/demo.sh" % d)
        ok = not miss and rc1 != 0 and rc3 == 0
        print("%s %-28s tests-missing=%d demo: patched=%d unpatched=%d  check=%s" % ("ok " if ok else "BAD", i, len(miss), rc1, rc3, {0: "missed", 1: "CAUGHT", 9: "none"}.get(rc2, "exit %d" % rc2)))
        if not ok:
            print("   patched:", o1[-600:])
            print("   unpatched:", o3[-900:])
            print("   missing:", sorted(miss)[:3])
        else:
            print("    ", [l for l in o1.splitlines() if l.strip() and "RUST_BACKTRACE" not in l][-2:], )
            print("    ", [l[:200] for l in o2.splitlines() if "[" in l][:1])
        if shutil.os.path.exists(os.path.join(d, "Cargo.lock")):
            # keep the lock cargo settled on, so that later runs do not rewrite it
            pass


main()
