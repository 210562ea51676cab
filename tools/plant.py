#!/usr/bin/env python3
"""Plants bugs in a scratch worktree and tries checks on them.

usage: plant.py make SPECFILE [ID...]    builds seeded/ID from its spec, confirmed
       plant.py check ID [PROP...]       runs checks against the planted bug
       plant.py checkall [ID...]         every bug against its own property's check
A spec file defines BUGS, a list of dict(id, prop, needs, breaks, libs, edits=[(file, old, new)], demo, flags).
Works in /tmp/plant (removed by plant.py clean).
"""
import importlib.util, json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "/tmp/plant"
R = P + "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def fresh():
    os.makedirs(P, exist_ok=True)
    if not os.path.isdir(R):
        sh("cp -a /repo %s" % R)
    r = sh("cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % R,
           env=dict(os.environ, GIT_LFS_SKIP_SMUDGE="1"))
    if r.returncode:
        sys.exit(r.stdout)


def upstream_tests():
    env = dict(os.environ, VERIF_REPO=R)
    sh("python3 %s/tools/gen_ninja.py %s/ut plain tests" % (VERIF, P), env=env)
    n = sh("ninja -k 0 -C %s/ut -j8" % P)
    bad = [l for l in n.stdout.split("\n") if l.startswith("FAILED") and "sha256_hash_family_test" not in l and "proto_validator_test" not in l]
    fails = []
    for t in sorted(os.listdir(P + "/ut/bin")):
        r = sh("timeout 600 %s/ut/bin/%s" % (P, t), cwd=R)
        if r.returncode:
            fails += [l for l in r.stdout.split("\n") if "FAILED  ]" in l and "ms)" in l] or [t]
    return bad, fails


def make(spec, ids):
    s = importlib.util.spec_from_file_location("spec", spec)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    for b in m.BUGS:
        if ids and b["id"] not in ids:
            continue
        fresh()
        d = "%s/seeded/%s" % (VERIF, b["id"])
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(VERIF + "/tools/demo_kit", d)
        open(d + "/demo.cc", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write("#!/bin/bash\nLIBS=%s\nFLAGS='%s'\n. \"$(dirname \"$0\")/kit.sh\"\n" % (b["libs"], b.get("flags", "-O1")))
        os.chmod(d + "/demo.sh", 0o755)
        clean = sh("bash %s/demo.sh" % d, cwd=R)
        ok = True
        for f, old, new in b["edits"]:
            t = open(R + "/" + f).read()
            if t.count(old) != 1:
                print(b["id"], "EDIT matches", t.count(old), "times in", f, ":", old[:60])
                ok = False
                break
            open(R + "/" + f, "w").write(t.replace(old, new))
        if not ok:
            shutil.rmtree(d)
            continue
        diff = sh("git -C %s diff" % R).stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        bug = sh("bash %s/demo.sh" % d, cwd=R)
        bad, fails = upstream_tests()
        good = clean.returncode == 0 and bug.returncode not in (0, 2) and not bad
        print("%s: demo clean=%d bug=%d%s %s" % (b["id"], clean.returncode, bug.returncode,
              " upstream build failures %s" % bad if bad else "", "upstream tests failing: %d %s" % (len(fails), [f[13:80] for f in fails[:4]]) if fails else "all upstream tests pass"))
        if clean.returncode:
            print(clean.stdout[-1500:])
        if bug.returncode in (0, 2):
            print(bug.stdout[-1500:])
        if not good:
            shutil.rmtree(d)
        fresh()
        sys.stdout.flush()


def check(i, props):
    fresh()
    d = "%s/seeded/%s" % (VERIF, i)
    a = sh("git -C %s apply %s/patch.diff" % (R, d))
    if a.returncode:
        print(i, "does not apply", a.stdout)
        return
    props = props or [json.load(open(d + "/meta.json"))["property"]]
    for p in props:
        env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=P + "/build", VERIF_SEED="1", VERIF_TIER="quick")
        r = sh("python3 %s/tools/check.py %s" % (VERIF, p), env=env)
        v = [l for l in r.stdout.split("\n") if l.startswith("  ")][:2]
        print("%s %s: exit %d %s" % (i, p, r.returncode, (" ".join(x.strip() for x in v))[:200] if r.returncode == 1 else r.stdout[-300:] if r.returncode else "MISSED"))
        sys.stdout.flush()
    fresh()


if sys.argv[1] == "make":
    make(sys.argv[2], sys.argv[3:])
elif sys.argv[1] == "check":
    check(sys.argv[2], sys.argv[3:])
elif sys.argv[1] == "checkall":
    for i in sys.argv[2:] or sorted(os.listdir(VERIF + "/seeded")):
        check(i, [])
elif sys.argv[1] == "clean":
    shutil.rmtree(P, ignore_errors=True)
