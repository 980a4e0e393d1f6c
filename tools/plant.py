#!/usr/bin/env python3
"""plant.py ID...: tries planted bugs (seeded/ID) in scratch copies of /repo: does the patch apply, build and pass the
tests, does the demonstration tell the trees apart, and does the property's check report it?  --no-check skips the last."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", CGO_ENABLED="1")


def sh(cmd, cwd, env=ENV):
    r = subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    for i in args or sorted(os.listdir(ROOT + "/seeded")):
        d = ROOT + "/seeded/" + i
        meta = json.load(open(d + "/meta.json"))
        t = tempfile.mkdtemp(prefix="plant-")
        repo, demo = t + "/repo", t + "/demo"
        shutil.copytree("/repo", repo)
        shutil.copytree(d, demo)
        try:
            c, o = sh("bash %s/demo.sh" % demo, repo)
            if c:
                print(i, "DEMO FAILS ON THE CLEAN TREE", o[-1500:]); continue
            c, o = sh("git apply %s/patch.diff && go build ./..." % d, repo)
            if c:
                print(i, "PATCH OR BUILD FAILS", o[-1500:]); continue
            c, o = sh("go test -vet=off -count=1 ./... 2>&1 | grep -v '^ok\\|no test files'", repo)
            if o.strip():
                print(i, "TESTS FAIL", o[-1500:]); continue
            c, o = sh("bash %s/demo.sh" % demo, repo)
            if not c:
                print(i, "DEMO PASSES ON THE CHANGED TREE"); continue
            if "--no-check" in sys.argv:
                print(i, meta["property"], "plants"); continue
            for p in [meta["property"]] + [a[8:] for a in sys.argv if a.startswith("--check=")]:
                c, o = sh("python3 %s/check.py %s" % (ROOT, p), ROOT, dict(ENV, VERIF_REPO=repo, VERIF_TAG="-" + i))
                v = "VIOLATION property=" + p in o
                print(i, p, {0: "MISSED", 1: "caught" if v else "???"}.get(c, "BROKEN " + o[-600:]), [x[:300] for x in o.splitlines() if x.startswith("rejected")][:1])
                shutil.rmtree("%s/.build/run/%s-quick-%s" % (ROOT, p, i), ignore_errors=True)
                for f in os.listdir(ROOT + "/replay"):
                    if f.startswith("%s-%s-" % (p, i)):
                        os.remove(ROOT + "/replay/" + f)
                if os.path.exists("%s/evidence/%s-%s.json" % (ROOT, p, i)):
                    os.remove("%s/evidence/%s-%s.json" % (ROOT, p, i))
            sys.stdout.flush()
        finally:
            shutil.rmtree(t)


main()
