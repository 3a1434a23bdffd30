#!/usr/bin/env python3
"""Writes seeded/<id>/ from the entries of the files tools/seeds*.py and tries them.

   mkseeds.py [ID...]          write patch.diff, demo.sh, demo_test.go, meta.json
   mkseeds.py -t [ID...]       also try them in a scratch copy (build, tests, demo, check)
"""
import sys, os, json, subprocess, shutil, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []

def bug(id, prop, edits, pkg, test, needs, breaks, race=False, files=None, overlay=None, checks=None, args=""):
    BUGS.append(dict(id=id, prop=prop, edits=edits, pkg=pkg, test=test, needs=needs, breaks=breaks,
                     race=race, files=files or {}, overlay=overlay or {}, checks=checks, args=args))

for f in sorted(glob.glob(V + "/tools/seeds*.py")):
    exec(open(f).read())

DEMO = '''#!/bin/bash
# exit 0 when the property holds in the tree at the working directory
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export TMPDIR="$T"
cat > "$T/overlay.json" <<E
{"Replace": {%s}}
E
go test -count=1 -vet=off%s -overlay "$T/overlay.json" -run 'TestDemo' %s %s
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def write(b):
    d = V + "/seeded/" + b["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = "/tmp/mkseed"
    shutil.rmtree(w, ignore_errors=True)
    sh("cp -a /repo " + w)
    for f, old, new in b["edits"]:
        s = open(w + "/" + f).read()
        assert s.count(old) == 1, (b["id"], f, old, s.count(old))
        open(w + "/" + f, "w").write(s.replace(old, new))
    sh("gofmt -l . ", cwd=w)
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=w).stdout)
    pk = b["pkg"]
    rep = ['"$PWD/%szz_demo_test.go": "$D/demo_test.go"' % ("" if pk == "." else pk[2:] + "/")]
    for k, v in b["overlay"].items():
        rep.append('"$PWD/%s": "$D/%s"' % (k, v))
    for k, v in b["files"].items():
        open(d + "/" + k, "w").write(v)
    open(d + "/demo_test.go", "w").write(b["test"].lstrip())
    open(d + "/demo.sh", "w").write(DEMO % (", ".join(rep), " -race" if b["race"] else "", b["args"], pk))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    return w, d

def try_(b, w, d):
    r = {}
    env = ". /opt/vp/env.sh; "
    p = sh(env + "go build ./... && go vet ./... 2>&1 | tail -0", cwd=w)
    r["build"] = p.returncode == 0
    if not r["build"]:
        print(p.stdout[-800:])
    # the stable tests
    def passed(dirn):
        p = sh(env + "go test -count=1 -json ./... 2>/dev/null", cwd=dirn, executable="/bin/bash")
        ok = set()
        for l in p.stdout.splitlines():
            try: j = json.loads(l)
            except Exception: continue
            if j.get("Action") == "pass" and j.get("Test"):
                ok.add(j["Package"] + "/" + j["Test"])
        return ok
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    miss = stable - passed(w)
    r["tests"] = sorted(miss)
    p = sh("bash %s/demo.sh" % d, cwd="/repo")
    r["demo0"] = p.returncode
    if p.returncode: print("DEMO ON CLEAN:", p.stdout[-1500:])
    p = sh("bash %s/demo.sh" % d, cwd=w)
    r["demo1"] = p.returncode
    r["fail"] = [l.strip() for l in p.stdout.splitlines() if "demo_test.go" in l or "DATA RACE" in l][:1]
    if r["demo1"] and not r["fail"]: r["fail"] = p.stdout[-300:]
    os.makedirs("/tmp/mv/evidence", exist_ok=True)
    shutil.copy(V + "/known-findings.txt", "/tmp/mv/")
    allp = b["checks"] or b["prop"]
    p = sh(env + V + "/bin/vsa -repo %s -verif /tmp/mv -property %s" % (w, allp), cwd=V)
    r["viol"] = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")][:2]
    good = r["build"] and not miss and r["demo0"] == 0 and r["demo1"] != 0
    print(b["id"], b["prop"], "COUNTS" if good else "BAD", "CAUGHT" if r["viol"] else "MISSED")
    if not good or not r["viol"]:
        print("   ", r, p.stdout[-300:] if not r["viol"] else "")
    return good, bool(r["viol"])

args = sys.argv[1:]
t = "-t" in args
args = [a for a in args if a != "-t"]
n = c = k = 0
for b in BUGS:
    if args and not any(re.fullmatch(a, b["id"]) or a == b["prop"] for a in args):
        continue
    w, d = write(b)
    n += 1
    if t:
        g, v = try_(b, w, d)
        c += g
        k += g and v
    shutil.rmtree(w, ignore_errors=True)
print(n, "written;", c, "count,", k, "caught" if t else "")
