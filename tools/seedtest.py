#!/usr/bin/env python3
"""seedtest.py [-n] ID...: confirms planted changes in a private mount namespace where a scratch copy stands at /repo.
   demo quiet on the unchanged tree; patch applies, builds, passes the stable tests; demo fails; then runs the property's
   check (committed /verif) against it.  -n: no stable tests; -c: check only; -d: demos only; -k P,Q: these checks too."""
import json, os, subprocess, sys, shutil, getopt
SCR, SV = "/tmp/seedrepo", "/tmp/seedverif"
opts, ids = getopt.getopt(sys.argv[1:], "ncdk:")
opts = dict(opts)
if os.environ.get("SEED_IN") != "1":
    if not os.path.isdir(SCR):
        subprocess.run(["cp", "-a", "/repo", SCR], check=True)
    h = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    subprocess.run("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s checkout -q %s" % (SCR, SCR, SCR, h), shell=True, check=True)
    os.makedirs(SV, exist_ok=True)
    subprocess.run("git -C /verif archive HEAD | tar x -C %s" % SV, shell=True, check=True)
    if not os.path.isdir(SV + "/build"):
        subprocess.run("cp -a /verif/build %s/build" % SV, shell=True)
    e = dict(os.environ, SEED_IN="1")
    sys.exit(subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo; exec python3 %s \"$@\"" % (
        SCR, os.path.abspath(__file__)), "x"] + sys.argv[1:], env=e).returncode)
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(c, t=900, cwd="/repo"):
    r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout


def demo(i):
    d = "/tmp/seeddemo-" + i
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/tmp/seeds/" + i, d, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh("bash %s/demo.sh" % d, 300)
    shutil.rmtree(d, ignore_errors=True)
    return r


shutil.rmtree("/tmp/seeds", ignore_errors=True)
shutil.copytree("/verif/seeded", "/tmp/seeds")
for i in ids or sorted(os.listdir("/tmp/seeds")):
    P = "/tmp/seeds/%s/patch.diff" % i
    out = [i]
    prop = json.load(open("/tmp/seeds/%s/meta.json" % i))["property"]
    sh("git checkout -q -- .")
    if "-c" not in opts:
        rc, o = demo(i)
        out.append("demo-clean=%d" % rc)
        if rc:
            print(o[-3000:])
    rc, o = sh("git apply " + P)
    if rc:
        print(i, "PATCH DOES NOT APPLY", o)
        continue
    if "-c" not in opts:
        rc, o = demo(i)
        out.append("demo-bug=%d" % rc)
        if not rc:
            print(o[-2000:])
    if not ({"-n", "-c", "-d"} & set(opts)):
        rc, o = sh("bash /opt/vp/build.sh")
        out.append("build=%d" % rc)
        if rc:
            print(o[-3000:])
        sh("bash /opt/vp/test.sh /tmp/seed.json")
        r = json.load(open("/tmp/seed.json"))
        out.append("lost=%s" % sorted(base - set(r["passed"]))[:5])
    if "-d" not in opts:
        for p in [prop] + [x for x in opts.get("-k", "").split(",") if x]:
            if not os.path.exists(SV + "/bin/check"):
                break
            rc, o = sh("python3 bin/check %s quick" % p, 900, SV)
            out.append("%s=%d %s" % (p, rc, [l for l in o.splitlines() if l.startswith("VIOLATION")]))
            open("/tmp/seedcheck-%s-%s.log" % (i, p), "w").write(o)
    sh("git checkout -q -- .")
    print(" ".join(out), flush=True)
