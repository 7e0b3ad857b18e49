#!/usr/bin/env python3
"""Which check catches which planted bug: catch.py [-a|-p C08,C09] [id..]
Works in scratch copies of /repo and /verif (/tmp/catch).  -a runs every check, -p those named, else the one of the bug's property."""
import glob, json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(os.path.dirname(HERE))
W = os.environ.get("CATCH", "/tmp/catch")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
os.makedirs(W, exist_ok=True)
if not os.path.isdir(W + "/repo"): sh("cp -a /repo %s/repo" % W)
sh("git -C {0} fetch -q /repo HEAD && git -C {0} checkout -q -f FETCH_HEAD".format(W + "/repo"))
sh("mkdir -p {0}/verif && rsync -a --delete --exclude seeded --exclude .git --exclude build --exclude evidence {1}/ {0}/verif/".format(W, VERIF)) if shutil.which("rsync") else \
    sh("mkdir -p {0}/verif && cd {1} && tar c --exclude=./seeded --exclude=./.git --exclude=./build --exclude=./evidence . | tar x -C {0}/verif".format(W, VERIF))
sh("sed -i 's#\"/repo\"#\"{0}/repo\"#' {0}/verif/run.py {0}/verif/harness/Cargo.toml".format(W))
args = sys.argv[1:]; props = None
if args[:1] == ["-a"]: props = ["C%02d" % i for i in range(1, 20)]; args = args[1:]
elif args[:1] == ["-p"]: props = args[1].split(","); args = args[2:]
ids = args or sorted(os.listdir(VERIF + "/seeded"))
for i in ids:
    d = os.path.join(VERIF, "seeded", i) if os.path.exists(os.path.join(VERIF, "seeded", i)) else i
    if i == "none": sh("git -C %s/repo checkout -q -f ." % W); own = "C01"
    else:
        own = json.load(open(d + "/meta.json"))["property"] if os.path.isdir(d) else "C08"
        sh("git -C %s/repo checkout -q -f ." % W)
        r = sh("git -C %s/repo apply %s" % (W, d + "/patch.diff" if os.path.isdir(d) else d))
        if r.returncode: print(i, "DOESN'T APPLY", r.stderr[:200]); continue
    out = []
    for p in props or [own]:
        t = time.time(); r = sh("VERIF_SEED=1 VERIF_TIER=quick python3 run.py " + p, cwd=W + "/verif")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        out.append("%s:%s(%ds)" % (p, "caught" if r.returncode == 1 and v else "quiet" if r.returncode == 0 else "NO ANSWER " + (r.stdout + r.stderr)[-300:], time.time() - t))
        if p == own and v: detail = v[0][:160]
    print(i, own, " ".join(out), flush=True)
    sh("git -C %s/repo checkout -q -f ." % W)
