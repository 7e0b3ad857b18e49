#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from the definitions in bugs*.py, if a change is what it should be.
plant.py [id..]: works in a scratch copy of /repo."""
import glob, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
SC = "/tmp/plant/repo"
ENV = dict(os.environ, DEMO_TARGET="/tmp/plant/demo")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def fresh():
    if not os.path.isdir(SC):
        os.makedirs("/tmp/plant", exist_ok=True); sh("cp -a /repo " + SC)
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (SC, SC))
def demo(d):
    return sh("bash %s/demo.sh" % d, cwd=SC, env=ENV)
def tests():
    r = sh(". /opt/vp/env.sh; cargo test --workspace --offline 2>&1 | grep -E 'test result|FAILED|failed|error' | head -20", cwd=SC, executable="/bin/bash")
    return "FAILED" not in r.stdout and "error" not in r.stdout and "test result: ok. 32 passed" in r.stdout, r.stdout
def main():
    bugs = []
    for f in sorted(glob.glob(os.path.join(HERE, "bugs*.py"))):
        ns = {}; exec(open(f).read(), ns); bugs += ns["BUGS"]
    want = sys.argv[1:]
    for b in bugs:
        if want and b["id"] not in want: continue
        if not want and os.path.exists(os.path.join(SEEDED, b["id"], "patch.diff")): continue
        fresh()
        d = os.path.join("/tmp/plant", b["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        shutil.copy(os.path.join(HERE, "demo.sh"), d)
        open(d + "/main.rs", "w").write(open(os.path.join(HERE, "prelude.rs")).read() + b["demo"].strip() + "\n")
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        r = demo(d)
        if r.returncode != 0: print(b["id"], "DEMO FAILS UNCHANGED", r.returncode, r.stdout[-1500:], r.stderr[-600:]); continue
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(SC, f); s = open(p).read()
            if s.count(old) != 1: print(b["id"], "edit matches", s.count(old), "times:", old[:60]); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: continue
        t, out = tests()
        if not t: print(b["id"], "TESTS FAIL", out[-800:]); continue
        r = demo(d)
        if r.returncode in (0, 2): print(b["id"], "DEMO DOESN'T FAIL", r.returncode, r.stdout[-1500:]); continue
        diff = sh("git -C %s diff" % SC).stdout
        # the lines that are changed must be the original ones
        base = "abab331"
        orig = True
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:].strip():
                fs = sh("git -C %s show %s:%s" % (SC, base, [x for x in diff.splitlines() if x.startswith("--- a/")][0][6:])).stdout
                if l[1:] not in fs.splitlines() and len(b["edits"]) == 1: orig = False
        print(b["id"], "ok" if orig else "ok, but CHANGES NEW LINES")
        open(d + "/patch.diff", "w").write(diff)
        dst = os.path.join(SEEDED, b["id"]); shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
main()
