#!/usr/bin/env python3
"""Small changes of the library, made mechanically: which of those that the tests pass are seen by the specification?
mutate.py <worker> <workers> [file..]    (scratch copies in /tmp/mut; results in /tmp/mut/results-<worker>.jsonl)"""
import hashlib, json, os, random, re, shutil, subprocess, sys
sys.path.insert(0, "/tmp/mut/snap/verif")
K, N = int(sys.argv[1]), int(sys.argv[2]); FILES = sys.argv[3:]
W = "/tmp/mut/w%d" % K; REPO = W + "/repo"; VERIF = "/tmp/mut/snap/verif"
SUITES = [("reg",120),("mass",60),("free",80),("contact",250),("multi",60),("limit",60),("sleep",100),("touch",60),("solid",12),("twin",100),("deg",80),("ori",80),("mesh",80)]
def sh(c, t=120, **k):
    try: return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, executable="/bin/bash", **k)
    except subprocess.TimeoutExpired:
        class R: returncode = 99; stdout = stderr = ""
        return R
OPS = [(r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" \*= ", [" /= "]),
       (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.])0\.0\b", ["1.0"]), (r"(?<![\w.])1\.0\b", ["0.0", "0.5"]), (r"(?<![\w.])2\.0\b", ["1.0"]),
       (r"\bEPSILON\b", ["0.0", "(EPSILON * 1000.0)"]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]),
       (r"\bfirst\b", ["second"]), (r"\bsecond\b", ["first"]), (r"\bstart\b", ["end"]), (r"\bend\b", ["start"]), (r"\.x\b", [".y"]), (r"\.y\b", [".z"]), (r"\.z\b", [".x"]),
       (r"\bsome\b", ["none"]), (r"\bis_some\(\)", ["is_none()"]), (r"\bis_none\(\)", ["is_some()"]), (r"\bif (?!let)(.*) \{$", None), (r"(?<=[(\s,=])-(?=[a-z])", [""]), (r"\babs\(\)", ["clone()"]),
       (r"\.dot\(", [".cross("]), (r"\bvelocity\b", ["angular_velocity"]), (r"\bangular_velocity\b", ["velocity"]), (r"\b0\b(?!\.)", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\btry_inverse\(\)", [None])]
def code_lines(path):
    out, depth = [], 0
    for n, l in enumerate(open(path).read().split("\n")):
        if "#[cfg(test)]" in l: break
        s = l.strip()
        if not s or s.startswith("//") or "println!" in s or "debug" in s or s.startswith("use ") or s.startswith("#["): continue
        out.append((n, l))
    return out
def mutants():
    ms = []
    files = FILES or subprocess.run("git -C /tmp/mut/snap/repo ls-files 'src/*.rs'", shell=True, capture_output=True, text=True).stdout.split()
    for f in files:
        for n, l in code_lines("/tmp/mut/snap/repo/" + f):
            code = re.split(r"//", l)[0]
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    if pat.startswith(r"\bif "):
                        new = code[:m.start()] + "if !(" + m.group(1) + ") {"
                        ms.append((f, n, l, new)); continue
                    for r in reps:
                        if r is None: continue
                        ms.append((f, n, l, code[:m.start()] + r + code[m.end():]))
            s = code.strip()
            if s.endswith(";") and not re.match(r"(let|return|pub|mod|type|const|break|continue)\b", s): ms.append((f, n, l, re.match(r"\s*", l).group(0) + "{}"))
    random.Random(7).shuffle(ms)
    return ms
def record(h, d):
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    jobs = [(s, c, None) for s, c in SUITES] + [("script:" + f[8:], 0, "/tmp/mut/" + f) for f in sorted(os.listdir("/tmp/mut")) if f.startswith("scripts-")]
    for s, c, t in jobs:
        r = sh("%s %s 1 0 %d %s/%s.nd %s" % (h, s, c, d, s.replace(":", "_"), t or ""), 60)
        if r.returncode: return "%s: exit %s" % (s, r.returncode)
    return None
def build():
    r = sh("cd %s/harness && CARGO_TARGET_DIR=%s/target cargo build --release --offline 2>&1 | tail -3" % (W, W), 300)
    return "Finished" in r.stdout
def main():
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(REPO): sh("cp -a /tmp/mut/snap/repo " + REPO)
    sh("git -C {0} fetch -q /tmp/mut/snap/repo HEAD && git -C {0} checkout -q -f FETCH_HEAD".format(REPO))
    shutil.rmtree(W + "/harness", ignore_errors=True); shutil.copytree(VERIF + "/harness", W + "/harness", ignore=shutil.ignore_patterns("target"))
    sh("sed -i 's#\"/repo\"#\"%s\"#' %s/harness/Cargo.toml" % (REPO, W))
    assert build()
    h = W + "/target/release/harness"
    # (Hash sets are walked in a different order each time, so some runs come out in several ways.)
    base = {}
    for k in range(5):
        assert record(h, W + "/base") is None
        for f in os.listdir(W + "/base"):
            for i, l in enumerate(open(W + "/base/" + f, "rb")): base.setdefault(f, {}).setdefault(i, set()).add(hashlib.md5(l).digest())
    res = open("/tmp/mut/results-%d.jsonl" % K, "a")
    seen = set()
    for f in os.listdir("/tmp/mut"):
        if f.startswith("results-"):
            for l in open("/tmp/mut/" + f): r = json.loads(l); seen.add((r["file"], r["line"], r["new"]))
    for n, (f, line, old, new) in enumerate(mutants()):
        if n % N != K or (f, line, new) in seen: continue
        r = dict(file=f, line=line, old=old, new=new)
        p = REPO + "/" + f
        text = open("/tmp/mut/snap/repo/" + f).read().split("\n"); assert text[line] == old; text[line] = new
        open(p, "w").write("\n".join(text))
        try:
            t = sh("cd %s && . /opt/vp/env.sh && cargo test --workspace --offline 2>&1 | tail -60" % REPO, 90)
            if "could not compile" in t.stdout: r["result"] = "nocompile"
            elif "32 passed; 0 failed" not in t.stdout: r["result"] = "tests"
            elif not build(): r["result"] = "nobuild"
            else:
                bad = record(h, W + "/new")
                if bad: r["result"] = "caught"; r["props"] = bad
                else:
                    diff, total, lines = {}, 0, []
                    for nm in sorted(base):
                        ds = [l for i, l in enumerate(open(W + "/new/" + nm, "rb")) if hashlib.md5(l).digest() not in base[nm].get(i, ())]
                        total += len(ds)
                        if ds: diff[nm] = len(ds)
                        ds.sort(key=len); lines += ds[:25]
                    r["diff"] = diff
                    if not lines: r["result"] = "same"
                    else:
                        d = W + "/tlc"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
                        for x in os.listdir(VERIF + "/spec"):
                            if x.endswith(".tla") or x == "WorldTrace.cfg": shutil.copy(VERIF + "/spec/" + x, d)
                        open(d + "/trace.ndjson", "wb").writelines(lines)
                        sh("cd %s && java -XX:+UseParallelGC -XX:ParallelGCThreads=2 -Xmx3g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:/tmp/mut/snap/verif/build/classes tlc2.TLC -workers 2 -noGenerateSpecTE -config WorldTrace.cfg WorldTrace.tla > out.txt 2>&1" % d, 400)
                        import run
                        try:
                            ids = set(re.match(rb'\{"id":"([^"]*)"', l).group(1).decode() for l in lines)
                            v = run.judge(d + "/out.txt", ids)
                            props = {}
                            for vd, bs in v.values():
                                if vd == "broken":
                                    last = bs[-1][0] if bs else 0
                                    for b in bs:
                                        for q in b[2]: props[q] = props.get(q, 0) + 1
                            r["props"] = props; r["judged"] = len(v); r["broken"] = sum(1 for x in v.values() if x[0] == "broken"); r["unclear"] = sum(1 for x in v.values() if x[0] == "unclear")
                            r["result"] = "caught" if r["broken"] else "SURVIVED"
                        except Exception as e: r["result"] = "noanswer " + str(e)[:100]
        finally:
            shutil.copy("/tmp/mut/snap/repo/" + f, p)
        res.write(json.dumps(r) + "\n"); res.flush()
main()
