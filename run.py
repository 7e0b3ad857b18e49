#!/usr/bin/env python3
"""run.py <property> [tier]: one check.  See DESIGN.md.

Builds the harness against /repo, model checks the specification where the property has a configuration of
its own, runs the library (random runs of the suites, and behaviours taken from the model checker) and lets TLC
decide whether what was recorded is a behaviour of the specification.  Exit 0: held; 1: VIOLATION; 2: no answer."""
import collections, concurrent.futures as cf, fcntl, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
REPO = "/repo"

# property -> suites (name, runs in a quick check, runs in a thorough one)
from plan import SUITES, MODELS


class NoAnswer(Exception):
    pass


RUNNING = set()    # the processes we started
STOPPED = False


def sh(cmd, timeout, cwd=None, out=None, env=None):
    if STOPPED:
        raise NoAnswer("stopped")
    stdout = open(out, "w") if out else subprocess.PIPE
    try:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=stdout, stderr=subprocess.STDOUT, env=env, text=not out)
        RUNNING.add(p)
        try:
            text, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise NoAnswer("timed out: " + " ".join(cmd)[:200])
        finally:
            RUNNING.discard(p)
        return subprocess.CompletedProcess(cmd, p.returncode, text)
    finally:
        if out:
            stdout.close()


def stop_all():
    global STOPPED
    STOPPED = True
    for p in list(RUNNING):
        p.kill()


def cargo_env():
    env = dict(os.environ)
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE)
    for item in r.stdout.decode(errors="replace").split("\0"):
        if "=" in item:
            k, v = item.split("=", 1)
            env[k] = v
    env["CARGO_INCREMENTAL"] = "0"
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    env.pop("RUSTFLAGS", None)
    return env


def build():
    os.makedirs(os.path.join(BUILD, "classes"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = sh(["cargo", "build", "--release", "--offline", "--locked"], 800, cwd=os.path.join(HERE, "harness"), env=cargo_env())
        if r.returncode != 0:
            raise NoAnswer("the harness does not build:\n" + r.stdout[-3000:])
        src = os.path.join(HERE, "spec", "RealOps.java")
        cls = os.path.join(BUILD, "classes", "RealOps.class")
        if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
            r = sh(["javac", "-nowarn", "-cp", JARS, "-d", os.path.join(BUILD, "classes"), src], 120)
            if r.returncode != 0:
                raise NoAnswer("RealOps.java does not compile:\n" + r.stdout[-2000:])
    return os.path.join(BUILD, "target", "release", "harness")


def tlc(directory, module, workers, timeout, heap="3g", config=None, extra=()):
    for f in os.listdir(os.path.join(HERE, "spec")):
        if f.endswith(".tla") or f.endswith(".cfg"):
            shutil.copy(os.path.join(HERE, "spec", f), directory)
    out = os.path.join(directory, module + ".out")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-XX:ParallelGCThreads=2", "-cp", JARS + ":" + os.path.join(BUILD, "classes"),
           "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(directory, "meta-" + module),
           "-config", config or module + ".cfg", *extra, module + ".tla"]
    r = sh(cmd, timeout, cwd=directory, out=out)
    return r.returncode, out


def stats(out):
    states = gen = 0
    for line in open(out, errors="replace"):
        m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
        if m:
            gen, states = int(m.group(1)), int(m.group(2))
    return gen, states


# ------------------------------------------------------------------------------------------------

def judge(out, wanted):
    """Reads what WorldTrace printed.  Yields run -> (verdict, [(event, what, props, details)])."""
    ends, bad = collections.defaultdict(list), collections.defaultdict(list)
    finished = False
    for line in open(out, errors="replace"):
        line = line.strip()
        if line.startswith("Model checking completed. No error"):
            finished = True
        line = line.strip('"')
        if line.startswith("BAD|"):
            f = line.split("|", 6)
            bad[f[1]].append((int(f[2]), f[3], set(re.findall(r"C\d\d|\*", f[4])), f[5], f[6]))
        elif line.startswith("END|"):
            f = line.split("|")
            ends[f[1]].append((int(f[2]), f[3], f[4]))
    if not finished:
        raise NoAnswer("TLC did not finish:\n" + tail(out))
    if set(ends) != set(wanted):
        raise NoAnswer("TLC did not judge every run")
    verdicts = {}
    for run, es in ends.items():
        if any(e[2] == "clean" and e[1] == "done" for e in es):
            verdicts[run] = ("held", [])
        elif any(e[2] == "clean" for e in es):
            verdicts[run] = ("unclear", [])
        else:
            # the way of reading it that agrees for longest
            last = max(b[0] for b in bad[run] if b[3] == "first")
            verdicts[run] = ("broken", sorted((b[0], b[1], b[2], b[4]) for b in bad[run] if b[0] >= last))
    return verdicts


def tail(path, n=12):
    lines = [l for l in open(path, errors="replace").read().split("\n") if not l.startswith('"')]
    return "\n".join(l[:300] for l in lines[-n:])


def run_chunk(harness, work, suite, seed, first, count, scripts=None, deadline=None):
    timeout = max(5, deadline - time.time())
    d = tempfile.mkdtemp(prefix=suite + "-", dir=work)
    trace = os.path.join(d, "trace.ndjson")
    args = [harness, suite, str(seed), str(first), str(count), trace]
    if scripts is not None:
        with open(os.path.join(d, "scripts"), "w") as f:
            f.write("\n".join(scripts) + "\n")
        args.append(os.path.join(d, "scripts"))
    with open(os.path.join(d, "err"), "w") as err:
        try:
            r = subprocess.run(args, stdout=subprocess.DEVNULL, stderr=err, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise NoAnswer("the harness timed out in suite " + suite)
    died = None
    lines = open(trace).read().split("\n") if os.path.exists(trace) else []
    lines = [l for l in lines if l]
    if r.returncode != 0:
        text = open(os.path.join(d, "err"), errors="replace").read()[-1500:]
        if r.returncode > 0 and r.returncode != 134:
            raise NoAnswer("the harness failed in suite %s (%d): %s" % (suite, r.returncode, text))
        died = "the process died (%d) in run %s-%d-%d: %s" % (r.returncode, suite, seed, first + len(lines), text.strip()[-300:])
    verdicts, gen, states, sizes = {}, 0, 0, []
    if lines:
        ids = [json.loads(l)["id"] for l in lines]
        code, out = tlc(d, "WorldTrace", 2, timeout)
        verdicts = judge(out, ids)
        gen, states = stats(out)
    events = {i: l.count('"o":"') for i, l in zip([re.match(r'\{"id":"([^"]*)"', l).group(1) for l in lines], lines)}
    kept = {}
    for i, l in zip(list(events), lines):
        if verdicts.get(i, ("", 0))[0] == "broken":
            kept[i] = l
    sample = [describe(lines[0])] if lines else []
    shutil.rmtree(d, ignore_errors=True)
    return dict(suite=suite, verdicts=verdicts, gen=gen, states=states, died=died, events=events, kept=kept, sample=sample,
                records=sum(l.count('"J":') for l in lines))


def describe(line):
    run = json.loads(line)
    return {"run": run["id"], "calls": [e["o"] + ("(%d records)" % len(e["recs"]) if "recs" in e else "") for e in run["ev"]][:40]}


# ------------------------------------------------------------------------------------------------

def known_findings(prop):
    """Lines 'known: property=<id> run=<run> what=<what> | text' of known-findings.txt (fixed: lines suppress nothing)."""
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) run=(\S+) what=(.*?) \| (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def main():
    prop = sys.argv[1]
    if prop == "--build":
        try:
            build()
        except NoAnswer as e:
            print(e)
            sys.exit(2)
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    began = time.time()
    quick = tier != "thorough"
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
    replays = os.path.join(BUILD, "replay", prop)
    code = 2
    try:
        harness = build()
        coverage = collections.OrderedDict(states=0, transitions=0, traces_validated_against_impl=0)
        notes, samples, jobs = {}, [], []
        # the models: checked, and turned into scripts for the library
        import models
        scripts, broken_models = [], []
        with cf.ThreadPoolExecutor(3 if quick else 1) as side:
            checked = list(side.map(lambda name: (name, models.check(name, tier, seed, work, tlc, stats, NoAnswer, HERE)), MODELS.get(prop, [])))
        for name, m in checked:
            coverage["states"] += m["states"]
            coverage["transitions"] += m["transitions"]
            notes["model " + name] = {k: m[k] for k in m if k != "scripts"}
            if m["scripts"]:
                scripts.append((name, m["scripts"]))
        pool = cf.ThreadPoolExecutor(4)
        # (a check has 900 s)
        limit = began + 850 if quick else time.time() + 14400
        size = 100 if quick else 200
        for suite, few, many in SUITES[prop]:
            n = few if quick else many
            for first in range(0, n, size):
                jobs.append(pool.submit(run_chunk, harness, work, suite, seed, first, min(size, n - first), None, limit))
        for name, lines in scripts:
            for first in range(0, len(lines), size):
                jobs.append(pool.submit(run_chunk, harness, work, "script:" + name, seed, first, 0, lines[first:first + size], limit))
        found, unclear, per, failures = [], 0, collections.Counter(), []
        for job in cf.as_completed(jobs):
            try:
                r = job.result()
            except NoAnswer as e:
                # (others may still find something)
                failures.append(e)
                continue
            except cf.CancelledError:
                continue
            # (what breaks the property in many runs needs no more of them)
            if quick and sum(1 for f in found if any(prop in w[2] or "*" in w[2] for w in f[2])) >= 8:
                for j in jobs:
                    j.cancel()
                stop_all()
                break
            coverage["states"] += r["states"]
            coverage["transitions"] += r["gen"]
            coverage["traces_validated_against_impl"] += len(r["verdicts"])
            per[r["suite"] + " runs"] += len(r["verdicts"])
            per[r["suite"] + " calls"] += sum(r["events"].values())
            per[r["suite"] + " records"] += r["records"]
            if len(samples) < 4:
                samples += r["sample"]
            if r["died"]:
                found.append((r["suite"], "died", [(0, "died", {"*"}, r["died"])], None))
            for run, (verdict, why) in r["verdicts"].items():
                if verdict == "unclear":
                    unclear += 1
                elif verdict == "broken":
                    found.append((r["suite"], run, why, r["kept"].get(run)))
        pool.shutdown()
        known = known_findings(prop)
        mine, others = [], collections.Counter()
        for suite, run, why, line in found:
            hit = [w for w in why if prop in w[2] or "*" in w[2]]
            if not hit:
                for w in why[:1]:
                    others[w[1] + " " + ",".join(sorted(w[2]))] += 1
                continue
            listed = [k for k in known if k[0] == run and all(w[1] == k[1] for w in hit)]
            if listed:
                print("KNOWN-FINDING: property=%s %s" % (prop, listed[0][2]))
            else:
                mine.append((run, hit, line))
        coverage["samples"] = samples
        coverage["per_suite"] = dict(per)
        coverage["unclear_runs"] = unclear
        if others:
            coverage["mismatches_of_other_properties"] = dict(others)
        coverage["models"] = notes
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        evidence = dict(property=prop, tier="quick" if quick else "thorough", seed=seed, level="model_checking", coverage=coverage,
                        assumptions=["doubles stand for the reals of the specification", "what the public interface does not show is not checked"],
                        wall_s=round(time.time() - began, 1), violations=len(mine))
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        if failures and not mine:
            raise failures[0]
        if mine:
            os.makedirs(replays, exist_ok=True)
            run, hit, line = sorted(mine, key=lambda m: (len(m[2] or ""), m[0]))[0]
            path = os.path.join(replays, re.sub(r"[^\w.-]", "_", run) + ".txt")
            with open(path, "w") as f:
                f.write("property %s, run %s (suite, seed, index); mismatches (event, what, properties, details):\n" % (prop, run))
                for h in hit:
                    f.write("  %d %s %s %s\n" % (h[0], h[1], ",".join(sorted(h[2])), h[3][:600]))
                f.write("recorded run (validate with spec/WorldTrace.tla):\n%s\n" % (line or ""))
            for m in mine[:5]:
                print("  %s event %d: %s  %s" % (m[0], m[1][0][0], m[1][0][1], m[1][0][3][:300]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            code = 1
        else:
            print("%s held: %d states, %d runs of the library validated, %d unclear, %.0f s" % (
                prop, coverage["states"], coverage["traces_validated_against_impl"], unclear, time.time() - began))
            code = 0
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        code = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
