"""The models: TLC explores them exhaustively, and what it explored is replayed into the library."""
import os, random, re, shutil, tempfile

# name -> (module, constants of the quick check, ... of the thorough check, calls to replay in each)
MODELS = {
    "registry": dict(module="RegMC", config="RegMC.cfg",
                     quick=[dict(MaxE=2, MaxC=1, MaxG=1, Lean="FALSE", Emit="TRUE"), dict(MaxE=3, MaxC=1, MaxG=0, Lean="TRUE", Emit="TRUE")],
                     thorough=[dict(MaxE=2, MaxC=1, MaxG=1, Lean="FALSE", Emit="TRUE"), dict(MaxE=2, MaxC=2, MaxG=0, Lean="TRUE", Emit="TRUE"),
                               dict(MaxE=3, MaxC=1, MaxG=0, Lean="TRUE", Emit="TRUE"), dict(MaxE=3, MaxC=2, MaxG=0, Lean="TRUE", Emit="FALSE"),
                               dict(MaxE=2, MaxC=2, MaxG=1, Lean="FALSE", Emit="FALSE")],
                     calls=(12000, 250000)),
    "sleeping": dict(module="SleepMC", config="SleepMC.cfg", quick=[dict(Bodies=3, Heavy=1, MaxHits=3)],
                     thorough=[dict(Bodies=4, Heavy=1, MaxHits=3), dict(Bodies=4, Heavy=0, MaxHits=3), dict(Bodies=4, Heavy=2, MaxHits=2)], calls=(0, 0)),
}
for scene, small, large, calls in [("stack", (7, 1), (9, 2), (6000, 120000)), ("side", (7, 1), (9, 2), (4000, 100000)), ("apart", (7, 1), (8, 2), (4000, 100000)),
                                   ("tower", (6, 1), (8, 2), (4000, 100000)), ("lane", (3, 1), (6, 2), (4000, 100000)), ("bounce", (6, 1), (9, 2), (4000, 100000))]:
    size = lambda s: [dict(Scene='"%s"' % scene, Depth=s[0], Budget=s[1], Emit="TRUE")]
    MODELS[scene] = dict(module="DynMC", config="DynMC.cfg", quick=size(small), thorough=size(large), calls=calls, walks=True)


def with_constants(text, values):
    for k, v in values.items():
        text = re.sub(r"\b%s = \S+" % k, "%s = %s" % (k, v), text)
    return text


def edges_of(out):
    graph, first = {}, None
    for line in open(out, errors="replace"):
        line = line.replace("\\", "").replace('"', "").strip()
        if line.startswith("EDGE|"):
            _, src, dst, call = line.split("|")
            if first is None:
                first = src
            graph.setdefault(src, []).append((call.strip(), dst))
    return first, graph


def walks(first, graph, rng, limit, length=60):
    """Walks from the first state that cover all edges (or as many as `limit` calls allow)."""
    todo = {s: list(es) for s, es in graph.items()}
    for es in todo.values():
        rng.shuffle(es)
        es.sort(key=lambda e: 0)
    left = sum(len(es) for es in todo.values())
    # a way from every state to one with edges to do: first edges that change something, by distance from the start
    parent, order = {first: None}, [first]
    for s in order:
        for call, d in graph.get(s, []):
            if d not in parent:
                parent[d] = (s, call)
                order.append(d)
    def path_to(s):
        p = []
        while parent[s]:
            s, call = parent[s]
            p.append(call)
        return p[::-1]
    out, spent, covered = [], 0, 0
    targets = order[:]
    rng.shuffle(targets)
    for target in targets:
        while todo.get(target) and spent < limit:
            calls, s = path_to(target), target
            while len(calls) < length and todo.get(s):
                # stay as long as there is something to try here
                es = todo[s]
                n = next((i for i, e in enumerate(es) if e[1] == s), len(es) - 1)
                call, d = es.pop(n)
                calls.append(call)
                covered += 1
                s = d
            out.append(";".join(calls))
            spent += len(calls)
    return out, covered, left


def check(name, tier, seed, work, tlc, stats, NoAnswer, here):
    m = MODELS[name]
    quick = tier != "thorough"
    result = dict(states=0, transitions=0, scripts=[], configurations=[], edges=0, edges_replayed=0)
    rng = random.Random("%s %s" % (name, seed))
    sets = m["quick"] if quick else m["thorough"]
    for n, values in enumerate(sets):
        d = tempfile.mkdtemp(prefix=m["module"] + "-", dir=work)
        text = with_constants(open(os.path.join(here, "spec", m["config"])).read(), values)
        cfg = "Model%d.cfg" % n
        open(os.path.join(d, cfg), "w").write(text)
        code, out = tlc(d, m["module"], 4 if quick else 8, 800 if quick else 7200, heap="3g" if quick else "10g", config=cfg)
        lines = open(out, errors="replace").read()
        if "Model checking completed. No error has been found." not in lines:
            bad = [l for l in lines.split("\n") if l.startswith("Error")]
            raise NoAnswer("the model %s does not hold (which says nothing about the code): %s" % (name, bad[:3]))
        gen, distinct = stats(out)
        result["states"] += distinct
        result["transitions"] += gen
        result["configurations"].append(dict(values, distinct_states=distinct, transitions=gen))
        if values.get("Emit") == "TRUE":
            emitting = sum(1 for v in sets if v.get("Emit") == "TRUE")
            if m.get("walks"):
                # complete behaviours, one per line
                all_ = [l.replace("\\", "").replace('"', "").strip()[5:] for l in lines.split("\n") if l.startswith('"WALK|')]
                all_ = sorted(set(all_))
                rng.shuffle(all_)
                take, spent = [], 0
                for w in all_:
                    if spent >= m["calls"][0 if quick else 1] / emitting:
                        break
                    take.append(w)
                    spent += w.count(";") + 1
                result["edges"] += len(all_)
                result["edges_replayed"] += len(take)
            else:
                first, graph = edges_of(out)
                take, covered, all_ = walks(first, graph, rng, m["calls"][0 if quick else 1] / emitting)
                result["edges"] += all_
                result["edges_replayed"] += covered
            result["scripts"] += take
        shutil.rmtree(d, ignore_errors=True)
    return result
