"""C23: several connections at a time."""
import json
import conn

ALG = """SPECIFICATION Spec
CONSTANTS NConn = %d
 NCalls = %d
 Variant = "%s"
INVARIANTS OwnAnswer OwnVersion OwnEnd OwnFrames NoneLost
CHECK_DEADLOCK FALSE
"""
VARIANTS = ["requests", "version", "end", "wire", "payload"]


def design(c):
    jobs = [lambda: c.model("Isolation", ALG % (2, 2, "ok"), workers=4)]
    if c.thorough:
        jobs.append(lambda: c.model("Isolation", ALG % (3, 1, "ok"), workers=4, timeout=1500, heap="10g"))
    jobs += [lambda v=v: c.model("Isolation", ALG % (2, 2, v), workers=2, expect_ok=False, count=False) for v in VARIANTS]
    c.parallel(jobs)
    c.log("design model checked (Isolation), defective variants rejected:", *VARIANTS)


def scenarios(c):
    q, rng, sc = not c.thorough, c.rng, []

    def add(fam, conns, steps, heavy=False):
        sc.append({"id": len(sc), "fam": fam, "conns": conns, "steps": steps, "sched": conn.sched(rng, heavy), "late": rng.choice([0, 0, 5, 300]),
                   "same": rng.random() < 0.4, "apart": rng.random() < 0.4, "hb": [rng.choice([0, 1, 2]) for _ in range(conns)]})

    def call(x):
        return {"op": "call", "x": x, "api": rng.choice(conn.APIS + ["ack0", "hb"]), "n": conn.size(rng)}

    # what happens to one connection (TLC's histories) while others go about their business
    hist = []
    for d in [3, 4, 5]:
        r = c.tlc("ConnGen", conn.GEN % d)
        hs = [json.loads(p[4:].replace('\\"', '"')) for p in r.prints if p.startswith("GEN ")]
        k = {3: 150, 4: 250, 5: 250} if q else {3: 1000, 4: 2500, 5: 2500}
        hist += rng.sample(hs, min(len(hs), k[d]))
    for h in hist:
        n = rng.choice([2, 2, 3])
        scripts = [conn.from_history(rng, h)]
        for i in range(1, n):
            if rng.random() < 0.4:
                scripts.append(conn.from_history(rng, rng.choice(hist)))
            else:       # a connection on which all goes well
                s = [{"op": "auto", "n": conn.size(rng), "frag": rng.choice(conn.FRAGS)}] if rng.random() < 0.5 else []
                for _ in range(rng.randint(1, 4)):
                    s.append(call(0))
                    conn.pause(rng, s)
                if rng.random() < 0.7:
                    s += [{"op": "respall", "n": conn.size(rng), "frag": rng.choice(conn.FRAGS)}]
                s += [call(0), {"op": "q"}, {"op": "respall", "n": 30}]
                scripts.append(s)
        rng.shuffle(scripts)
        steps, at = [], [0] * n
        while any(at[i] < len(scripts[i]) for i in range(n)):
            i = rng.choice([i for i in range(n) if at[i] < len(scripts[i])])
            for _ in range(rng.choice([1, 1, 2, 3])):
                if at[i] < len(scripts[i]):
                    steps.append(dict(scripts[i][at[i]], x=i))
                    at[i] += 1
        add("gen", n, steps)
    c.extra["spec_generated_histories"] = len(hist)
    for _ in range(250 if q else 2000):   # many calls everywhere, answers in any order, ends of some
        n = rng.choice([2, 2, 3, 4, 6])
        steps, k = [], [0] * n
        ends = rng.sample(range(n), rng.randint(0, n - 1))
        if rng.random() < 0.4:
            steps += [{"op": "auto", "x": x, "n": conn.size(rng), "frag": rng.choice(conn.FRAGS)} for x in range(n) if rng.random() < 0.5]
        for _ in range(rng.randint(4, 24)):
            x = rng.randrange(n)
            y = rng.random()
            if y < 0.5:
                steps.append(call(x))
                k[x] += 1
            elif y < 0.8 and k[x]:
                steps.append({"op": "resp", "x": x, "c": rng.randint(1, k[x]), "n": conn.size(rng), "frag": rng.choice(conn.FRAGS), "bad": rng.random() < 0.06})
            elif y < 0.9:
                conn.pause(rng, steps)
            elif x in ends:
                steps.append(rng.choice([{"op": "eof", "x": x}, {"op": "reset", "x": x}, {"op": "close", "x": x, "k": rng.randint(1, 2)}, {"op": "unk", "x": x, "id": 77000001, "n": 300}]))
        if rng.random() < 0.6:
            steps.append({"op": "q"})
            steps += [{"op": "respall", "x": x, "n": conn.size(rng), "frag": rng.choice(conn.FRAGS)} for x in range(n)]
        add("many", n, steps)
    # responses arriving on two connections byte by byte, alternately
    for _ in range(60 if q else 400):
        n = rng.choice([2, 3])
        steps = [call(x) for x in range(n) for _ in range(2)] + [{"op": "q"}]
        for r in range(2):
            for x in range(n):
                steps.append({"op": "part", "x": x, "c": r + 1, "n": conn.size(rng), "cut": rng.choice([1, 3, 4, 6, 8, 9, 15, 40, 1000000])})
            conn.pause(rng, steps)
            for x in rng.sample(range(n), n):
                steps.append({"op": "rest", "x": x, "frag": rng.choice(conn.FRAGS)})
                if rng.random() < 0.3:
                    conn.pause(rng, steps)
        add("parts", n, steps)
    for base in ([4000, 70000, 700000] if q else [100, 4000, 20000, 70000, 300000, 700000, 2100000]):   # responses kept while others arrive elsewhere
        steps = []
        for i in range(max(3, min(20, 2000000 // base))):
            for x in range(3):
                steps.append({"op": "call", "x": x, "api": rng.choice(["sasl", "sync", "join"]), "n": 20})
            steps.append({"op": "q"})
            for x in rng.sample(range(3), 3):
                steps.append({"op": "resp", "x": x, "c": i + 1, "n": max(9, base + rng.choice([-base // 3, 0, 1, base // 3]))})
            steps.append({"op": "q"})
        for x in range(3):
            steps += [{"op": "kept", "x": x}]
        steps += [{"op": "close", "x": 0, "k": 1}, {"op": "q"}, {"op": "kept", "x": 0}, {"op": "kept", "x": 1}, {"op": "kept", "x": 2}]
        add("keep", 3, steps, heavy=True)
    for at in range(1, 120 if q else 400):   # one long delay at every point in turn
        n = 2
        steps = [{"op": "call", "x": x, "api": a, "n": 40} for a in ("sasl", "hb") for x in (0, 1)]
        steps += rng.choice([[], [{"op": "eof", "x": 0}], [{"op": "close", "x": 0, "k": 1}], [{"op": "y", "n": 30}, {"op": "resp", "x": 0, "c": 1, "n": 50}, {"op": "resp", "x": 1, "c": 1, "n": 60}]])
        steps += [{"op": "q"}, {"op": "respall", "x": 1, "n": 33}, {"op": "respall", "x": 0, "n": 34}]
        add("sweep", n, steps)
        sc[-1]["sched"] = {"seed": 1, "at": [at], "long": rng.choice([40, 300, 1500])}
    return sc


def run(c):
    design(c)
    sc = scenarios(c)
    binary = c.build("conndrv")
    c.log("driver built, %d scenarios" % len(sc))
    res = c.run_driver(binary, "TestConn", sc, hang=40)
    items = []
    for s, r in zip(sc, res):
        if "skipped" in r:
            continue
        if "crash" in r:
            c.violation("the process crashed: %s" % r["crash"][:700], {"scenario": s, "result": r})
        elif "hang" in r:
            c.violation("the library loops without making progress", {"scenario": s, "result": r})
        else:
            items += [{"ev": ev, "sid": s["id"], "conn": i} for i, ev in enumerate(r["more"])]
    c.log("%d traces of single connections" % len(items))
    for kind, i, rest in c.judge("ConnTrace", items, env={"LENIENT": ""}, deterministic=lambda x: len(x["ev"]) + 1, size=lambda x: len(x["ev"])):
        at = int(rest.split(" ")[0])
        e = items[i]["ev"][at - 1]
        c.violation("connection %d of %d: event %d %s is not allowed after %s" % (items[i]["conn"], sc[items[i]["sid"]]["conns"], at, json.dumps(e), json.dumps(items[i]["ev"][:at - 1])[-700:]),
                    {"scenario": sc[items[i]["sid"]], "trace": items[i], "rejected_event": at})
    fams = {}
    for x in items:
        f = sc[x["sid"]]["fam"]
        if f not in fams:
            c.sample(x)
        fams[f] = fams.get(f, 0) + 1
    c.extra["connection_traces_by_family"] = fams
    if not c.violations:
        race(c)
    c.assumptions += ["the in-memory transport stands for TCP sockets (DialHook, build tag verif)",
                      "preemption at statement boundaries on one processor; true parallelism is covered by the race-detector runs over loopback TCP",
                      "goroutines are counted when all connections of a scenario have been closed"]


def race(c):
    """Several connections in parallel over loopback TCP, under the race detector."""
    rng = c.rng
    sc = [{"id": i, "conns": rng.choice([2, 3, 5]), "calls": rng.choice([1, 2, 4]), "rounds": rng.choice([5, 20]), "close": rng.choice([0, 0, 1]), "oneway": rng.random() < 0.5,
           "frag": rng.choice([0, 0, 1, 7, 1000]), "size": rng.choice([9, 100, 5000, 100000]), "seed": rng.getrandbits(30)} for i in range(12 if not c.thorough else 80)]
    binary = c.build("conndrv", instr=(), race=True)
    res = c.run_driver(binary, "TestConnRace", sc, procs=4, gomaxprocs=4, async_off=False, hang=30, confirm="ignore-hang", env={"GORACE": "halt_on_error=1 exitcode=66"})
    n = 0
    for s, r in zip(sc, res):
        if "skipped" in r or "hang" in r:
            continue
        if "crash" in r:
            c.violation("crash or data race with parallel connections: %s" % r["crash"][:900], {"scenario": s, "result": r})
            continue
        n += r["calls"]
        if r["wrong"] or r["stray"]:
            c.violation("%d connections in parallel over TCP: %s" % (s["conns"], (r["wrong"] or [r["stray"]])[:3]), {"scenario": s, "result": r})
    c.extra["parallel_calls_under_race_detector"] = n
