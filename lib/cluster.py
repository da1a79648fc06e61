"""C09, C10, C17-C19: version negotiation, broker operations, the client."""
import json, re, os
import vlib, codec
from vlib import HarnessError

NEG = """SPECIFICATION Spec
CONSTANTS Variant = "%s"
 Keys = {%s}
 Top = %d
 MaxLen = %d
INVARIANTS Right
CHECK_DEADLOCK FALSE
"""
ALG = """SPECIFICATION Spec
CONSTANTS Variant = "%s"
 NBoot = %d
 NOps = %d
INVARIANTS Allowed NoLeak
PROPERTIES Ends
CHECK_DEADLOCK FALSE
"""
VARIANTS = {"C09": ["nocode"], "C10": [], "C17": ["wrongnode", "noerr"], "C18": ["emptyok", "skip", "nofailover", "reask"], "C19": ["leaknego", "leakboot"]}
MODES = ("strict", "strict", "null", "odd")


def apis():
    text = open(os.path.join(vlib.SPEC, "Schema.tla")).read()
    out = [(int(k), n, int(m)) for k, n, m in re.findall(r"\[key \|-> (\d+), name \|-> \"(\w+)\", max \|-> (\d+)", text)]
    if len(out) != 48:
        raise HarnessError("cannot read the APIs from Schema.tla")
    return out


def design(c):
    q = not c.thorough
    jobs = [lambda: c.model("ClusterAlg", ALG % ("ok", 2 if q else 3, 2), workers=4)]
    jobs += [lambda v=v: c.model("ClusterAlg", ALG % (v, 2, 1), workers=1, expect_ok=False, count=False) for v in VARIANTS[c.pid]]
    if c.pid in ("C09", "C10"):
        jobs.append(lambda: c.model("NegotiateAlg", NEG % ("ok", "0, 36, 99" if q else "0, 36, 45, 99", 4 if q else 9, 2 if q else 2), workers=4))
        jobs += [lambda v=v: c.model("NegotiateAlg", NEG % (v, "0, 7, 36, 99", 9, 1), workers=1, expect_ok=False, count=False) for v in ("min", "nocheck", "brokerhi", "skip", "nocode")]
    c.parallel(jobs)
    c.log("design models checked (ClusterAlg, NegotiateAlg), defective variants rejected")


# ------------------------------------------------------------------ values
class Pool:
    """Calls with answers that the specification encodes."""
    def __init__(self, c, binary):
        self.c, self.binary, self.want, self.given = c, binary, [], []

    def call(self, name, key, ver, prof=None):
        r = self.c.rng
        call = {"api": name, "key": key, "seed": r.getrandbits(40), "prof": r.choice([1, 2, 3, 3, 3, 3, 10, 13, 15]) if prof is None else prof}
        if name == "Produce":
            call["acks"] = r.choice([1, 1, -1, -1, 2, 0, 32767, -32768])
        self.want.append((call, ver, r.choice(MODES), {"kind": "val", "ty": name + "Response", "seed": r.getrandbits(40), "prof": r.choice([0, 1, 2, 3, 3, 3, 3, 10, 13, 15])}))
        return call

    def answer(self, ty, ver, val, mode=None):
        """An answer with the given content."""
        r = {"how": "ok", "ver": ver, "val": val, "bytes": [], "cut": 0}
        self.given.append((r, {"ty": ty, "ver": ver, "val": val, "mode": mode or self.c.rng.choice(MODES)}))
        return r

    def fill(self):
        for (r, it), b in zip(self.given, codec.spec_encode(self.c, [g[1] for g in self.given])):
            r["bytes"] = b
        self.given = []
        if not self.want:
            return
        vals = self.c.run_driver(self.binary, "TestCodec", codec.number([dict(w[3]) for w in self.want]))
        items = [{"ty": w[3]["ty"], "ver": w[1], "val": v["val"], "mode": w[2]} for w, v in zip(self.want, vals)]
        for w, it, b in zip(self.want, items, codec.spec_encode(self.c, items)):
            w[0]["resp"] = {"how": "ok", "bytes": b, "val": it["val"], "ver": w[1]}
        self.want = []


def server(off, **kw):
    s = {"hi": "ok", "code": 0, "off": off, "askcut": -1, "cut": 0, "ask": {}}
    s.update(kw)
    return s


def strange(rng):
    """Offers for APIs this library does not know."""
    return [{"k": k, "lo": rng.choice([-5, 0, 3, 32767]), "hi": rng.choice([-7, 0, 2, 32767, -32768])} for k in rng.sample([48, 49, 50, 60, 99, 255, 256, 1000, 32767, -1, -2, -32768], rng.randint(1, 5))]


def direct(c, off, steps, **kw):
    if c.rng.random() < 0.5:
        off = off + strange(c.rng)
    c.rng.shuffle(off)
    return {"hosts": [{"addr": "broker:9092", "conns": [server(off, **kw)]}], "steps": [{"op": "direct", "addr": "broker:9092"}] + steps + [{"op": "close", "b": 1}]}


def split(c, calls):
    """Make the calls in one go, one after the other or in parallel groups."""
    rng, steps = c.rng, []
    rng.shuffle(calls)
    while calls:
        k = rng.randint(1, 12)
        par = rng.random() < 0.5
        steps.append({"op": "calls", "b": 1, "calls": calls[:k], "par": par, "hold": par and rng.random() < 0.6})
        calls = calls[k:]
    return steps


def operations(c, pool):
    """C10: every operation at every version."""
    rng, out, A = c.rng, [], apis()
    top = max(m for _, _, m in A)
    for rep in range(5 if not c.thorough else 40):
        for v in range(top + 1):
            off, calls = [], []
            for k, n, m in A:
                w = min(v, m)
                lo, hi = (w, w) if rng.random() < 0.6 else (rng.choice([-3, 0, w]) if rng.random() < 0.5 else w, w if w < m else rng.choice([m, m + 1, 99, 32767]))
                lo = min(lo, w)
                off.append({"k": k, "lo": lo, "hi": hi})
                if w == v or rng.random() < 0.1:
                    for _ in range(2 if rng.random() < 0.3 else 1):
                        calls.append(pool.call(n, k, w))
            out.append(direct(c, off, split(c, calls), frag=rng.choice([0, 0, 1, 3, 100])))
    # every API at a version of its own
    for rep in range(20 if not c.thorough else 150):
        off, calls = [], []
        for k, n, m in A:
            w = rng.randint(0, m)
            off.append({"k": k, "lo": rng.choice([0, w]), "hi": w})
            if rng.random() < 0.5:
                calls.append(pool.call(n, k, w))
        out.append(direct(c, off, split(c, calls), frag=rng.choice([0, 0, 2])))
    # one operation after the other on a single connection, again and again: fresh ids
    for rep in range(2 if not c.thorough else 10):
        off = [{"k": k, "lo": 0, "hi": m} for k, n, m in A]
        calls = [pool.call(n, k, m, prof=1) for k, n, m in A for _ in range(3)]
        out.append(direct(c, off, split(c, calls)))
    return out


def negotiation(c, pool):
    """C09: every offer at the edges of the ranges, packed 48 to a connection."""
    rng, out, A = c.rng, [], apis()
    r = c.tlc("BrokerGen", "SPECIFICATION Spec\nCONSTANT Wide = %s\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % ("TRUE" if c.thorough else "FALSE"))
    offers = [json.loads(p[4:].replace('\\"', '"')) for p in r.prints if p.startswith("GEN ")]
    if len(offers) < 1500:
        raise HarnessError("BrokerGen produced %d offers" % len(offers))
    c.extra["spec_generated_offers"] = len(offers)
    good = {n: [o for o in offers if o["name"] == n and o["v"] >= 0] for _, n, _ in A}
    bad = [o for o in offers if o["v"] < 0]
    plain = lambda o: {"k": o["k"], "lo": o["lo"], "hi": o["hi"]}
    for _ in range(1 if not c.thorough else 3):
        todo = {n: rng.sample(g, len(g)) for n, g in good.items()}
        while any(todo.values()):
            off, calls = [], []
            for k, n, m in A:
                new = bool(todo[n])
                if not new and rng.random() < 0.7:
                    continue
                o = todo[n].pop() if new else rng.choice(good[n])
                off.append(plain(o))
                if new:
                    calls.append(pool.call(n, k, o["v"]))
            out.append(direct(c, off, split(c, calls)))
    for o in bad:   # one API without a common version among (or next to) good ones
        x = rng.random()
        off = [plain(o)] + ([] if x < 0.2 else [plain(rng.choice(good[n])) for k, n, m in A if k != o["k"] and (x < 0.4 or rng.random() < 0.2)])
        out.append(direct(c, off, []))
    for code in (35, 1, -1, 41, 32767, -32768, 256) * (2 if not c.thorough else 20):
        off = [plain(rng.choice(good[n])) for k, n, m in A if rng.random() < rng.choice([0, 0.5, 1])]
        out.append(direct(c, off, [], code=code))
    for how in ("eof", "reset", "trunc", "part", "other", "wfault") * (4 if not c.thorough else 40):
        off = [plain(rng.choice(good[n])) for k, n, m in A]
        out.append(direct(c, off, [], hi=how, cut=rng.choice([0, 1, 3, 4, 5, 7, 8, 9, 13, 20, 30])))
    return out


# ------------------------------------------------------------------ clients
B = lambda s: list(s.encode("utf-8", "surrogateescape"))
SEQ = lambda xs: {"z": xs is None, "v": xs or []}
NAMES = ["orders", "order", "orders2", "Orders", "a", "logs.eu", "x" * 60, "t\u00f6pic", "__consumer_offsets", "orders-1", " orders", "orders ", "ORDERS", "x" * 61, "x" * 249, "logs_eu"]
HOSTS = ["Kafka%d.Example.COM", "kafka%d.", "KAFKA%d", "kafka%d", "broker-%d.example.com", "10.0.0.%d", "192.168.7.%d", "2001:db8::%d", "fe80::%d%%eth0", "::ffff:10.1.2.%d", "::%d", "h%d"]


class World:
    """The servers of one scenario and the connections they are going to see, in order."""
    def __init__(self, c, pool):
        self.c, self.pool, self.hosts, self.ver = c, pool, {}, {}
        self.used = set()

    def fresh(self):
        """A host and port nobody else has."""
        r = self.c.rng
        while True:
            k = r.randint(1, 250)
            h, p = r.choice(HOSTS) % (int("%x" % k, 16) if True else k), r.choice([9092, 9093, 9094, 1, 443, 19092, 32767, 32768, 40000, 65535])
            if (h, p) not in self.used:
                self.used.add((h, p))
                return h, p

    @staticmethod
    def addr(h, p):
        return "[%s]:%d" % (h, p) if ":" in h else "%s:%d" % (h, p)

    def host(self, h, p):
        return self.hosts.setdefault((h, p), {"addr": self.addr(h, p), "host": h, "port": str(p), "conns": []})

    def offers(self, want=()):
        """Random offers; returns them with the versions they lead to."""
        r, off, ver = self.c.rng, [], {}
        for k, n, m in apis():
            if k not in want and r.random() < 0.5:
                continue
            v = r.randint(0, m) if k != 3 or r.random() < 0.15 else r.randint(1, m)
            off.append({"k": k, "lo": r.choice([0, v, max(0, v - 1)]), "hi": v if v < m else r.choice([m, m + 1, 50])})
            ver[k] = v
        if r.random() < 0.3:
            off += strange(r)
        r.shuffle(off)
        return off, ver

    def visit(self, h, p, fate, want=(3, 10)):
        """The next connection to this host meets this fate; returns the server and the versions."""
        r = self.c.rng
        off, ver = self.offers(want)
        s = server(off, frag=r.choice([0, 0, 0, 1, 5, 50]), odd=r.choice(["none", "eof", "short", "short"]))
        if fate == "refuse":
            s["refuse"] = True
        elif fate == "code":
            s["code"] = r.choice([35, 35, 1, -1, 58, 256])
        elif fate == "nocommon":
            o = r.choice([o for o in off if 0 <= o["k"] < 48])
            o["lo"], o["hi"] = r.choice([(100, 101), (32767, 32767), (-9, -1), (3, 1), (13, 12)])
            if o["lo"] == 3 and o["hi"] == 1:
                o["lo"], o["hi"] = 13, 12
        elif fate == "lost":
            s["hi"], s["cut"] = r.choice(["eof", "reset", "trunc", "part", "other", "wfault"]), r.choice([0, 1, 3, 4, 5, 7, 8, 9, 13, 20, 30])
        self.host(h, p)["conns"].append(s)
        return s, ver

    def finish(self, steps):
        for h in self.hosts.values():   # anybody who calls unexpectedly is welcome
            off, ver = self.offers((3, 10))
            h["conns"].append(server(off, ask={}))
        return {"hosts": list(self.hosts.values()), "steps": steps}


def topic(rng, name, nodes, parts, code=0):
    ps = []
    for i in parts:
        ps.append({"ErrorCode": 0, "PartitionIndex": i, "LeaderId": rng.choice(nodes)[0], "LeaderEpoch": rng.randint(-1, 9), "ReplicaNodes": SEQ([x[0] for x in nodes]),
                   "IsrNodes": SEQ([x[0] for x in nodes][:1]), "OfflineReplicas": SEQ(rng.choice([None, [], [7]]))})
    return {"ErrorCode": code, "Name": B(name), "IsInternal": rng.random() < 0.2, "Partitions": SEQ(ps), "TopicAuthorizedOperations": rng.choice([0, -2147483648, 5])}


def metadata(rng, nodes, names, controller):
    bs = [{"NodeId": i, "Host": B(h), "Port": p, "Rack": B(rng.choice(["", "r1", "rack"]))} for i, h, p in nodes]
    ts = [topic(rng, n, nodes, rng.sample([0, 1, 2, 3, 4, 5, 7, 10, 100, 2147483647], rng.randint(0, 5))) for n in names] if nodes else []
    return {"ThrottleTimeMs": rng.choice([0, 0, 100]), "Brokers": SEQ(bs), "ClusterId": B(rng.choice(["", "cluster-1", "abc"])), "ControllerId": controller,
            "Topics": SEQ(ts), "ClusterAuthorizedOperations": rng.choice([0, -2147483648, 260])}


IDS = [0, 1, 2, 3, 5, 9, 10, 100, 1001, 2147483647, -7]


def client_steps(c, w, boot, plan, big=False):
    """Set up the servers for one operation of a client and return the step.  big: of a large cluster."""
    rng, pool = c.rng, w.pool
    step = {"op": plan["op"], "boot": [w.addr(h, p) for h, p in boot]}
    ver = {}
    for (h, p), fate in zip(boot, plan["boot"]):
        srv, ver = w.visit(h, p, fate)
    names = rng.sample(NAMES[:3] if rng.random() < 0.4 else NAMES, rng.randint(1, 3))
    ids = rng.sample(IDS, rng.randint(1, 6))
    if big:
        names += rng.sample(["t%d" % i for i in range(60)], rng.choice([5, 40]))
        rng.shuffle(names)
        ids = rng.sample(range(400), rng.choice([20, 70, 140]))
    nodes = [(i,) + w.fresh() for i in ids]
    if rng.random() < 0.2 and boot:   # the bootstrap server is a node of the cluster
        nodes[rng.randrange(len(nodes))] = (nodes[0][0] if len(nodes) == 1 else 77,) + boot[0]
    for n in nodes:
        w.host(n[1], n[2])
    want = rng.choice(names)
    if rng.random() < 0.4:   # neighbours of that name
        names += [n for n in rng.sample([want.upper(), want.lower(), want.capitalize(), " " + want, want + " ", want + "2", want[:-1], want.replace(".", "_")], 3) if n and n not in names]
        rng.shuffle(names)
    if big and rng.random() < 0.6:
        names.remove(want)
        names.append(want)
    step["topics"] = rng.choice([[], [want], names, names[:2], [""], [want, want]]) if plan["op"] == "metadata" else []
    step["topic"], step["part"], step["group"] = want, rng.choice([0, 1, 2, 5, 100, 2147483647]), rng.choice(["g", "", "group-1", "gr\u00fcppe", "y" * 300, " g ", "G", "z" * 32767])
    if plan["ask"] == "-":
        return step, None
    key, target = (10 if plan["op"] == "coordinator" else 3), None
    if plan["op"] == "coordinator":
        target = rng.choice(nodes)
        code = rng.choice([15, 15, 14, 16, 1, -1, 30, 32767]) if plan["says"] == "err" else 0
        val = {"ThrottleTimeMs": rng.choice([0, 9]), "ErrorCode": code, "ErrorMessage": B("no" if code else ""), "NodeId": rng.choice([target[0], target[0], -1 if code else 4]),
               "Host": B(target[1]), "Port": target[2]}
        if code and rng.random() < 0.5:
            val["Host"], val["Port"] = [], -1
        ans = pool.answer("FindCoordinatorResponse", ver[10], val)
        if code:
            target = None
    else:
        val = metadata(rng, nodes, names, rng.choice(nodes)[0])
        if plan["op"] == "controller":
            if plan["says"] == "node":
                target = next(n for n in nodes if n[0] == val["ControllerId"])
            elif plan["says"] == "nocontroller":
                val["ControllerId"] = -1
            else:
                val["ControllerId"] = next(i for i in rng.sample(IDS, len(IDS)) if i not in [n[0] for n in nodes])
        if plan["op"] == "leader":
            ts = val["Topics"]["v"]
            t = next(x for x in ts if x["Name"] == B(want))
            t["Partitions"]["v"] = [x for x in t["Partitions"]["v"] if x["PartitionIndex"] != step["part"]]
            if plan["says"] == "notopic":
                ts.remove(t)
            elif plan["says"] != "nopart":
                target = rng.choice(nodes)
                x = {"ErrorCode": 0, "PartitionIndex": step["part"], "LeaderId": target[0], "LeaderEpoch": 1, "ReplicaNodes": SEQ([n[0] for n in nodes]),
                     "IsrNodes": SEQ(rng.choice([[], [n[0] for n in nodes], [n[0] for n in nodes][::-1]])), "OfflineReplicas": SEQ(rng.choice([None, [], [target[0]]]))}
                if plan["says"] == "may":
                    if rng.random() < 0.5:
                        x["ErrorCode"] = rng.choice([9, 5, 29])
                    else:
                        t["ErrorCode"] = rng.choice([5, 29])
                elif plan["says"] == "noleader":
                    x["LeaderId"], target = -1, None
                elif plan["says"] == "nonode":
                    x["LeaderId"], target = next(i for i in rng.sample(IDS, len(IDS)) if i not in [n[0] for n in nodes]), None
                if big:   # very many partitions
                    others = [i for i in rng.sample(range(1000), rng.choice([10, 100, 300])) if i != step["part"]]
                    t["Partitions"]["v"] = [dict(x, PartitionIndex=i, LeaderId=rng.choice(nodes)[0]) for i in others]
                t["Partitions"]["v"].insert(rng.randint(0, len(t["Partitions"]["v"])), x)
                if rng.random() < 0.5 and plan["says"] in ("node", "may"):   # the same partition of other topics is led by others
                    for o in ts:
                        if o is not t and all(y["PartitionIndex"] != step["part"] for y in o["Partitions"]["v"]):
                            o["Partitions"]["v"].append(dict(x, LeaderId=rng.choice(nodes)[0]))
        ans = pool.answer("MetadataResponse", ver[3], val)
    if plan["ask"] == "lost":
        ans["how"] = rng.choice(["eof", "reset", "trunc", "part", "other", "wfault"])
        ans["cut"] = rng.choice([0, 1, 3, 4, 6, 9, 15, 40])
        if ans["how"] == "wfault":
            ans["how"], srv["askcut"] = "eof", rng.choice([0, 1, 4, 12, 30, 37])
        target = None
    srv["ask"] = {str(key): [ans]}
    if target and plan["node"] != "-":
        if plan["op"] == "controller" and ver[3] == 0:
            z = [n for n in nodes if n[0] == 0]
            target = z[0] if z else None
        if target:
            srv, tver = w.visit(target[1], target[2], plan["node"])
            if plan["node"] == "ok":
                return step, tver
    return step, None


def clients(c, pool):
    rng, out = c.rng, []
    r = c.tlc("ClusterGen", "SPECIFICATION Spec\nCONSTANT MaxBoot = %d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % 3)
    plans = [json.loads(p[4:].replace('\\"', '"')) for p in r.prints if p.startswith("GEN ")]
    if len(plans) < 800:
        raise HarnessError("ClusterGen produced %d plans" % len(plans))
    c.extra["spec_generated_plans"] = len(plans)
    rng.shuffle(plans)

    def scenario(ps, big=False):
        w = World(c, pool)
        # servers beyond the ones a plan needs are there, too, and usable
        boot = [w.fresh() for _ in range(max(len(p["boot"]) for p in ps))]
        exact = all(p["ask"] == "-" for p in ps)
        if not exact and rng.random() < 0.5:
            boot += [w.fresh() for _ in range(rng.randint(1, 2))]
        for h, p in boot:
            w.host(h, p)
        steps, held = [], 0
        for p in ps:
            if p["ask"] == "-" and len(p["boot"]) != len(boot):   # "no server is usable" has to mean all of them
                p = dict(p, boot=p["boot"] + [rng.choice(["refuse", "code", "nocommon", "lost"]) for _ in range(len(boot) - len(p["boot"]))])
            step, tver = client_steps(c, w, boot, p, big)
            step["new"] = not steps
            steps.append(step)
            if tver is not None:
                held += 1
                A = [a for a in apis() if a[0] in tver]
                steps.append({"op": "calls", "b": held, "calls": [pool.call(n, k, tver[k], prof=rng.choice([1, 3])) for k, n, m in rng.sample(A, 2)], "par": False})
                if rng.random() < 0.7:
                    steps.append({"op": "close", "b": held})
                    if rng.random() < 0.2:
                        pass
                    held_open = False
        closed = {s["b"] for s in steps if s["op"] == "close"}
        steps += [{"op": "close", "b": b} for b in range(1, held + 1) if b not in closed]
        return w.finish(steps)
    single = plans if c.pid != "C10" else plans[:50]
    for _ in range(1 if not c.thorough else 6):
        out += [scenario([p]) for p in single]
    for _ in range(250 if not c.thorough else 4000):
        out.append(scenario([rng.choice(plans) for _ in range(rng.randint(2, 4))]))
    # long lists of servers, large clusters
    fails = ["refuse", "code", "nocommon", "lost"]
    for _ in range(60 if not c.thorough else 600):
        p = rng.choice(plans)
        k = rng.choice([3, 4, 7, 8, 9, 15, 16, 17])
        out.append(scenario([dict(p, boot=[rng.choice(fails) for _ in range(k)] + p["boot"])]))
    for _ in range(40 if not c.thorough else 400):
        out.append(scenario([rng.choice([p for p in plans if p["ask"] == "ok" and len(p["boot"]) == 1])], big=True))
    # direct connections that fail: nothing is left
    for fate in ("refuse", "code", "nocommon", "lost", "ok") * (6 if not c.thorough else 60):
        w = World(c, pool)
        h, p = w.fresh()
        w.visit(h, p, fate)
        out.append(w.finish([{"op": "direct", "addr": w.addr(h, p)}] + ([{"op": "close", "b": 1}] if fate == "ok" else [])))
    return out


PALG = """SPECIFICATION Spec
CONSTANTS Variant = "%s"
 NBoot = %d
 NOps = %d
INVARIANTS Allowed NoLeak
PROPERTIES Ends
CHECK_DEADLOCK FALSE
"""


def parallel_scenarios(c, pool):
    """Several operations of one client at the same time."""
    rng, out = c.rng, []
    for _ in range(260 if not c.thorough else 4000):
        w, ops = World(c, pool), []
        boot = [w.fresh() for _ in range(rng.choice([1, 1, 2, 2, 3]))]
        ver = {3: rng.randint(1, 9), 10: rng.randint(0, 3)}
        want = tuple(ver)

        def offer(srv, v):
            for o in srv["off"]:
                if o["k"] in ver and o["lo"] <= o["hi"] and srv["hi"] == "ok" and not (o["lo"] > 50 or o["hi"] < 0):
                    o["lo"], o["hi"] = 0, ver[o["k"]]
        for h, p in boot:
            fates = [rng.choice(["ok"] * 6 + ["refuse", "code", "nocommon", "lost"]) for _ in range(rng.randint(0, 4))] + [rng.choice(["ok"] * 5 + ["refuse", "code", "lost"])]
            for f in fates:
                srv, v = w.visit(h, p, f, want)
                if f == "ok":
                    offer(srv, v)
        bare = rng.random() < 0.4   # one question without a word of its own
        for j in range(rng.randint(2, 5)):
            word = "#%d;" % j
            kind = rng.choice(["leader", "leader", "coordinator", "metadata"])
            if bare and j == 0:
                kind, word = rng.choice(["controller", "metadata"]), ""
            names = [rng.choice(NAMES) + word] + (rng.sample(NAMES, rng.randint(0, 2)) if kind != "leader" and word else [])
            nodes = [(i,) + w.fresh() for i in rng.sample(IDS, rng.randint(1, 3))]
            op = {"op": kind, "word": word, "topics": names if kind == "metadata" and word else [], "topic": names[0], "part": rng.choice([0, 1, 5]), "group": "g" + word, "delay": rng.choice([0, 0, 3, 40])}
            target = rng.choice(nodes)
            if kind == "coordinator":
                code = rng.choice([0, 0, 0, 0, 15])
                ans = pool.answer("FindCoordinatorResponse", ver[10], {"ThrottleTimeMs": 0, "ErrorCode": code, "ErrorMessage": [], "NodeId": target[0], "Host": B(target[1]), "Port": target[2]})
                if code:
                    target = None
            else:
                val = metadata(rng, nodes, names, target[0])
                if kind == "leader":
                    t = next(x for x in val["Topics"]["v"] if x["Name"] == B(names[0]))
                    t["Partitions"]["v"] = [x for x in t["Partitions"]["v"] if x["PartitionIndex"] != op["part"]]
                    if rng.random() < 0.9:
                        t["Partitions"]["v"].append({"ErrorCode": 0, "PartitionIndex": op["part"], "LeaderId": target[0], "LeaderEpoch": 1, "ReplicaNodes": SEQ([]), "IsrNodes": SEQ([]), "OfflineReplicas": SEQ(None)})
                    else:
                        target = None
                elif kind == "metadata":
                    target = None
                ans = pool.answer("MetadataResponse", ver[3], val)
            if rng.random() < 0.12:
                ans["how"], ans["cut"], target = rng.choice(["eof", "reset", "trunc", "part", "other"]), rng.choice([0, 1, 3, 4, 6, 9, 15]), None
            op["reply"] = ans
            for n in nodes:
                w.host(n[1], n[2])
            if target:
                srv, tver = w.visit(target[1], target[2], rng.choice(["ok", "ok", "ok", "ok", "refuse", "code", "lost"]))
                k, n, m = rng.choice([a for a in apis() if a[0] in tver])
                op["call"] = pool.call(n, k, tver[k], prof=1)
            else:
                op["call"] = {"api": "Heartbeat", "key": 12, "seed": 1, "prof": 1, "resp": {"how": "ok", "ver": 0, "bytes": [], "val": {}, "cut": 0}}
            ops.append(op)
        for (h, p), host in w.hosts.items():
            if (h, p) not in boot:
                off, ver2 = w.offers((3, 10))
                host["conns"].append(server(off, ask={}))
        x = rng.random()
        sched = {"seed": 1, "at": sorted(rng.sample(range(1, rng.choice([60, 300, 900])), rng.choice([1, 2, 4]))), "long": 1500} if x < 0.4 else \
                {"seed": rng.getrandbits(30), "p": rng.choice([0, 0.02, 0.1, 0.5]), "long": rng.choice([1, 3, 30])}
        out.append({"id": len(out), "boot": [w.addr(h, p) for h, p in boot], "hosts": list(w.hosts.values()), "ops": ops, "sched": sched, "hold": rng.random() < 0.5})
    return out


def overlapping(c, pool, gen):
    q = not c.thorough
    jobs = [lambda: c.model("ParallelAlg", PALG % ("ok", 2, 2), workers=4)]
    if not q:
        jobs.append(lambda: c.model("ParallelAlg", PALG % ("ok", 1, 3), workers=4, timeout=1500, heap="10g"))
    jobs += [lambda v=v, b=b: c.model("ParallelAlg", PALG % (v, b, 2), workers=1, expect_ok=False, count=False) for v, b in (("meta", 1), ("conn", 1), ("index", 2))]
    c.parallel(jobs)
    sc = parallel_scenarios(c, pool)
    pool.fill()
    codec.number(sc)
    binary = c.build("codecdrv", instr=(".",), files=gen)
    res = c.run_driver(binary, "TestParallel", sc)
    c.log("%d scenarios with overlapping operations run" % len(sc))
    c.extra["overlapping_operation_traces"] = len(sc)
    decide(c, sc, res, "ParallelTrace")


# ------------------------------------------------------------------ judging
def decide(c, sc, res, module="ClusterTrace"):
    items = []
    for n, (s, r) in enumerate(zip(sc, res)):
        if "skipped" in r:
            continue
        if "crash" in r or "hang" in r:
            c.violation("%s: %s" % ("crash" if "crash" in r else "endless loop", (r.get("crash") or "")[:700]), {"scenario": s, "result": r})
            continue
        items.append({"ev": r["ev"], "sid": n})
    for it in items:   # keep the judge's input small: the stacks are for the reader
        for e in it["ev"]:
            e.pop("stacks", None)
    own, others = c.judge_own(module, items, size=lambda x: len(x["ev"]) + len(json.dumps(x)) / 2000, deterministic=lambda x: len(x["ev"]) + 1)
    for it in sorted(items, key=lambda x: len(json.dumps(x)))[:: max(1, len(items) // 3)]:
        c.sample({"ev": it["ev"][:12]})
    n = {}
    for it in items:
        for e in it["ev"]:
            n[e["k"]] = n.get(e["k"], 0) + 1
    c.extra["events" if module == "ClusterTrace" else "overlapping_events"] = n
    for _, i, rest in others[:10]:
        c.log("note: a %s violation was seen" % rest)
    for kind, i, rest in own:
        at, e = int(rest.split(" ")[0]), None
        e = items[i]["ev"][at - 1]
        c.violation("event %d is not allowed: %s after %s" % (at, json.dumps(e)[:700], json.dumps(items[i]["ev"][:at - 1])[-700:]),
                    {"scenario": sc[items[i]["sid"]], "trace": items[i], "rejected_event": at})


def run(c):
    design(c)
    types, gen = codec.registry(c)
    binary = c.build("codecdrv", instr=(), files=gen)
    pool = Pool(c, binary)
    sc = {"C09": negotiation, "C10": operations}.get(c.pid, clients)(c, pool)
    pool.fill()
    codec.number(sc)
    c.log("%d scenarios" % len(sc))
    res = c.run_driver(binary, "TestCluster", sc)
    c.log("run")
    decide(c, sc, res)
    if c.pid in ("C17", "C18", "C19") and not c.violations:
        overlapping(c, pool, gen)
    c.assumptions.append("servers are scripted on an in-memory network (DialHook, build tag verif)")
