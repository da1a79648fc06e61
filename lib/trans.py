"""C21: the transport of connections."""
import json, re
import vlib
from vlib import HarnessError

ALG = """SPECIFICATION Spec
CONSTANTS Variant = "%s"
 MaxOpts = %d
INVARIANTS Honoured Outcome
CHECK_DEADLOCK FALSE
"""
CAS = ["A", "B"]
try:
    LOCAL = any(re.match(r"127\.0\.0\.1\s(.*\s)?localhost(\s|$)", l) for l in open("/etc/hosts"))
except OSError:
    LOCAL = False
NAMES = ["kafka.test", "broker.example.com", "b-1"]


def design(c):
    jobs = [lambda: c.model("TransportAlg", ALG % ("ok", 2 if not c.thorough else 4), workers=4)]
    jobs += [lambda v=v: c.model("TransportAlg", ALG % (v, 2), workers=1, expect_ok=False, count=False) for v in ("first", "keepnil", "target", "nodialer", "fallback", "nolimit", "noresolver", "lookup")]
    c.parallel(jobs)
    c.log("design model checked (TransportAlg), defective variants rejected")


def option(rng, s):
    if s[0] == "d":
        return {"o": "dialer", "nil": s == "dnil", "from": {"d1": 11, "d2": 12, "dnil": 1}[s], "refuse": s == "d2" and rng.random() < 0.1, "takes": 0,
                "limit": rng.choice([0, 0, 30]), "names": s != "dnil" and rng.random() < 0.4}
    return {"o": "tls", "nil": s == "tnil", "roots": rng.choice([["A"], ["B"], ["A", "B"], ["A"]]), "skip": rng.random() < 0.12, "sni": rng.choice(["", ""] + NAMES),
            "max": rng.choice([12, 13, 13]), "cert": rng.random() < 0.4}


def final(opts):
    tls = None
    for o in opts:
        if o["o"] == "tls":
            tls = None if o["nil"] else o
    return tls


class Net:
    def __init__(self, rng, names=False):
        self.rng, self.names, self.hosts, self.ips = rng, names, [], set()

    def host(self, kind, tls):
        """A peer of the given class in the eyes of these options; returns its number."""
        rng = self.rng
        while True:
            ip = "127.%d.%d.%d" % (rng.randint(1, 250), rng.randint(0, 250), rng.randint(1, 240))
            if ip not in self.ips:
                break
        self.ips.add(ip)
        p = {"addr": "%s:%d" % (ip, rng.randint(10000, 30000)), "kind": "tls", "name": "", "bounce": rng.choice(["close", "http", "alert", "alert13", "kafka"]), "ca": rng.choice(tls["roots"] if tls else CAS),
             "dns": list(NAMES), "ip": True, "min": 12, "want": False}
        x = rng.random()
        if LOCAL and x > 0.92:
            p["name"], p["addr"] = "localhost", "127.0.0.1:%d" % rng.randint(10000, 30000)
            if rng.random() < 0.8:
                p["dns"].append("localhost")
                p["ip"] = rng.random() < 0.3
        elif x < (0.5 if self.names else 0.02):
            p["name"] = "b%d.broker.test" % len(self.hosts)
            if rng.random() < 0.8:
                p["dns"].append(p["name"])
                p["ip"] = rng.random() < 0.3
        if kind == "fit":
            kind = "tls" if tls else "plain"
        if kind in ("plain", "both"):
            p["kind"] = kind
        elif kind == "broken":
            p["kind"] = rng.choice(["eof", "junk", "junk"])
        elif kind == "untrusted":
            p["ca"] = rng.choice([x for x in ["A", "B", "C"] if not tls or x not in tls["roots"]])
        elif kind == "misnamed":
            p["dns"] = [n for n in NAMES if not tls or n != tls["sni"]] + ["other.test"]
            p["ip"] = False
        elif kind == "strict":
            p["min"], p["want"] = rng.choice([(13, False), (12, True)])
        self.hosts.append(p)
        return len(self.hosts)


def scenarios(c):
    rng, out = c.rng, []
    r = c.tlc("TransportGen", "SPECIFICATION Spec\nCONSTANT MaxOpts = %d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (3 if not c.thorough else 4))
    plans = [json.loads(p[4:].replace('\\"', '"')) for p in r.prints if p.startswith("GEN ")]
    if len(plans) < 1800:
        raise HarnessError("TransportGen produced %d plans" % len(plans))
    c.extra["spec_generated_plans"] = len(plans)
    for p in plans:
        for op in (rng.choice(["connect", "broker"]), rng.choice(["metadata", "leader", "controller", "coordinator"])) * (1 if not c.thorough else 2):
            opts = [option(rng, s) for s in p["opts"]]
            tls = final(opts)
            last = [o for o in opts if o["o"] == "dialer"][-1:]
            net = Net(rng, bool(last) and last[0]["names"])
            it = {"opts": opts, "op": op, "boot": [], "target": 0}
            if op in ("connect", "broker"):
                it["boot"] = [net.host(p["peer"], tls)]
            else:
                x = rng.random()
                if op == "metadata" or x < 0.25:
                    it["boot"] = [net.host(p["peer"], tls)]
                    if rng.random() < 0.5:
                        it["boot"].append(net.host(rng.choice(["fit", "broken", "tls", "plain"]), tls))
                    if op != "metadata":
                        it["target"] = net.host("fit", tls)
                else:
                    it["boot"] = [net.host("fit", tls)]
                    if rng.random() < 0.2:
                        it["boot"].insert(0, net.host(rng.choice(["broken", "misnamed", "untrusted", "plain"]), tls))
                    it["target"] = net.host(p["peer"], tls)
                    if rng.random() < 0.3:
                        net.host("fit", tls)
            it["hosts"] = net.hosts
            out.append(it)
    # dialers that take their time, with and without a limit
    slow = []
    for op in ("connect", "broker", "metadata", "leader", "controller", "coordinator"):
        for secure in (False, True):
            for takes, limit in ((2, 1), (2, 0), (1, 25)):
                slow.append((op, secure, takes, limit))
    slow += [("connect", False, 12, 0), ("connect", True, 12, 0), ("broker", True, 17, 0)]
    first = []
    for op, secure, takes, limit in slow:
        d, t = option(rng, "d1"), option(rng, "t1" if secure else "tnil")
        d.update(takes=takes, limit=limit, refuse=False)
        opts = [d, t]
        rng.shuffle(opts)
        if rng.random() < 0.5:
            opts.insert(0, option(rng, "d2"))
        tls = final(opts)
        net = Net(rng, d["names"])
        it = {"opts": opts, "op": op, "boot": [net.host("fit", tls)], "target": 0}
        if op in ("leader", "controller", "coordinator"):
            it["target"] = net.host("fit", tls)
        it["hosts"] = net.hosts
        first.append(it)
    rng.shuffle(out)
    return first[::-1] + out


def run(c):
    design(c)
    binary = c.build("transdrv", instr=())
    sc = scenarios(c)
    c.log("%d scenarios" % len(sc))
    res = c.run_driver(binary, "TestTransport", sc, hang=60, gomaxprocs=2, async_off=False)
    c.log("run")
    items, n = [], {"ok": 0, "failed": 0, "stuck": 0, "conns": 0, "tls": 0, "plain": 0, "none": 0}
    for k, (s, r) in enumerate(zip(sc, res)):
        if "skipped" in r:
            continue
        if "crash" in r or "hang" in r:
            c.violation("%s: %s" % ("crash" if "crash" in r else "endless loop", (r.get("crash") or "")[:700]), {"scenario": s, "result": r})
            continue
        for o in r["opts"]:
            o["roots"] = o["roots"] or []
        r["sid"] = k
        items.append(r)
        n["stuck" if r["stuck"] else "ok" if r["ok"] else "failed"] += 1
        for x in r["conns"]:
            n["conns"] += 1
            n[x["bytes"]] = n.get(x["bytes"], 0) + 1
    if n["stuck"] > 0:
        c.log("note: %d operations did not return" % n["stuck"])
    c.extra["outcomes"] = n
    for it in items[:: max(1, len(items) // 3)]:
        c.sample(it)
    bad = c.judge("TransportTrace", items, size=lambda x: len(json.dumps(x)), deterministic=lambda x: len(x["opts"]) + len(x["conns"]) + 2)
    for kind, i, rest in bad:
        it, at = items[i], int(rest)
        k = at - len(it["opts"]) - 1
        what = "connection %s" % json.dumps(it["conns"][k]) if k < len(it["conns"]) else "outcome ok=%s (%s)" % (it["ok"], it["err"])
        c.violation("%s is not allowed with options %s and peers %s, operation %s, connections %s" % (what, json.dumps(it["opts"]), json.dumps(it["hosts"]), it["op"], json.dumps(it["conns"])), {"scenario": sc[it["sid"]], "result": it, "rejected": at})
    c.assumptions.append("connections are made over the loopback network; a dialer is recognised by its local address")
