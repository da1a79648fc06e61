"""C11-C16 (and the decoding half of C07): messages, primitives, encoder."""
import glob, json, os, re
import vlib
from vlib import HarnessError

PRIMS = ["Bool", "Int8", "Int16", "Int32", "Int64", "ArrayLength", "String", "NString", "Bytes", "Int32Array", "Int64Array",
         "StringArray", "VarInt", "VarBytes", "VarString", "RecordHeader"]
SQUARE = tuple(range(10, 18))   # every field takes a value of each of eight classes
BIG = (32768, 40000, 65535, 65536, 65537, 131073, 1048576)      # bytes
MANY = (512, 1000, 1024, 4097, 10001, 32768, 65536)             # elements
CFG = "SPECIFICATION TraceSpec\nINVARIANTS Accepted Inv\nCHECK_DEADLOCK FALSE\n"


def schema():
    """Type -> (api index, highest version), read from the specification."""
    text = open(os.path.join(vlib.SPEC, "Schema.tla")).read()
    api = [int(m) for m in re.findall(r"\[key \|-> \d+, name \|-> \"\w+\", max \|-> (\d+)", text)]
    out = {}
    for name, a, body in re.findall(r"^  (\w+) \|-> \[api \|-> (\d+), f \|-> <<(.*)>>\],?$", text, re.M):
        a = int(a)
        out[name] = (a, {"RequestHeader": 2, "ResponseHeader": 1}.get(name) if a == 0 else api[a - 1])
    if len(out) < 200:
        raise HarnessError("cannot read Schema.tla")
    return out


def registry(c):
    """Write the driver's table of message types, as far as the working tree has them."""
    have = {"Encode": set(), "Decode": set(), "Size": set()}
    for f in glob.glob(os.path.join(vlib.REPO, "message", "*.go")):
        if f.endswith("_test.go"):
            continue
        for t, m in re.findall(r"^func \((?:\w+\s+)?\*?(\w+)\) (Encode|Decode|Size)\(", open(f).read(), re.M):
            have[m].add(t)
    types = sorted(t for t in schema() if all(t in s for s in have.values()))
    miss = sorted(set(schema()) - set(types))
    if miss:
        c.log("types without Encode/Decode/Size in this tree:", *miss)
        c.assumptions.append("not checked, absent from the tree: " + " ".join(miss))
    text = "package codecdrv\n\nimport \"github.com/savaki/kafka/message\"\n\nvar registry = map[string]func() msg{\n"
    text += "".join("\t%s: func() msg { return &message.%s{} },\n" % (json.dumps(t), t) for t in types) + "}\n"
    return types, {"codecdrv/registry_gen_test.go": text}


def messages(c, types, kind, per, profiles, cuts=False, n=0):
    """Scenarios for every type and version."""
    sch, out = schema(), []
    for t in types:
        top = t.endswith(("Request", "Response")) or t.endswith("Header")
        for ver in range(sch[t][1] + 1):
            for p in profiles:
                for k in range(1 if p in (0, 1) else per if top else max(1, per // 2)):
                    out.append({"kind": kind, "ty": t, "ver": ver, "prof": p, "seed": c.rng.getrandbits(40), "cuts": cuts, "n": n})
    return out


def large(c, types, kind):
    """Scenarios with one very long array each, for every type that has one."""
    text = open(os.path.join(vlib.SPEC, "Schema.tla")).read()
    fields = {n: re.findall(r'F\("\w+", "(\w+)"', b) + ["Array"] * ('A("' in b) for n, b in re.findall(r"^  (\w+) \|-> \[api \|-> \d+, f \|-> <<(.*)>>\],?$", text, re.M)}
    out = []
    for prof, kinds in ((30, ("Array",)), (31, ("Int32Array", "Int64Array", "StringArray")), (32, ("Bytes",))):
        for t in types:
            if set(kinds) & set(fields[t]):
                out.append({"kind": kind, "ty": t, "ver": schema()[t][1], "prof": prof, "seed": c.rng.getrandbits(40), "cuts": False, "n": 0})
    return out


def number(sc):
    for i, s in enumerate(sc):
        s["id"] = i
    return sc


def protocol_bytes(c, binary, sc):
    """Let the specification encode the values of the scenarios: scenarios of kind proto."""
    vals = c.run_driver(binary, "TestCodec", number([dict(s, kind="val") for s in sc]), confirm=True)
    items, out = [], []
    for s, v in zip(sc, vals):
        for mode in ("strict", "null", "odd"):
            if mode != "strict" and s["prof"] == 2:
                continue
            items.append({"ty": s["ty"], "ver": s["ver"], "val": v["val"], "mode": mode})
            out.append(dict(s, kind="proto", mode=mode))
    for s, b in zip(out, spec_encode(c, items)):
        s["proto"] = b
    return out


def spec_encode(c, items):
    """The bytes the specification assigns to items {ty, ver, val, mode}."""
    k = vlib.NPROC
    out = [None] * len(items)
    parts = [list(range(j, len(items), k)) for j in range(k)]

    def job(ix):
        def run():
            f = c.path("gen.ndjson")
            with open(f, "w") as fh:
                for i in ix:
                    fh.write(json.dumps(items[i]) + "\n")
            r = c.tlc("CodecGen", CFG, env={"TRACE_FILE": f}, workers=1)
            if r.violation:
                raise HarnessError("the specification contradicts itself: " + r.out[-2500:])
            for p in r.prints:
                w = p.split(" ", 2)
                out[ix[int(w[1]) - 1]] = json.loads(w[2])
        return run
    c.parallel([job(p) for p in parts if p])
    if any(b is None for b in out):
        raise HarnessError("CodecGen did not encode every value")
    return out


def known():
    out = {}
    for l in open(os.path.join(vlib.VERIF, "known-findings.txt")):
        m = re.match(r"known: property=(\w+) (\S+) ?(.*)", l)
        if m:
            out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


def decide(c, sc, res):
    items = []
    for n, (s, r) in enumerate(zip(sc, res)):
        if "skipped" in r:
            continue
        if "crash" in r or "hang" in r:
            what = "crash" if "crash" in r else "endless loop"
            c.violation("%s in %s: %s" % (what, json.dumps(s)[:300], (r.get("crash") or "")[:700]), {"scenario": s, "result": r})
            continue
        for it in r["items"]:
            it["sid"] = n
            items.append(it)
    weigh = lambda x: len(x.get("enc", x.get("in", ()))) / 50 + 3
    bad = c.judge("CodecTrace", items, cfg=CFG, deterministic=lambda x: 1, size=weigh)
    kinds = {}
    for it in items:
        kinds[it["kind"]] = kinds.get(it["kind"], 0) + 1
        if len(json.dumps(it)) < 1500 and kinds[it["kind"]] < 3:
            c.sample(it, limit=8)
    c.log("judged", kinds)
    ex = c.extra.setdefault("items", {})
    for k, v in kinds.items():
        ex[k] = ex.get(k, 0) + v
    listed = known().get(c.pid, {})
    found = set()
    for tag, i, rest in bad:
        it = items[i]
        if tag == "KNOWN":
            if c.pid != "C13":
                continue
            if rest in listed:
                found.add(rest + " " + listed[rest])
            else:
                c.violation("protocol gap %s: %s at version %s is not encoded as the protocol requires" % (rest, it["ty"], it["ver"]), {"item": it})
            continue
        if c.pid not in rest.split("+"):
            continue
        c.violation("%s %s: %s" % (it["kind"], it.get("ty", it.get("t", "")), json.dumps(it)[:1200]), {"scenario": sc[it["sid"]], "item": it, "breaks": rest})
    c.known = sorted(set(c.known) | found)
    return items


def run(c):
    q = not c.thorough
    if c.pid == "C16":
        return encoder(c)
    types, gen = registry(c)
    binary = c.build("codecdrv", instr=(), files=gen)
    go = lambda sc: decide(c, number(sc), c.run_driver(binary, "TestCodec", sc, mem=24 << 20, hang=60))
    if c.pid in ("C11", "C12"):
        go(messages(c, types, "msg", 2 if q else 10, (0, 2, 3, 4, 5) + SQUARE) + large(c, types, "msg"))
        if c.pid == "C11" and not c.violations:
            go(primitives(c, raw=False) + batches(c, 3))
    elif c.pid == "C13":
        go(messages(c, types, "msg", 1 if q else 8, (0, 3) + SQUARE) + large(c, types, "msg"))
        if not c.violations:
            go(protocol_bytes(c, binary, messages(c, types, "val", 1 if q else 8, (1, 2, 3, 10, 14) if q else (1, 2, 3, 4, 5) + SQUARE)))
        if not c.violations:
            go(messages(c, types, "raw", 1 if q else 8, (2, 3), n=2 if q else 8))
    elif c.pid == "C15":
        go(messages(c, types, "msg", 1 if q else 8, (0, 2, 3, 5, 10, 12, 14, 16) if q else (0, 1, 2, 3, 5) + SQUARE, cuts=True))
        if not c.violations:
            go(messages(c, types, "raw", 1 if q else 8, (3,), n=3 if q else 8))
        if not c.violations:
            go(primitives(c, raw=True))
    elif c.pid == "C14":
        go(primitives(c, raw=True))
    elif c.pid == "C20":
        go(batches(c))
    elif c.pid == "C07":
        go(messages(c, types, "raw", 1 if q else 10, (1, 2, 3, 5), n=4 if q else 12))
        if not c.violations:
            go(primitives(c, raw=True))
    c.extra["types"] = len(types)
    c.extra["type_versions"] = sum(schema()[t][1] + 1 for t in types)


def batches(c, part=1):
    return [{"kind": "batch", "prof": p, "seed": c.rng.getrandbits(40)} for p, k in ((0, 6000), (1, 60), (2, 90), (3, 16), (4, 24)) for _ in range((k if not c.thorough else 12 * k) // part)]


def primitives(c, raw):
    q, out = not c.thorough, []
    for t in PRIMS:
        if t not in ("NString", "Int32Array", "Int64Array", "StringArray", "RecordHeader", "ArrayLength"):
            out.append({"kind": "prim", "ty": t, "prof": 9, "seed": c.rng.getrandbits(40)})
        for k in range(10 if q else 60):
            out.append({"kind": "prim", "ty": t, "prof": 0, "n": 25, "seed": c.rng.getrandbits(40)})
        out.append({"kind": "prim", "ty": t, "prof": 1, "n": 4 if q else 40, "seed": c.rng.getrandbits(40)})
        if raw:
            for k in range(8 if q else 60):
                out.append({"kind": "praw", "ty": t, "n": 40, "seed": c.rng.getrandbits(40)})
    for t, sizes in (("Bytes", BIG), ("VarBytes", BIG), ("VarString", BIG), ("RecordHeader", BIG[::3]), ("Int32Array", MANY), ("Int64Array", MANY), ("StringArray", MANY[::2])):
        for n in (sizes if not q else (sizes[-2],) + tuple(c.rng.sample(sizes, 2))):
            out.append({"kind": "prim", "ty": t, "prof": 8, "n": n, "seed": c.rng.getrandbits(40)})
    for n in (32766, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 65600, 70000, 131072):
        out.append({"kind": "toolong", "n": n})
    return out


ALG = """SPECIFICATION Spec
CONSTANTS Cap = %d
 MaxPut = %d
 Variant = "%s"
INVARIANTS Prefix NothingAfter Sticky Complete
CHECK_DEADLOCK FALSE
"""


def encoder(c):
    """C16: programs of puts and flushes on a stream that fails at every possible byte."""
    q = not c.thorough
    c.model("EncoderAlg", ALG % (3, 6 if q else 9, "ok"))
    c.parallel([lambda v=v: c.model("EncoderAlg", ALG % (3, 5, v), workers=2, expect_ok=False, count=False) for v in ("forget", "goon", "early")])
    types, gen = registry(c)
    binary = c.build("codecdrv", instr=(), files=gen)
    sc = []

    def prog(kinds, n, prof=0):
        ops = []
        for _ in range(n):
            ops.append({"o": c.rng.choice(kinds), "seed": c.rng.getrandbits(40), "prof": prof})
            if c.rng.random() < 0.25:
                ops.append({"o": "flush"})
        return ops + [{"o": "flush"}, {"o": c.rng.choice(kinds), "seed": c.rng.getrandbits(40)}, {"o": "flush"}, {"o": "flush"}]
    # every primitive, a fault after every byte of its encoding, unbuffered and buffered
    for t in PRIMS:
        for k in range(3 if q else 20):
            ops = [{"o": "Int16", "seed": k}, {"o": t, "seed": c.rng.getrandbits(40)}, {"o": "flush"}, {"o": t, "seed": c.rng.getrandbits(40)}, {"o": "flush"},
                   {"o": "Int32", "seed": 5}, {"o": "flush"}, {"o": "flush"}]
            for fault in range(-1, 26 if q else 60):
                for buf in (0, -1, 16, 64) if q else (0, -1, 16, 17, 32, 64, 4096):
                    sc.append({"kind": "prog", "ops": ops, "fault": fault, "buf": buf})
    for k in range(500 if q else 6000):
        kinds = c.rng.sample(PRIMS, c.rng.randint(1, 6)) + (["toolong"] if c.rng.random() < 0.15 else [])
        sc.append({"kind": "prog", "ops": prog(kinds, c.rng.randint(1, 12), c.rng.choice([0, 0, 0, 1])), "fault": c.rng.choice([-1, 0, 1, 2, 3, c.rng.randint(0, 40), c.rng.randint(0, 300), c.rng.randint(0, 3000)]),
                   "buf": c.rng.choice([0, 0, -1, 16, 17, 64, 512, 4096])})
    if q:
        c.rng.shuffle(sc)
        sc = sc[:6000]
    res = c.run_driver(binary, "TestCodec", number(sc))
    items = []
    for n, (s, r) in enumerate(zip(sc, res)):
        if "skipped" in r:
            continue
        if "crash" in r or "hang" in r:
            c.violation("encoder failed: %s" % (r.get("crash") or "hang")[:600], {"scenario": s, "result": r})
            continue
        items.append({"ev": r["items"][0]["ev"], "sid": n})
    ok = set()

    def job(ix):
        def run():
            f = c.path("prog.ndjson")
            with open(f, "w") as fh:
                for i in ix:
                    fh.write(json.dumps({"ev": items[i]["ev"]}) + "\n")
            r = c.tlc("EncoderTrace", "SPECIFICATION TraceSpec\nINVARIANT Done\nCHECK_DEADLOCK FALSE\n", env={"TRACE_FILE": f}, workers=1)
            for p in r.prints:
                if p.startswith("OUT "):
                    ok.add(ix[int(p.split()[1]) - 1])
        return run
    k = vlib.NPROC
    c.parallel([job(list(range(j, len(items), k))) for j in range(k) if j < len(items)])
    c.traces += len(items)
    c.log("%d encoder programs judged" % len(items))
    for it in items[:2]:
        c.sample(it)
    for i, it in enumerate(items):
        if i not in ok:
            c.violation("the stream and the flush results contradict the encoder specification: " + json.dumps(it["ev"])[:1200], {"scenario": sc[it["sid"]], "trace": it})
