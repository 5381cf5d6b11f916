"""The checks of the wire formats: the byte-level specification (spec/Codec.tla) against pack() and unpackPacket()."""
import json, random, re, zlib
from concurrent.futures import ThreadPoolExecutor
from . import codec, tlc

INVS = "RoundTrip Cut Longer FlagBits Canonical"
SHAPE = {"quick": dict(random=220, mutants=160, single=260), "thorough": dict(random=4000, mutants=4000, single=6000)}
VERS = {"F01": [5], "F02": [4], "F03": [0], "F04": [5, 4]}


def model(ver, big, write):
    cfg = ("CONSTANTS Ver = %d Write = %s Big = %s\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n"
           % (ver, str(write).upper(), str(big).upper(), INVS))
    rc, text = tlc.tlc("MCCodec", cfg, timeout=500, workers=4, heap="4g")
    gen, dis = tlc.counts(text)
    if not (rc == 0 and "Model checking completed. No error" in text):
        raise tlc.TLCError(text[-4000:])
    return [json.loads(json.loads(m)) for m in re.findall(r'<<"CASE", ("(?:[^"\\]|\\.)*")>>', text)], gen, dis


def corruptions(b, r):
    "every truncation and every change of one byte to a telling value, remaining length kept right or not"
    n, i = 0, 1
    while b[i] & 128:
        i += 1
    i += 1
    body, head = b[i:], b[0]

    def pack(h, x, length=None):
        n, v = len(x) if length is None else length, []
        while True:
            n, d = n // 128, n % 128
            v.append(d | (128 if n else 0))
            if not n:
                break
        return [h] + v + list(x)
    for j in range(len(body)):
        yield pack(head, body[:j])
    for j in range(len(body) + 1):
        yield pack(head, body[:j], len(body))
        yield pack(head, body[:j] + [r.choice((0, 1, 255, 97))] + body[j:])
        if j < len(body):
            yield pack(head, body[:j] + body[j + 1:])
            for v in {0, 1, 2, 3, 127, 128, 192, 255, body[j] ^ 1, (body[j] + 1) & 255, (body[j] - 1) & 255, body[j] ^ 128, body[j] ^ (1 << r.randrange(8))}:
                if v != body[j]:
                    yield pack(head, body[:j] + [v] + body[j + 1:])
    for f in range(16):
        yield pack((head & 0xF0) | f, body)
    for t in range(16):
        yield pack((head & 0x0F) | (t << 4), body)
    yield pack(head, body)[:i]
    if len(body) > 0:
        yield [head] + pack(head, body)[1:i - 1] + [b[i - 1] | 128, 0] + body


def judge(ctx, cases, relevant, label):
    bad = [x for x in cases if "fail" in x]
    for x in bad[:6]:
        ctx.violation("%s: %s" % (x["name"], x["fail"][-1200:]), {"kind": "codec", "case": x})
    good = [x for x in cases if "fail" not in x]
    seen, uniq = set(), []
    for x in good:
        k = (x["do"], x["ver"], bytes(x["b"]), json.dumps(x["pkt"], sort_keys=True) if x["do"] == "pack" else "")
        if k not in seen:
            seen.add(k)
            uniq.append(x)
    parts = [uniq[j:j + 5000] for j in range(0, len(uniq), 5000)]
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda c: tlc.validate("TraceCodec", c, hinted=False, workers=2, heap="3g", timeout=600), parts))
    by = {x["name"]: x for x in uniq}
    rejected = 0
    for rej, gen, dis in res:
        for n, (_, exp) in rej.items():
            x = by[n]
            if not relevant(x, exp):
                continue
            rejected += 1
            if rejected <= 8:
                ctx.violation("%s of MQTT version %d, bytes %s%s\n  code: %s %s\n  specification: %s" % (
                    x["do"], x["ver"], bytes(x["b"]).hex()[:400], " (+%d payload bytes)" % x["more"] if x["more"] else "",
                    "accepted" if x["ok"] else "refused", json.dumps(x["pkt"])[:600], exp[:600]),
                    {"kind": "codec", "case": x, "specification": exp})
    ctx.cases += len(uniq)
    ctx.traces += len(uniq)
    ctx.steps += len(uniq)
    types = {}
    for x in uniq:
        t = x["pkt"].get("t", "refused")
        types[t] = types.get(t, 0) + 1
    ctx.part(label, cases=len(uniq), accepted=sum(1 for x in uniq if x["ok"]), rejected=rejected, **types)
    for x in uniq[:1]:
        ctx.sample({"do": x["do"], "ver": x["ver"], "bytes": bytes(x["b"][:60]).hex(), "packet": str(x["pkt"])[:300]})
    ctx.log(label, len(uniq), "cases;", rejected, "rejected")


def check(ctx):
    p, sh = ctx.prop, SHAPE[ctx.tier]
    r = random.Random(ctx.base("single"))

    def wellformed(x, exp):      # F01-F03: about packets the format knows
        return x["do"] == "pack" or "ok |-> TRUE" in exp

    def malformed(x, exp):       # F04: about bytes the format does not know, and misreading
        return x["do"] == "unpack" and ("ok |-> FALSE" in exp or x["ok"])
    ex = ThreadPoolExecutor(2)
    specs = {v: ex.submit(model, v, ctx.thorough, True) for v in VERS[p]}
    jobs = []
    n = sh["mutants"] if p == "F04" else sh["random"]
    for v in VERS[p]:
        b = ctx.base("random%d" % v)
        for j in range(16):
            if p != "F04":
                jobs.append(("random", "%s-r%d.%d" % (p, v, b + j * 100000), v, (b + j * 100000, n)))
            if v and (p == "F04" or j < 4):
                jobs.append(("mutant", "%s-m%d.%d" % (p, v, b + j * 100000 + 7), v, (b + j * 100000 + 7, n)))
    judge(ctx, codec.run(jobs), wellformed if p != "F04" else malformed, "random packets" if p != "F04" else "random malformations")
    jobs = []
    for v in VERS[p]:
        cs, gen, dis = specs[v].result()
        ctx.states += dis
        ctx.transitions += gen
        ctx.part("specification of version %d" % v, packets=len(cs), states=dis, invariants=INVS, complete=True)
        if p != "F04":
            for i in range(0, len(cs), 400):
                jobs.append(("spec", "%s-s%d.%d" % (p, v, i), v, cs[i:i + 400]))
        else:
            kinds = {}
            for x in cs:
                if len(x["b"]) < 90:
                    kinds.setdefault(x["pkt"]["t"], []).append(x)
            for t in sorted(kinds):
                k = max(3, sh["single"] // 12 // len(kinds))
                pick = r.sample(kinds[t], min(len(kinds[t]), k))
                for j, x in enumerate(pick):
                    jobs.append(("bytes", "%s-c%d.%s.%d" % (p, v, t, j), v, list(corruptions(x["long" if j % 2 else "b"], r))))
    judge(ctx, codec.run(jobs), wellformed if p != "F04" else malformed,
          "packets of the specification" if p != "F04" else "corruptions of packets of the specification")
    ctx.assumptions += ["packets longer than 40000 bytes are judged with their payload's tail left out (its length is kept)",
                        "well-formed packets a receiver has reason to refuse (Odd in Codec.tla: wildcards in topic names, empty topics, receive maximum 0 ...) may be refused or decoded",
                        "the specification's packets are bounded by spec/MCCodec.tla; random packets and corruptions are samples"]
