"""Runs the real pack() and unpackPacket() on packets and bytes; TraceCodec judges what they did.

A packet is the record of spec/Codec.tla: strings and binary data as lists of bytes.
"""
import json, os, random, signal, sys, traceback

PROPS = {1: "PayloadFormatIndicator", 2: "MessageExpiryInterval", 3: "ContentType", 8: "ResponseTopic", 9: "CorrelationData",
         11: "SubscriptionIdentifier", 17: "SessionExpiryInterval", 18: "AssignedClientIdentifier", 19: "ServerKeepAlive",
         21: "AuthenticationMethod", 22: "AuthenticationData", 23: "RequestProblemInformation", 24: "WillDelayInterval",
         25: "RequestResponseInformation", 26: "ResponseInformation", 28: "ServerReference", 31: "ReasonString", 33: "ReceiveMaximum",
         34: "TopicAliasMaximum", 35: "TopicAlias", 36: "MaximumQoS", 37: "RetainAvailable", 38: "UserProperty", 39: "MaximumPacketSize",
         40: "WildcardSubscriptionAvailable", 41: "SubscriptionIdentifierAvailable", 42: "SharedSubscriptionAvailable"}
U8 = (1, 23, 25, 36, 37, 40, 41, 42)
U16 = (19, 33, 34, 35)
U32 = (2, 17, 24, 39)
BIN = (9, 22)
CLASS = {"CONNECT": "Connects", "CONNACK": "Connacks", "PUBLISH": "Publishes", "PUBACK": "Pubacks", "PUBREC": "Pubrecs", "PUBREL": "Pubrels",
         "PUBCOMP": "Pubcomps", "SUBSCRIBE": "Subscribes", "SUBACK": "Subacks", "UNSUBSCRIBE": "Unsubscribes", "UNSUBACK": "Unsubacks",
         "PINGREQ": "Pingreqs", "PINGRESP": "Pingresps", "DISCONNECT": "Disconnects", "AUTH": "Auths"}
TYPE = {v: k for k, v in CLASS.items()}
ACKS = ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP")


def lst(x):
    return [] if x is None else list(x if isinstance(x, (bytes, bytearray)) else x.encode("utf-8"))


def text(x):
    return bytes(x).decode("utf-8")


def bit(x):
    return 1 if x else 0


class Codec:
    def __init__(self, ver):
        self.ver = ver
        if ver == 5:
            from mqtt.formats.MQTTV5 import MQTTV5 as m
        elif ver == 4:
            from mqtt.formats.MQTTV311 import MQTTV311 as m
        else:
            from mqtt.formats.MQTTSN import MQTTSN as m
        self.m = m

    # ---- real object -> record
    def props(self, pr):
        out = []
        for i, name in PROPS.items():
            if not hasattr(pr, name):
                continue
            v = getattr(pr, name)
            for x in (v if i in (11, 38) and isinstance(v, list) else [v]):
                if i in U8 or i in U16 or i == 11:
                    out.append([i, [int(x)]])
                elif i in U32:
                    out.append([i, list(int(x).to_bytes(4, "big"))])
                elif i == 38:
                    k = lst(x[0])
                    out.append([i, [len(k)] + k + lst(x[1])])
                else:
                    out.append([i, lst(x)])
        return out

    def view(self, p, more=0):
        t = TYPE[type(p).__name__]
        v5 = self.ver == 5
        if self.ver == 0:
            if t == "CONNACK":
                return {"t": t, "rc": p.ReturnCode}
            f = p.Flags
            fl = {"dup": bit(f.DUP), "q": 3 if f.QoS == -1 else f.QoS, "r": bit(f.RETAIN), "will": bit(f.Will), "clean": bit(f.CleanSession), "tit": f.TopicIdType}
            if t == "CONNECT":
                return {"t": t, "fl": fl, "pid": p.ProtocolId, "dur": p.Duration, "cid": lst(p.ClientId)}
            return {"t": t, "fl": fl, "tid": p.TopicId, "mid": p.MsgId, "data": lst(p.Data)}
        ident = (lambda: p.packetIdentifier) if v5 else (lambda: p.messageIdentifier)
        pr = (lambda: self.props(p.properties)) if v5 else (lambda: [])
        if t == "CONNECT":
            return {"t": t, "clean": bit(p.CleanStart if v5 else p.CleanSession), "ka": p.KeepAliveTimer, "pr": pr(), "cid": lst(p.ClientIdentifier),
                    "wf": bit(p.WillFlag), "wq": int(p.WillQoS), "wr": bit(p.WillRETAIN), "wpr": self.props(p.WillProperties) if v5 and p.WillFlag else [],
                    "wt": lst(p.WillTopic) if p.WillFlag else [], "wm": lst(p.WillMessage) if p.WillFlag else [],
                    "uf": bit(p.usernameFlag), "user": lst(p.username) if p.usernameFlag else [],
                    "pf": bit(p.passwordFlag), "pass": lst(p.password) if p.passwordFlag else []}
        if t == "CONNACK":
            return {"t": t, "sp": bit(p.sessionPresent) if v5 else p.flags, "rc": p.reasonCode.value if v5 else p.returnCode, "pr": pr()}
        if t == "PUBLISH":
            d = lst(p.data)
            return {"t": t, "dup": bit(p.fh.DUP), "q": p.fh.QoS, "r": bit(p.fh.RETAIN), "topic": lst(p.topicName), "id": ident() if p.fh.QoS else 0,
                    "pr": pr(), "pay": d[:len(d) - more], "more": more}
        if t in ACKS:
            return {"t": t, "id": ident(), "rc": p.reasonCode.value if v5 else 0, "pr": pr()}
        if t == "SUBSCRIBE":
            return {"t": t, "id": ident(), "pr": pr(), "subs": [{"f": lst(a), "o": {
                "q": o.QoS if v5 else o, "nl": bit(o.noLocal) if v5 else 0, "rap": bit(o.retainAsPublished) if v5 else 0,
                "rh": o.retainHandling if v5 else 0}} for a, o in p.data]}
        if t == "UNSUBSCRIBE":
            return {"t": t, "id": ident(), "pr": pr(), "fs": [lst(a) for a in (p.topicFilters if v5 else p.data)]}
        if t in ("SUBACK", "UNSUBACK"):
            return {"t": t, "id": ident(), "pr": pr(), "rcs": [x.value for x in p.reasonCodes] if v5 else list(p.data) if t == "SUBACK" else []}
        if t in ("DISCONNECT", "AUTH"):
            return {"t": t, "rc": p.reasonCode.value if v5 else 0, "pr": pr()}
        return {"t": t}

    # ---- record -> real object
    def setprops(self, o, ps):
        for i, v in ps:
            if i in U8 or i in U16 or i == 11:
                x = v[0]
            elif i in U32:
                x = int.from_bytes(bytes(v), "big")
            elif i == 38:
                x = (text(v[1:1 + v[0]]), text(v[1 + v[0]:]))
            elif i in BIN:
                x = bytes(v)
            else:
                x = text(v)
            setattr(o, PROPS[i], x)

    def code(self, p, rc, prev=None):
        pt = getattr(self.m.PacketTypes, p)
        r = self.m.ReasonCodes(pt, {"SUBACK": "Granted QoS 0", "DISCONNECT": "Normal disconnection"}.get(p, "Success"))
        r.value = rc
        return r

    def build(self, r):
        m, t, v5 = self.m, r["t"], self.ver == 5
        p = getattr(m, CLASS[t])()
        if self.ver == 0:
            if t == "CONNACK":
                p.ReturnCode = r["rc"]
                return p
            f, x = p.Flags, r["fl"]
            f.DUP, f.QoS, f.RETAIN, f.Will, f.CleanSession, f.TopicIdType = bool(x["dup"]), -1 if x["q"] == 3 else x["q"], bool(x["r"]), \
                bool(x["will"]), bool(x["clean"]), x["tit"]
            if t == "CONNECT":
                p.ProtocolId, p.Duration, p.ClientId = r["pid"], r["dur"], text(r["cid"])
            else:
                p.TopicId, p.MsgId, p.Data = r["tid"], r["mid"], bytes(r["data"])
            return p
        if "id" in r:
            if v5:
                p.packetIdentifier = r["id"]
            else:
                p.messageIdentifier = r["id"]
        if v5 and r.get("pr"):
            self.setprops(p.properties, r["pr"])
        if t == "CONNECT":
            setattr(p, "CleanStart" if v5 else "CleanSession", bool(r["clean"]))
            p.KeepAliveTimer, p.ClientIdentifier = r["ka"], text(r["cid"])
            if r["wf"]:
                p.WillFlag, p.WillQoS, p.WillRETAIN = True, r["wq"], r["wr"]
                p.WillTopic, p.WillMessage = text(r["wt"]), bytes(r["wm"])
                if v5:
                    self.setprops(p.WillProperties, r["wpr"])
            if r["uf"]:
                p.usernameFlag, p.username = True, text(r["user"])
            if r["pf"]:
                p.passwordFlag, p.password = True, bytes(r["pass"])
        elif t == "CONNACK":
            if v5:
                p.sessionPresent, p.reasonCode = bool(r["sp"]), self.code(t, r["rc"])
            else:
                p.flags, p.returnCode = r["sp"], r["rc"]
        elif t == "PUBLISH":
            p.fh.DUP, p.fh.QoS, p.fh.RETAIN = bool(r["dup"]), r["q"], bool(r["r"])
            p.topicName, p.data = text(r["topic"]), bytes(r["pay"]) + b"x" * r["more"]
        elif t in ACKS and v5:
            p.reasonCode = self.code(t, r["rc"])
        elif t == "SUBSCRIBE":
            p.data = [(text(x["f"]), m.SubscribeOptions(x["o"]["q"], bool(x["o"]["nl"]), bool(x["o"]["rap"]), x["o"]["rh"]) if v5 else x["o"]["q"])
                      for x in r["subs"]]
        elif t == "UNSUBSCRIBE":
            setattr(p, "topicFilters" if v5 else "data", [text(x) for x in r["fs"]])
        elif t in ("SUBACK", "UNSUBACK"):
            if v5:
                p.reasonCodes = [self.code(t, x) for x in r["rcs"]]
            elif t == "SUBACK":
                p.data = list(r["rcs"])
        elif t in ("DISCONNECT", "AUTH") and v5:
            p.reasonCode = self.code(t, r["rc"])
        return p

    # ---- cases
    def pack(self, name, rec):
        try:
            p = self.build(rec)
            b = p.pack()
        except TimeUp:
            raise
        except Exception:
            return {"name": name, "fail": "pack of %s failed:\n%s" % (short(rec), traceback.format_exc()[-800:])}
        more = rec.get("more", 0)
        if more and b[-more:] != b"x" * more:
            return {"name": name, "fail": "pack of %s: payload altered" % short(rec)}
        case = {"name": name, "do": "pack", "ver": self.ver, "b": list(b[:len(b) - more]), "more": more, "pkt": rec, "ok": True}
        try:
            q = self.m.unpackPacket(bytes(b))
            back = self.view(q, more)
            if back != rec:
                return {"name": name, "fail": "unpack(pack(p)) is not p: %s became %s" % (short(rec), short(back))}
            if not (p == q) or not (q == p):
                return {"name": name, "fail": "unpack(pack(p)) == p is false for %s" % short(rec)}
        except TimeUp:
            raise
        except Exception:
            return {"name": name, "fail": "unpack of the packed %s failed:\n%s" % (short(rec), traceback.format_exc()[-800:])}
        return case

    def unpack(self, name, b):
        case = {"name": name, "do": "unpack", "ver": self.ver, "b": list(b), "more": 0, "pkt": {}, "ok": False}
        try:
            q = self.m.unpackPacket(bytes(b))
        except TimeUp:
            raise
        except Exception:
            return case
        if q is None:
            return case
        try:
            case["pkt"] = self.view(q)
        except TimeUp:
            raise
        except Exception:
            return {"name": name, "fail": "unpack of %s gave a packet that cannot be read:\n%s" % (bytes(b).hex(), traceback.format_exc()[-600:])}
        case["ok"] = True
        return case


class TimeUp(Exception):
    pass


def short(r):
    return str(r)[:700]


# ---- random packets
ALLOWED = {"CONNECT": (17, 21, 22, 23, 25, 33, 34, 38, 39), "CONNACK": (17, 18, 19, 21, 22, 26, 28, 31, 33, 34, 36, 37, 38, 39, 40, 41, 42),
           "PUBLISH": (1, 2, 3, 8, 9, 11, 35, 38), "WILL": (1, 2, 3, 8, 9, 24, 38), "SUBSCRIBE": (11, 38), "UNSUBSCRIBE": (38,),
           "DISCONNECT": (17, 28, 31, 38), "AUTH": (21, 22, 31, 38)}
R5 = {"CONNACK": [0] + list(range(128, 139)) + [140, 144, 149, 151, 153, 154, 155, 156, 157, 159],
      "PUBACK": [0, 16, 128, 131, 135, 144, 145, 151, 153], "PUBREC": [0, 16, 128, 131, 135, 144, 145, 151, 153],
      "PUBREL": [0, 146], "PUBCOMP": [0, 146], "SUBACK": [0, 1, 2, 128, 131, 135, 143, 145, 151, 158, 161, 162],
      "UNSUBACK": [0, 17, 128, 131, 135, 143, 145], "DISCONNECT": [0, 4, 128, 129, 130, 131, 135, 137, 139, 141, 142, 143, 144] + list(range(147, 163)),
      "AUTH": [0, 24, 25]}
EDGE = (0, 1, 2, 126, 127, 128, 129, 255, 256, 257)
CHARS = "ab/xyz 09éñß€中文😀\u07ff\u0800\uffff\ud7ff\ue000\U00010000\U0010ffff\x01\x7f\u0080\ufeff"


class Rand:
    def __init__(self, seed, ver):
        self.r, self.ver = random.Random(seed), ver

    def n(self, big=False):
        r = self.r
        if big and r.random() < 0.02:
            return r.choice((65535, 65534, 16383, 16384, 4096))
        return r.choice(EDGE) if r.random() < 0.15 else r.randrange(0, 12)

    def s(self, nonempty=False, nowild=True):
        x = lst("".join(self.r.choice(CHARS) for _ in range(min(self.n(), 300))))
        if self.r.random() < 0.004:
            x = [97] * self.r.choice((65535, 65534, 16384))
        x = x[:65535] if len(x) <= 65535 else [97] * 65535
        return x if x or not nonempty else [97]

    def b(self):
        return [self.r.randrange(256) for _ in range(self.n())]

    def u16(self, zero=True):
        return self.r.choice((0 if zero else 1, 1, 127, 128, 255, 256, 65535, self.r.randrange(1, 65536)))

    def props(self, pk):
        r = self.r
        if self.ver != 5 or r.random() < 0.3:
            return []
        allowed = ALLOWED.get(pk, (31, 38))
        ids = [i for i in allowed if r.random() < r.choice((0.2, 0.5, 0.9))]
        out = []
        for i in ids:
            many = 1 if i not in (38,) and not (i == 11 and pk == "PUBLISH") else r.choice((1, 1, 2, 3))
            for _ in range(many):
                if i in U8:
                    v = [r.randrange(2)]
                elif i in U16:
                    v = [self.u16(False)]
                elif i in U32:
                    v = list(r.choice((1, 255, 256, 65536, 2 ** 24, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, r.randrange(1, 2 ** 32))).to_bytes(4, "big"))
                elif i == 11:
                    v = [r.choice((1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, r.randrange(1, 2 ** 28)))]
                elif i == 38:
                    k = self.s()
                    v = [len(k)] + k + self.s()
                elif i in BIN:
                    v = self.b()
                else:
                    v = self.s(nonempty=i == 8)
                out.append([i, v])
        if any(i == 22 for i, _ in out) and not any(i == 21 for i, _ in out):
            out = [x for x in out if x[0] != 22]
        return out

    def packet(self, big=True):
        r, v5 = self.r, self.ver == 5
        if self.ver == 0:
            fl = {"dup": r.randrange(2), "q": r.randrange(4), "r": r.randrange(2), "will": r.randrange(2), "clean": r.randrange(2), "tit": r.randrange(4)}
            t = r.choice(("CONNECT", "CONNACK", "PUBLISH", "PUBLISH"))
            if t == "CONNECT":
                return {"t": t, "fl": fl, "pid": r.choice((1, 0, 255)), "dur": self.u16(), "cid": self.s()[:65000]}
            if t == "CONNACK":
                return {"t": t, "rc": r.randrange(256)}
            d = self.b() if r.random() < 0.6 else [r.randrange(256) for _ in range(r.choice((244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 1000, 65000)))]
            return {"t": t, "fl": fl, "tid": self.u16(), "mid": self.u16(), "data": d}
        t = r.choice(["CONNECT"] * 3 + ["PUBLISH"] * 3 + ["SUBSCRIBE"] * 2 + [x for x in CLASS if x != "AUTH" or v5])
        pr = self.props(t)
        if t == "CONNECT":
            wf, uf = r.randrange(2), r.randrange(2)
            pf = r.randrange(2) if v5 or uf else 0
            return {"t": t, "clean": r.randrange(2), "ka": self.u16(), "pr": pr, "cid": self.s(), "wf": wf, "wq": r.randrange(3) if wf else 0,
                    "wr": r.randrange(2) if wf else 0, "wpr": self.props("WILL") if wf else [], "wt": self.s(True) if wf else [],
                    "wm": self.b() if wf else [], "uf": uf, "user": self.s() if uf else [], "pf": pf, "pass": self.b() if pf else []}
        if t == "CONNACK":
            sp = r.randrange(2)
            return {"t": t, "sp": sp, "rc": 0 if sp else r.choice(R5[t] if v5 else range(6)), "pr": pr}
        if t == "PUBLISH":
            q = r.randrange(3)
            more = r.choice((0,) * 60 + (16000, 16384, 2097000, 2097152, 2097151)) if big else 0
            return {"t": t, "dup": r.randrange(2) if q else 0, "q": q, "r": r.randrange(2), "topic": self.s(True), "id": self.u16(False) if q else 0,
                    "pr": pr, "pay": self.b(), "more": more}
        if t in ACKS:
            return {"t": t, "id": self.u16(False), "rc": r.choice(R5[t]) if v5 else 0, "pr": pr}
        if t == "SUBSCRIBE":
            return {"t": t, "id": self.u16(False), "pr": pr, "subs": [{"f": self.s(True), "o": {
                "q": r.randrange(3), "nl": r.randrange(2) if v5 else 0, "rap": r.randrange(2) if v5 else 0, "rh": r.randrange(3) if v5 else 0}}
                for _ in range(r.choice((1, 1, 2, 3, 8)))]}
        if t == "UNSUBSCRIBE":
            return {"t": t, "id": self.u16(False), "pr": pr, "fs": [self.s(True) for _ in range(r.choice((1, 1, 2, 3, 8)))]}
        if t in ("SUBACK", "UNSUBACK"):
            n = r.choice((1, 1, 2, 3, 130))
            return {"t": t, "id": self.u16(False), "pr": pr, "rcs": [r.choice(R5[t] if v5 else (0, 1, 2, 128)) for _ in range(n)] if v5 or t == "SUBACK" else []}
        if t in ("DISCONNECT", "AUTH"):
            return {"t": t, "rc": r.choice(R5[t]) if v5 else 0, "pr": pr}
        return {"t": t}

    # ---- bytes that are nearly a packet
    def mutate(self, b):
        r = self.r
        b = bytearray(b)
        # split off the fixed header
        i = 1
        while b[i] & 128:
            i += 1
        head, body = b[0], b[i + 1:]
        fix = r.random() < 0.8       # keep the remaining length right
        left = len(body)
        for _ in range(r.choice((1, 1, 1, 2, 3))):
            x = r.randrange(14)
            k = r.randrange(len(body)) if body else 0
            if x == 0:
                body = body[:k]
            elif x == 1:
                body += bytes(r.randrange(256) for _ in range(r.randrange(1, 4)))
            elif x == 2 and body:
                body[k] = r.randrange(256)
            elif x == 3 and body:
                body[k] ^= 1 << r.randrange(8)
            elif x == 4 and body:
                del body[k]
            elif x == 5:
                body.insert(k, r.choice((0, 1, 255, 128, r.randrange(256))))
            elif x == 6:
                head = (head & 0xF0) | r.randrange(16)
            elif x == 7:
                head = r.randrange(256)
            elif x == 8 and body:
                j = r.randrange(k, len(body)) + 1
                body = body[:k] + body[k:j] * 2 + body[j:]
            elif x == 9 and body:
                body[k:k] = r.choice((b"\xc0\x80", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\x00", b"\xff", b"\xf4\x90\x80\x80", b"\xe0\x80\x80", b"\xf0\x80\x80\x80", b"\xc3", b"\x80", b"\xe2\x82"))
            elif x == 10 and len(body) > 3:      # a length prefix a little off
                body[min(k, 12, len(body) - 1)] = (body[min(k, 12, len(body) - 1)] + r.choice((1, 255, 2))) & 255
            elif x == 11 and self.ver == 5:      # some property put somewhere
                body[k:k] = bytes(r.choice(([1, 1], [35, 0, 1], [11, 1], [38, 0, 0, 0, 0], [31, 0, 1, 97], [17, 0, 0, 0, 1], [2, 0, 0, 0, 1], [43, 0], [0], [36, 2])))
            elif x == 12 and self.ver == 5 and body:   # a property length that grows with what is added
                extra = bytes(r.choice(([1, 1], [1, 2], [35, 0, 1], [11, 1], [11, 0], [38, 0, 0, 0, 0], [31, 0, 1, 97], [17, 0, 0, 0, 1], [2, 0, 0, 0, 1], [43, 0], [36, 1], [33, 0, 1])))
                n = body[k]
                if n + len(extra) < 128 and k + 1 + n <= len(body):
                    body[k] = n + len(extra)
                    body[k + 1 + n:k + 1 + n] = extra
            elif x == 13:
                fix = not fix
        n = len(body) if fix else max(0, left + r.choice((-1, 0, 1, 5, -2)))
        vbi = bytearray()
        while True:
            n, d = n // 128, n % 128
            vbi.append(d | (128 if n else 0))
            if not n:
                break
        if r.random() < 0.03:        # not the shortest form
            vbi[-1] |= 128
            vbi.append(0)
        if r.random() < 0.01:
            vbi = bytearray(b"\xff\xff\xff\xff\x01")
        out = bytes([head]) + bytes(vbi) + bytes(body)
        # what is longer than the remaining length says is never given to the codec (getPacket cuts it off)
        val, mul, j = 0, 1, 1
        while j < len(out) and j < 5:
            val += (out[j] & 127) * mul
            mul *= 128
            j += 1
            if not out[j - 1] & 128:
                break
        return out[:j + val]


def _alarm(sig, frm):
    raise TimeUp()


def _init(repo):
    sys.path.insert(0, os.path.join(repo, "interoperability"))
    import logging
    logging.disable(logging.CRITICAL)
    traceback.print_exc = lambda *a, **k: None
    signal.signal(signal.SIGALRM, _alarm)
    sys.stdout = open(os.devnull, "w")


def work(job):
    kind, name, ver, arg = job
    c = Codec(ver)
    out = []
    signal.alarm(60)
    try:
        if kind == "spec":      # packets of the specification: {pkt, b, long}
            for j, x in enumerate(arg):
                out.append(c.pack("%s.%d.p" % (name, j), x["pkt"]))
                out.append(dict(c.unpack("%s.%d.u" % (name, j), x["b"]), want=True))
                if x["long"] != x["b"]:
                    out.append(dict(c.unpack("%s.%d.l" % (name, j), x["long"]), want=True))
        elif kind == "bytes":
            for j, b in enumerate(arg):
                out.append(c.unpack("%s.%d" % (name, j), b))
        elif kind == "random":
            for j in range(arg[1]):
                g = Rand(arg[0] + j, ver)
                out.append(c.pack("%s.%d" % (name, j), g.packet()))
        elif kind == "mutant":
            j = 0
            while j < arg[1]:
                g = Rand(arg[0] + j, ver)
                try:
                    rec = g.packet(big=False)
                    b = c.build(rec).pack()
                except TimeUp:
                    raise
                except Exception:
                    j += 1
                    continue
                if len(b) < 400:
                    for n in range(4):
                        out.append(c.unpack("%s.%d.%d" % (name, j, n), g.mutate(b)))
                j += 1
    except TimeUp:
        out.append({"name": name, "fail": "unpacking or packing did not end (ver %d, after %d cases of %s)" % (ver, len(out), name)})
    finally:
        signal.alarm(0)
    return out


def run(jobs, procs=8):
    import multiprocessing as mp
    with mp.get_context("spawn").Pool(procs, _init, (os.environ.get("VP_REPO", "/repo"),)) as p:
        return [x for r in p.imap(work, jobs) for x in r]
