"""An MQTT 3.1.1 / 5.0 / SN encoder and decoder of our own (nothing of /repo is used here).

Packets are Python dictionaries in the vocabulary of spec/Broker.tla.  `encode` makes the bytes a
client sends, `decode` turns the bytes a server sends into observed packets.  `decode` is strict:
whatever a conforming client would call malformed becomes a packet of type "GARBAGE", which no
behaviour of the specification contains.
"""
import json, re, struct

NEVER = -2          # session expiry 0xFFFFFFFF
NOLIM = 268435460   # no maximum packet size

TYPES = {1: "CONNECT", 2: "CONNACK", 3: "PUBLISH", 4: "PUBACK", 5: "PUBREC", 6: "PUBREL", 7: "PUBCOMP",
         8: "SUBSCRIBE", 9: "SUBACK", 10: "UNSUBSCRIBE", 11: "UNSUBACK", 12: "PINGREQ", 13: "PINGRESP",
         14: "DISCONNECT", 15: "AUTH"}
CODES = {v: k for k, v in TYPES.items()}

# id: (name, kind)
PROPS = {1: ("pfi", "byte"), 2: ("mexp", "u32"), 3: ("ctype", "utf8"), 8: ("rtopic", "utf8"),
         9: ("cdata", "bin"), 11: ("sid", "varint"), 17: ("sexp", "u32"), 18: ("acid", "utf8"),
         19: ("ska", "u16"), 21: ("authm", "utf8"), 22: ("authd", "bin"), 23: ("rpi", "byte"),
         24: ("wdelay", "u32"), 25: ("rri", "byte"), 26: ("rinfo", "utf8"), 28: ("sref", "utf8"),
         31: ("reason", "utf8"), 33: ("rmax", "u16"), 34: ("tamax", "u16"), 35: ("alias", "u16"),
         36: ("maxqos", "byte"), 37: ("ravail", "byte"), 38: ("user", "pair"), 39: ("mps", "u32"),
         40: ("wavail", "byte"), 41: ("sidavail", "byte"), 42: ("shavail", "byte")}
PIDS = {n: (i, k) for i, (n, k) in PROPS.items()}
ALLOWED = {"CONNACK": {"sexp", "acid", "ska", "authm", "authd", "rinfo", "sref", "reason", "rmax", "tamax",
                       "maxqos", "ravail", "user", "mps", "wavail", "sidavail", "shavail"},
           "PUBLISH": {"pfi", "mexp", "ctype", "rtopic", "cdata", "sid", "alias", "user"},
           "PUBACK": {"reason", "user"}, "PUBREC": {"reason", "user"}, "PUBREL": {"reason", "user"},
           "PUBCOMP": {"reason", "user"}, "SUBACK": {"reason", "user"}, "UNSUBACK": {"reason", "user"},
           "DISCONNECT": {"sexp", "sref", "reason", "user"}}
RCS = {"CONNACK": {0, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 140, 144, 149, 151, 153, 154, 155,
                   156, 157, 159},
       "PUBACK": {0, 16, 128, 131, 135, 144, 145, 151, 153}, "PUBREC": {0, 16, 128, 131, 135, 144, 145, 151, 153},
       "PUBREL": {0, 146}, "PUBCOMP": {0, 146},
       "SUBACK": {0, 1, 2, 128, 131, 135, 143, 145, 151, 158, 161, 162},
       "UNSUBACK": {0, 17, 128, 131, 135, 143, 145},
       "DISCONNECT": {0, 128, 129, 130, 131, 135, 137, 139, 141, 142, 143, 144, 147, 148, 149, 150, 151, 152, 153,
                      154, 155, 156, 157, 158, 159, 160, 161, 162}}


class Bad(Exception):
    pass


def varint(n):
    out = bytearray()
    while True:
        b = n & 127
        n >>= 7
        if n:
            out.append(b | 128)
        else:
            out.append(b)
            return bytes(out)


def u16(n):
    return struct.pack("!H", n)


def utf8(s):
    b = s.encode("utf-8") if isinstance(s, str) else s
    return u16(len(b)) + b


def paybytes(s):
    "the payload; a long one is written as #LENGTH:name# (and filled with something that depends on the position)"
    b = s.encode("latin-1")
    m = LONG.fullmatch(s)
    if m:
        n = int(m[1]) - len(b)
        b += bytes((j * j + j // 251) % 253 for j in range(max(n, 0)))
    return b


LONG = re.compile(r"#(\d{3,6}):\w+#")


def shortpay(b):
    m = LONG.match(b[:40].decode("latin-1")) if b[:1] == b"#" else None
    return m[0] if m and paybytes(m[0]) == b else b.decode("latin-1")


def enc_prop(name, v):
    pid, kind = PIDS[name]
    h = bytes([pid])
    if kind == "byte":
        return h + bytes([v])
    if kind == "u16":
        return h + u16(v)
    if kind == "u32":
        return h + struct.pack("!I", v)
    if kind == "varint":
        return h + varint(v)
    if kind == "utf8":
        return h + utf8(v)
    if kind == "bin":
        b = v.encode("latin-1")
        return h + u16(len(b)) + b
    return h + utf8(v[0]) + utf8(v[1])


def enc_props(plist):
    b = b"".join(enc_prop(n, v) for n, v in plist)
    return varint(len(b)) + b


def app_props(pr):
    "the application properties written as a canonical string -> list of (name, value)"
    return [(n, tuple(v) if isinstance(v, list) else v) for n, v in json.loads(pr)] if pr else []


def app_len(pr):
    return sum(len(enc_prop(n, v)) for n, v in app_props(pr))


def canon(plist):
    "canonical string for application properties: only user properties are ordered among themselves"
    if not plist:
        return ""
    single = sorted([n, v] for n, v in plist if n != "user")
    return json.dumps(single + [["user", list(v)] for n, v in plist if n == "user"], separators=(",", ":"))


def tstr(levels):
    return "/".join(levels)


def fstr(share, levels):
    return ("$share/" + share + "/" if share else "") + "/".join(levels)


def sexp(v):
    return 0xFFFFFFFF if v == NEVER else v


def encode(ev, ver):
    "the bytes of the packet a client event stands for"
    e = ev["e"]
    if e == "CONNECT":
        w = ev.get("will")
        w = w if w and w.get("on") else None
        flags = (2 if ev["clean"] else 0)
        if w:
            flags |= 4 | (w["q"] << 3) | (32 if w["r"] else 0)
        if ev.get("user"):
            flags |= 0x80 | (0x40 if ev.get("pass") else 0)
        b = utf8("MQTT") + bytes([ver, flags]) + u16(ev["ka"])
        if ver == 5:
            pl = []
            if ev["exp"] != 0 or ev.get("expl"):
                pl.append(("sexp", sexp(ev["exp"])))
            if ev["rmax"] != 65535:
                pl.append(("rmax", ev["rmax"]))
            if ev["mps"] != NOLIM:
                pl.append(("mps", ev["mps"]))
            if ev["tamax"] != 0:
                pl.append(("tamax", ev["tamax"]))
            b += enc_props(pl)
        b += utf8(ev["cid"])
        if w:
            if ver == 5:
                pl = []
                if w["delay"] != 0:
                    pl.append(("wdelay", w["delay"]))
                if w["exp"] >= 0:
                    pl.append(("mexp", w["exp"]))
                b += enc_props(pl + app_props(w["pr"]))
            b += utf8(tstr(w["t"])) + u16(len(paybytes(w["pay"]))) + paybytes(w["pay"])
        if ev.get("user"):
            b += utf8(ev["user"]) + (utf8(ev["pass"]) if ev.get("pass") else b"")
        return frame(1, 0, b)
    if e == "PUBLISH":
        b = utf8(tstr(ev["t"]))
        if ev["q"] > 0:
            b += u16(ev["id"])
        if ver == 5:
            pl = []
            if ev["exp"] >= 0:
                pl.append(("mexp", ev["exp"]))
            if ev["al"] >= 0:
                pl.append(("alias", ev["al"]))
            b += enc_props(pl + app_props(ev["pr"]))
        b += paybytes(ev["pay"])
        return frame(3, (8 if ev["d"] else 0) | (ev["q"] << 1) | (1 if ev["r"] else 0), b)
    if e in ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP"):
        b = u16(ev["id"])
        if ver == 5 and (ev["rc"] != 0 or ev.get("long")):
            b += bytes([ev["rc"]]) + (b"\0" if ev.get("long") else b"")
        return frame(CODES[e], 2 if e == "PUBREL" else 0, b)
    if e == "SUBSCRIBE":
        b = u16(ev["id"])
        if ver == 5:
            pl = ([("sid", ev["sid"])] if ev["sid"] > 0 else []) + app_props(ev.get("pr"))
            b += enc_props(pl)
        for x in ev["subs"]:
            b += utf8(fstr(x["share"], x["f"]))
            b += bytes([x["q"] | ((4 if x["nl"] else 0) | (8 if x["rap"] else 0) | (x["rh"] << 4) if ver == 5 else 0)])
        return frame(8, 2, b)
    if e == "UNSUBSCRIBE":
        b = u16(ev["id"])
        if ver == 5:
            b += enc_props([])
        for x in ev["subs"]:
            b += utf8(fstr(x["share"], x["f"]))
        return frame(10, 2, b)
    if e == "PINGREQ":
        return b"\xc0\0"
    if e == "DISCONNECT":
        if ver == 5 and (ev["rc"] != 0 or ev["exp"] != -1):
            b = bytes([ev["rc"]])
            if ev["exp"] != -1:
                b += enc_props([("sexp", sexp(ev["exp"]))])
            return frame(14, 0, b)
        return b"\xe0\0"
    raise Exception("no encoding for " + e)


def frame(ptype, flags, body):
    return bytes([(ptype << 4) | flags]) + varint(len(body)) + body


class Reader:
    def __init__(self, b):
        self.b, self.i = b, 0

    def take(self, n):
        if self.i + n > len(self.b):
            raise Bad("truncated")
        r = self.b[self.i:self.i + n]
        self.i += n
        return bytes(r)

    def u8(self):
        return self.take(1)[0]

    def u16(self):
        return struct.unpack("!H", self.take(2))[0]

    def u32(self):
        return struct.unpack("!I", self.take(4))[0]

    def varint(self):
        n = s = 0
        while True:
            c = self.u8()
            n |= (c & 127) << s
            s += 7
            if not c & 128:
                if len(varint(n)) * 7 != s:
                    raise Bad("varint not minimal")
                return n
            if s >= 28:
                raise Bad("varint too long")

    def utf8(self):
        try:
            r = self.take(self.u16()).decode("utf-8")
        except UnicodeDecodeError:
            raise Bad("invalid utf-8")
        if "\0" in r:
            raise Bad("nul in string")
        return r

    def bin(self):
        return self.take(self.u16()).decode("latin-1")

    def rest(self):
        return self.take(len(self.b) - self.i)

    def end(self):
        return self.i == len(self.b)


def dec_props(r, ptype):
    n = r.varint()
    q = Reader(r.take(n))
    out = []
    while not q.end():
        pid = q.varint()
        if pid not in PROPS:
            raise Bad("unknown property %d" % pid)
        name, kind = PROPS[pid]
        if name not in ALLOWED[ptype]:
            raise Bad("property %s in %s" % (name, ptype))
        if kind == "byte":
            v = q.u8()
            if v > 1:
                raise Bad("bad byte property")
        elif kind == "pair":
            v = (q.utf8(), q.utf8())
        else:
            v = getattr(q, kind)()
        if name not in ("user", "sid") and name in [x for x, y in out]:
            raise Bad("property %s repeated" % name)
        out.append((name, v))
    return out


def blank(p, **kw):
    d = {"p": p, "id": 0, "rc": [], "t": [], "al": 0, "pay": "", "q": 0, "d": 0, "r": 0, "pr": "", "exp": -1,
         "sids": [], "sp": 0, "lim": [], "acid": "", "len": 0}
    d.update(kw)
    return d


APP = ("pfi", "ctype", "rtopic", "cdata", "user")


def parse(raw, ver):
    "one complete packet from a server, strictly -> observed packet"
    h = raw[0]
    r = Reader(raw)
    r.u8()
    n = r.varint()
    if n != len(raw) - r.i:
        raise Bad("length")
    t = TYPES.get(h >> 4)
    fl = h & 15
    if t != "PUBLISH" and fl != (2 if t == "PUBREL" else 0):
        raise Bad("flags")
    o = blank(t, len=len(raw))
    if t == "CONNACK":
        sp = r.u8()
        if sp > 1:
            raise Bad("connack flags")
        o["sp"] = sp
        o["rc"] = [r.u8()]
        if ver == 5:
            pd = dict(dec_props(r, t))
            o["lim"] = [pd.get("rmax", 65535), pd.get("mps", NOLIM), pd.get("tamax", 0), pd.get("ska", -1)]
            if any(n in pd for n in ("sexp", "maxqos", "ravail", "wavail", "sidavail", "shavail", "authm", "authd")):
                o["lim"].append(-99)
            o["acid"] = pd.get("acid", "")
        elif o["rc"][0] > 5:
            raise Bad("connack code")
    elif t == "PUBLISH":
        o["q"], o["d"], o["r"] = (fl >> 1) & 3, fl >> 3, fl & 1
        if o["q"] == 3 or (o["q"] == 0 and o["d"]):
            raise Bad("publish flags")
        topic = r.utf8()
        if "+" in topic or "#" in topic:
            raise Bad("wildcard")
        o["t"] = topic.split("/") if topic else []
        if o["q"] > 0:
            o["id"] = r.u16()
            if o["id"] == 0:
                raise Bad("packet id 0")
        if ver == 5:
            pl = dec_props(r, t)
            for name, v in pl:
                if name == "mexp":
                    o["exp"] = min(v, 2147483647)
                elif name == "alias":
                    if v == 0:
                        raise Bad("alias 0")
                    o["al"] = v
                elif name == "sid":
                    if v == 0:
                        raise Bad("sid 0")
                    o["sids"].append(v)
            o["sids"].sort()
            o["pr"] = canon([x for x in pl if x[0] in APP])
        if not topic and o["al"] == 0:
            raise Bad("no topic")
        o["pay"] = shortpay(r.rest())
    elif t in ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP"):
        o["id"] = r.u16()
        if o["id"] == 0:
            raise Bad("packet id 0")
        rc = 0
        if ver == 5 and not r.end():
            rc = r.u8()
            if not r.end():
                dec_props(r, t)
        o["rc"] = [rc]
    elif t == "SUBACK":
        o["id"] = r.u16()
        if ver == 5:
            pl = dec_props(r, t)
            o["pr"] = canon([x for x in pl if x[0] == "user"])
        o["rc"] = list(r.rest())
        if ver == 4 and any(c not in (0, 1, 2, 128) for c in o["rc"]):
            raise Bad("suback code")
    elif t == "UNSUBACK":
        o["id"] = r.u16()
        if ver == 5:
            pl = dec_props(r, t)
            o["pr"] = canon([x for x in pl if x[0] == "user"])
            o["rc"] = list(r.rest())
    elif t == "PINGRESP":
        pass
    elif t == "DISCONNECT" and ver == 5:
        rc = 0
        if not r.end():
            rc = r.u8()
            if not r.end():
                dec_props(r, t)
        o["rc"] = [rc]
    else:
        raise Bad("packet type %s from a server" % t)
    if not r.end():
        raise Bad("trailing bytes")
    if ver == 5 and t in RCS and any(c not in RCS[t] for c in o["rc"]):
        raise Bad("reason code")
    return o


def split(buf):
    "-> (list of whole packets, rest)"
    out = []
    while len(buf) >= 2:
        n = s = 0
        i = 1
        while True:
            if i >= len(buf):
                return out, buf
            c = buf[i]
            n |= (c & 127) << s
            s += 7
            i += 1
            if not c & 128:
                break
            if s >= 28:
                return out + [bytes(buf)], b""
        if len(buf) < i + n:
            return out, buf
        out.append(bytes(buf[:i + n]))
        buf = buf[i + n:]
    return out, buf


def decode(buf, ver, final=True):
    "all the bytes received -> observed packets (and the incomplete rest unless final)"
    pk, rest = split(bytes(buf))
    out = []
    for raw in pk:
        try:
            out.append(parse(raw, ver))
        except Bad as e:
            out.append(blank("GARBAGE", pay="%s: %s" % (e, raw[:60].hex())))
    if final:
        if rest:
            out.append(blank("GARBAGE", pay="incomplete: %s" % rest[:60].hex()))
        return out
    return out, rest


def parse_sn(raw):
    "one MQTT-SN packet from the gateway"
    if len(raw) == 3 and raw[0] == 3 and raw[1] == 5:
        return blank("SNCONNACK", rc=[raw[2]], len=3)
    return blank("GARBAGE", pay=raw.hex())


# ------------------------------------------------------------------ the HTTP interface
def http_url(ev):
    from urllib.parse import quote
    return "/api/v0001/" + {"client": "clients/" + quote(ev.get("cid", "")), "other": ev.get("cid", "nothing")}.get(ev["pay"], ev["pay"])


def parse_http(ev, rc, text):
    "what the answer lists, as the specification sees it"
    p = {"p": "HTTP", "id": 0, "len": 0, "rc": [rc], "body": []}
    if rc != 200:
        return p
    try:
        d = json.loads(text)
        if ev["pay"] == "retained":
            for t, v in d.items():
                p["body"].append([t.split("/"), v[0], v[1]])
        elif ev["pay"] == "subscriptions":
            for x in d:
                share, f = "", x["topic"]
                if f.startswith("$share/"):
                    share, f = f[7:].split("/", 1)
                p["body"].append([x["clientid"], share, f.split("/"), x.get("qos", -1)])
        else:
            for c, x in (d.items() if ev["pay"] == "clients" else [(ev["cid"], d)]):
                if x["id"] != c:
                    raise ValueError(c)
                p["body"].append([c, x["connected"], x["cleansession"]])
    except (ValueError, TypeError, KeyError, IndexError, AttributeError) as e:
        p.update(rc=[-2], body=[])
    return p
