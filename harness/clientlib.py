"""Runs histories on the real client library against a scripted server on a loopback TCP connection.

TraceClient judges what the library sent and what it told the application.  The end of the library's
reaction is recognised by a PUBREL with an id nobody used, which has to be answered with PUBCOMP.
"""
import json, multiprocessing as mp, os, random, select, signal, socket, struct, sys, threading, time, traceback
from .codec import Codec, Rand, PROPS, U8, U16, U32, BIN, lst, text
from . import tlc

_sleep = time.sleep
PATIENCE = 1


# ---------------------------------------------------------------- bytes the server sends
def vbi(n):
    out = []
    while True:
        n, d = n // 128, n % 128
        out.append(d | (128 if n else 0))
        if not n:
            return out


def enc_props(ps):
    b = []
    for i, v in ps:
        b.append(i)
        if i in U8:
            b += v
        elif i in U16:
            b += list(v[0].to_bytes(2, "big"))
        elif i == 11:
            b += vbi(v[0])
        elif i in U32:
            b += v
        elif i == 38:
            k, w = v[1:1 + v[0]], v[1 + v[0]:]
            b += list(len(k).to_bytes(2, "big")) + k + list(len(w).to_bytes(2, "big")) + w
        else:
            b += list(len(v).to_bytes(2, "big")) + v
    return vbi(len(b)) + b


TYPES = ["", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK",
         "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH"]


def enc(ver, p):
    "a packet record -> bytes (without the `more` payload bytes) and more"
    v5, t, fl, more = ver == 5, p["t"], 0, p.get("more", 0)
    i16 = lambda n: list(n.to_bytes(2, "big"))
    pr = enc_props(p.get("pr", [])) if v5 else []
    if t == "CONNACK":
        b = [p["sp"], p["rc"]] + pr
    elif t == "PUBLISH":
        fl = 8 * p["dup"] + 2 * p["q"] + p["r"]
        b = i16(len(p["topic"])) + p["topic"] + (i16(p["id"]) if p["q"] else []) + pr + p["pay"]
    elif t in ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP"):
        fl = 2 if t == "PUBREL" else 0
        b = i16(p["id"]) + ([] if not v5 or (p["rc"] == 0 and not p["pr"]) else [p["rc"]] + (pr if p["pr"] else []))
    elif t in ("SUBACK", "UNSUBACK"):
        b = i16(p["id"]) + pr + p["rcs"]
    elif t == "DISCONNECT":
        b = [] if not v5 or (p["rc"] == 0 and not p["pr"]) else [p["rc"]] + (pr if p["pr"] else [])
    else:
        b = []
    return {"b": [TYPES.index(t) * 16 + fl] + vbi(len(b) + more) + b, "more": more}


def split(buf):
    "the whole packets at the beginning of buf: (packets, rest)"
    out = []
    while len(buf) >= 2:
        n, k, m = 0, 1, 1
        while k < len(buf) and k <= 4:
            n += (buf[k] & 127) * m
            m *= 128
            k += 1
            if not buf[k - 1] & 128:
                break
        else:
            break
        if buf[k - 1] & 128 or len(buf) < k + n:
            break
        out.append(bytes(buf[:k + n]))
        buf = buf[k + n:]
    return out, buf


class Server:
    "accepts connections and collects what arrives; `answer` may reply to each packet as it arrives"

    def __init__(self, rcvbuf=None):
        self.l = socket.socket()
        if rcvbuf:
            self.l.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.l.bind(("127.0.0.1", 0))
        self.l.listen(5)
        self.port = self.l.getsockname()[1]
        self.cv = threading.Condition()
        self.conn, self.buf, self.packets, self.eof = None, b"", [], False
        self.answer = None
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        while True:
            try:
                c, _ = self.l.accept()
            except OSError:
                return
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            with self.cv:
                self.conn, self.buf, self.eof = c, b"", False
            while True:
                try:
                    d = c.recv(65536)
                except OSError:
                    d = b""
                with self.cv:
                    if not d:
                        self.eof = True
                        self.cv.notify_all()
                        break
                    ps, self.buf = split(self.buf + d)
                    for p in ps:
                        self.packets.append(p)
                        if self.answer:
                            try:
                                self.answer(p)
                            except OSError:
                                pass
                    self.cv.notify_all()
            try:
                c.close()
            except OSError:
                pass

    def send(self, data, r=None):
        c = self.conn
        if r is None or r.random() < 0.5:
            c.sendall(data)
            return
        while data:     # in pieces
            n = r.choice((1, 1, 2, 3, 5, 8, len(data)))
            c.sendall(data[:n])
            data = data[n:]
            if r.random() < 0.3:
                _sleep(0.0005)


def tasks():
    "the threads of this process"
    return set(os.listdir("/proc/self/task"))


class Driver:
    BIG = 90000

    def __init__(self, ver, seed=0):
        self.ver, self.r = ver, random.Random(seed)
        self.codec = Codec(ver)
        if ver == 5:
            from mqtt.clients.V5 import main
        else:
            from mqtt.clients.V311 import main
        self.m = self.codec.m
        self.main = main
        self.server = Server(8192 if seed % 5 == 0 else None)
        self.calls, self.answers, self.yes = [], None, 1.0
        self.steps, self.fences = [], 0
        self.up = False
        self.client = None
        self.forged = set()
        d = self

        class CB(main.Callback):
            def publishArrived(self, topicName, payload, qos, retained, msgid, *more):
                if len(more) != (1 if ver == 5 else 0):
                    d.calls.append({"c": "arguments of publishArrived"})
                yes = d.answers if d.answers is not None else d.r.random() < d.yes
                n = d.large(payload)
                d.calls.append({"c": "arrived", "topic": lst(topicName), "pay": lst(payload[:len(payload) - n]), "more": n, "q": int(qos),
                                "r": 1 if retained else 0, "id": msgid if qos else 0, "pr": d.codec.props(more[0]) if more else [], "yes": yes})
                return yes

            def published(self, msgid):
                d.calls.append({"c": "published", "id": msgid})

            def subscribed(self, msgid, rcs):
                d.calls.append({"c": "subscribed", "id": msgid, "rcs": [x.value for x in rcs] if ver == 5 else list(rcs)})

            def unsubscribed(self, msgid):
                d.calls.append({"c": "unsubscribed", "id": msgid})

            def disconnected(self, reasoncode, properties):
                d.calls.append({"c": "disconnected", "rc": reasoncode.value, "pr": d.codec.props(properties)})
        self.cb = CB()
        self.threads = set()     # of the library's connection

    @staticmethod
    def large(b):
        "payload bytes to leave out"
        return len(b) - 10 if len(b) > 60000 and bytes(b[10:]) == b"x" * (len(b) - 10) else 0

    def newclient(self, cid="c"):
        self.client = self.main.Client(cid)
        self.client.registerCallback(self.cb)

    # ---- one step
    def fence(self, ins):
        self.fences += 1
        f = 30000 + self.fences % 20000
        ins.append(enc(self.ver, {"t": "PUBREL", "id": f, "rc": 0, "pr": []}))
        return f

    def data(self, ins):
        return b"".join(bytes(x["b"]) + b"x" * x["more"] for x in ins)

    def wait(self, fence, limit=2.0):
        "until the PUBCOMP for the fence; False if the library does not handle what arrives any more"
        end = time.monotonic() + limit * PATIENCE
        gone = 0
        with self.server.cv:
            while True:
                if any(p[0] == 0x70 and p[2:4] == fence.to_bytes(2, "big") for p in self.server.packets[-3:]):
                    return True
                if time.monotonic() > end or self.server.eof:
                    return False
                if self.threads and not self.threads & tasks():
                    gone += 1
                    if gone > 5:
                        return False
                self.server.cv.wait(0.02)

    def finish(self, step, fence):
        alive = self.wait(fence)
        if step["op"] in ("disconnect", "terminate"):
            alive = False
        with self.server.cv:
            ps, self.server.packets = self.server.packets, []
        step["sent"] = []
        for p in ps:
            n = 0
            if len(p) > 60000 and p.endswith(b"x" * (self.BIG - 10)):
                n = self.BIG - 10
            step["sent"].append({"b": list(p[:len(p) - n]), "more": n})
        step["calls"], self.calls = self.calls, []
        step["up"] = alive
        self.up = alive
        self.steps.append(step)
        if not alive:
            self.server.answer = None
        return alive

    def deliver(self, packets, op=None, yes=None):
        "packets (records, or lists of bytes) arrive"
        self.answers = yes
        ins = [enc(self.ver, p) if isinstance(p, dict) else {"b": list(p), "more": 0} for p in packets]
        fence = self.fence(ins)
        try:
            self.server.send(self.data(ins), self.r)
        except OSError:
            pass
        return self.finish(dict(op or {"op": "none"}, ins=ins), fence)

    def connect(self, p, ck, keep, behind=()):
        "p: the CONNECT wanted, ck: the CONNACK, behind: packets right behind it"
        ins = [enc(self.ver, x) for x in behind]
        fence = self.fence(ins)
        first = bytes(enc(self.ver, ck)["b"])
        s = self.server
        self.answers = True

        def answer(b):
            s.answer = None
            s.send(first + (self.data(ins) if ck["rc"] == 0 else b""), self.r if not behind else None)
        s.answer = answer
        kw = {("cleanstart" if self.ver == 5 else "cleansession"): bool(p["clean"])}
        m = self.m
        if self.ver == 5:
            if p["pr"]:
                kw["properties"] = m.Properties(m.PacketTypes.CONNECT)
                self.codec.setprops(kw["properties"], p["pr"])
            if p["wf"] and p["wpr"]:
                kw["willProperties"] = m.Properties(m.PacketTypes.WILLMESSAGE)
                self.codec.setprops(kw["willProperties"], p["wpr"])
            self.client.sessionexpiry = 100 if keep else 0
        if p["wf"]:
            kw.update(willFlag=True, willTopic=text(p["wt"]), willMessage=bytes(p["wm"]), willQoS=p["wq"], willRetain=bool(p["wr"]))
        if p["uf"]:
            kw["username"] = text(p["user"])
        if p["pf"]:
            kw["password"] = bytes(p["pass"])
        refused, why = False, ""
        before = tasks()
        try:
            self.client.connect(host="127.0.0.1", port=s.port, keepalive=p["ka"], **kw)
        except TimeUp:
            raise
        except Exception as e:
            refused, why = True, repr(e)[:200]
        self.threads = tasks() - before
        step = {"op": "connect", "p": p, "ck": ck, "keep": keep, "refused": refused, "why": why, "ins": ins if ck["rc"] == 0 else []}
        if ck["rc"] or refused:
            with s.cv:
                s.cv.wait_for(lambda: s.packets or s.eof, PATIENCE)
            try:
                s.conn.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            fence = 0
            step["ins"] = []
            with s.cv:
                s.cv.wait_for(lambda: s.eof, 1)
        return self.finish(step, fence)

    def packet(self, op, reply=()):
        """the application publishes, subscribes or unsubscribes; reply: what comes back, as soon as the packet is
        there (functions of its id)"""
        s, c, m = self.server, self.client, self.m
        box = {}
        self.answers = None
        ins = []

        def ident(b):
            "the id in the packet, by ourselves"
            t, k = b[0] >> 4, 1
            while b[k] & 128:
                k += 1
            k += 1
            if t == 3:
                if not b[0] & 6:
                    return 0
                k += 2 + int.from_bytes(b[k:k + 2], "big")
            return int.from_bytes(b[k:k + 2], "big")

        fbox = []

        def answer(b):
            s.answer = None
            i = ident(b)
            ins.extend(enc(self.ver, f(i)) for f in reply)
            fbox.append(self.fence(ins))
            s.send(self.data(ins))
        now = bool(reply) and self.r.random() < 0.7
        if now:
            s.answer = answer
        step = dict(op)
        why = ""
        try:
            if op["op"] == "publish":
                x = op["m"]
                kw = {}
                if self.ver == 5 and x["pr"]:
                    kw["properties"] = m.Properties(m.PacketTypes.PUBLISH)
                    self.codec.setprops(kw["properties"], x["pr"])
                if x["more"] and self.r.random() < 0.7:
                    try:
                        c.sock.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4096)
                    except (AttributeError, OSError):
                        pass
                box["id"] = c.publish(text(x["topic"]), bytes(x["pay"]) + b"x" * x["more"], x["q"], bool(x["r"]), **kw)
            elif op["op"] == "subscribe":
                kw = {}
                if self.ver == 5:
                    if op["pr"]:
                        kw["properties"] = m.Properties(m.PacketTypes.SUBSCRIBE)
                        self.codec.setprops(kw["properties"], op["pr"])
                    opts = [m.SubscribeOptions(y["o"]["q"], bool(y["o"]["nl"]), bool(y["o"]["rap"]), y["o"]["rh"]) for y in op["subs"]]
                else:
                    opts = [y["o"]["q"] for y in op["subs"]]
                box["id"] = c.subscribe([text(y["f"]) for y in op["subs"]], opts, **kw)
            else:
                box["id"] = c.unsubscribe([text(y) for y in op["fs"]])
        except TimeUp:
            raise
        except Exception as e:
            why = repr(e)[:200]
        step["id"], step["why"] = box.get("id", -1), why
        if why or box.get("id") is None:
            step["id"] = -1
        if now:
            end = time.monotonic() + 2 * PATIENCE
            while not fbox and time.monotonic() < end:
                _sleep(0.0005)
            s.answer = None
        if not fbox:
            ins.extend(enc(self.ver, f(box.get("id") or 0)) for f in reply)
            fbox.append(self.fence(ins))
            s.send(self.data(ins))
        step["ins"] = ins
        return self.finish(step, fbox[0]), step["id"]

    def simple(self, op, pr=None):
        s, c = self.server, self.client
        if op in ("pause", "resume"):
            getattr(c, op)()
            return self.deliver([], {"op": op})
        step = {"op": op, "ins": [], "refused": False, "pr": pr or []}
        why = ""
        try:
            if op == "disconnect":
                kw = {}
                if pr:
                    kw["properties"] = self.m.Properties(self.m.PacketTypes.DISCONNECT)
                    self.codec.setprops(kw["properties"], pr)
                s.answer = lambda b: s.conn.shutdown(socket.SHUT_RDWR) if b[0] == 0xE0 else None
                c.disconnect(**kw)
            else:
                c.terminate()
        except TimeUp:
            raise
        except AssertionError as e:
            step["refused"], why = True, repr(e)[:200]
        except Exception as e:
            step["refused"], why = "exception", repr(e)[:200]
        step["why"] = why
        if not step["refused"]:
            with s.cv:
                s.cv.wait_for(lambda: s.eof, 1.5 * PATIENCE)
        s.answer = None
        return self.finish(step, 0) if not step["refused"] else (self.finish(step, 0), self.close())

    def many(self, n):
        "n QoS 1 publications one after another, answered at once"
        s, c = self.server, self.client
        with s.cv:
            got, s.packets = s.packets, []
        before = len(self.calls)
        ids, bad = [], []

        def answer(b):
            k = 1
            while b[k] & 128:
                k += 1
            k += 3 + int.from_bytes(b[k + 1:k + 3], "big")
            i = int.from_bytes(b[k:k + 2], "big") if b[0] >> 4 == 3 else 0
            ids.append(i)
            s.conn.sendall(bytes(enc(self.ver, {"t": "PUBACK", "id": i, "rc": 0, "pr": []})["b"]))
        s.answer = answer
        for j in range(n):
            try:
                i = c.publish("a", b"", 1)
            except TimeUp:
                raise
            except Exception as e:
                bad.append(repr(e)[:200])
                break
            end = time.monotonic() + 2 * PATIENCE
            while len(self.calls) == before + j and time.monotonic() < end:
                if self.r.random() < 0.001:
                    _sleep(0.0001)
            if len(self.calls) != before + j + 1 or self.calls[-1] != {"c": "published", "id": i} or len(ids) != j + 1 or ids[-1] != i:
                bad.append("publication %d: returned %s, sent %s, told %s" % (j, i, ids[-2:], self.calls[-2:]))
                break
        s.answer = None
        with s.cv:
            s.packets = []
        self.calls = self.calls[:before]
        step = {"op": "many", "ids": ids if not bad else [0], "ins": [], "why": " ".join(bad)}
        ins = []
        f = self.fence(ins)
        s.send(self.data(ins))
        step["ins"] = ins
        return self.finish(step, f)

    def close(self):
        try:
            self.client.terminate()
        except Exception:
            pass
        self.up = False

    def end(self):
        self.close()
        try:
            self.server.l.close()
            if self.server.conn:
                self.server.conn.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass


# ---------------------------------------------------------------- histories
CONNECT = {"t": "CONNECT", "clean": 1, "ka": 0, "pr": [], "cid": [99], "wf": 0, "wq": 0, "wr": 0, "wpr": [], "wt": [], "wm": [], "uf": 0, "user": [], "pf": 0, "pass": []}
CONNACK = {"t": "CONNACK", "sp": 0, "rc": 0, "pr": []}


def ack(t, i, rc=0, pr=()):
    return {"t": t, "id": i, "rc": rc, "pr": list(pr)}


class Gen:
    "random histories; weight: what to have most of"

    def __init__(self, name, seed, ver, weight):
        self.name, self.r, self.ver, self.w = name, random.Random(seed), ver, weight
        self.rand = Rand(seed, ver)
        self.d = Driver(ver, seed)
        self.in2, self.out, self.req = {}, {}, {}
        self.done = []
        self.n = 0

    def topic(self):
        r = self.r
        return lst(r.choice(("a", "b/c", "TopicA/B", "\u00e9\u4e2d/x", "/", "$SYS/x", " "))) if r.random() < 0.9 else (self.rand.s(True) or [97])

    def payload(self):
        self.n += 1
        r = self.r
        x = lst("m%d" % self.n) if r.random() < 0.8 else self.rand.b()
        return x

    def props(self, pk, no=()):
        if self.ver != 5 or self.r.random() < 0.6:
            return []
        return sorted((x for x in self.rand.props(pk) if x[0] not in no and (x[0] != 8 or not {35, 43} & set(x[1])) and len(x[1]) < 400), key=lambda x: x[0])

    def publication(self, q=None, i=None):
        r = self.r
        q = r.choice((0, 1, 2, 2)) if q is None else q
        big = r.random() < 0.012
        # a topic alias is the connection's, the library leaves it to the application
        return {"t": "PUBLISH", "dup": 0, "q": q, "r": r.randrange(2), "topic": self.topic(), "id": (i or r.choice((1, 2, 3, 7, 255, 256, 29999, 65535, r.randrange(1, 30000)))) if q else 0,
                "pr": self.props("PUBLISH", (35,)), "pay": list(b"xxxxxxxxxx") if big else self.payload(), "more": Driver.BIG - 10 if big else 0}

    def incoming(self):
        "some packets a server sends: mostly right ones"
        r, out = self.r, []
        for _ in range(r.choice((1, 1, 1, 2, 3, 5))):
            k = r.random()
            if k < 0.30:
                p = self.publication()
                if p["q"] == 2:
                    if p["id"] in self.in2:
                        p = dict(self.in2[p["id"]], dup=1)
                    self.in2[p["id"]] = p
                elif p["q"] == 1 and r.random() < 0.3:
                    out.append(p)
                    p = dict(p, dup=1)
                out.append(p)
            elif k < 0.42 and self.in2:
                i = r.choice(list(self.in2))
                out.append(dict(self.in2[i], dup=1))
            elif k < 0.72 and self.in2:
                i = r.choice(list(self.in2))
                out.append(ack("PUBREL", i, 0, []))
                if r.random() < 0.3:
                    out.append(ack("PUBREL", i, 0, []))
                if r.random() < 0.7:
                    self.done.append(i)
                    self.in2.pop(i)
            elif k < 0.77:
                out.append(ack("PUBREL", r.choice(self.done or [9]), r.choice((0, 0, 146)) if self.ver == 5 else 0))
            else:
                out += self.answers()
        return out

    def answers(self):
        r, out = self.r, []
        pool = [("out", i) for i in self.out] + [("req", i) for i in self.req]
        if not pool:
            return out
        kind, i = r.choice(pool)
        v5 = self.ver == 5
        if kind == "req":
            t, n = self.req.pop(i)
            if t == "SUBACK":
                rcs = [r.choice((0, 1, 2, 128)) for _ in range(n)]
            else:
                rcs = [r.choice((0, 17, 135)) for _ in range(n)] if v5 else []
            out.append({"t": t, "id": i, "pr": self.props("SUBACK") if v5 else [], "rcs": rcs})
        else:
            q, st = self.out[i]
            if q == 1:
                del self.out[i]
                out.append(ack("PUBACK", i, r.choice((0, 0, 0, 16, 135)) if v5 else 0, self.props("PUBACK")))
            elif st == "pub":
                if v5 and r.random() < 0.15:
                    del self.out[i]
                    out.append(ack("PUBREC", i, r.choice((128, 135, 151)), self.props("PUBREC")))
                else:
                    self.out[i] = (2, "rel")
                    out.append(ack("PUBREC", i, r.choice((0, 0, 16)) if v5 else 0, self.props("PUBREC")))
            elif r.random() < 0.2:
                out.append(ack("PUBREC", i))
            else:
                del self.out[i]
                out.append(ack("PUBCOMP", i, 0, self.props("PUBCOMP")))
        return out

    def rogue(self):
        r = self.r
        i = r.choice(list(self.out) + list(self.req) + list(self.in2) + [1, 2, 3, 65535])
        k = r.random()
        if k < 0.75:
            t = r.choice(("PUBACK", "PUBREC", "PUBCOMP", "SUBACK", "UNSUBACK"))
            if t in ("SUBACK", "UNSUBACK"):
                return [{"t": t, "id": i, "pr": [], "rcs": [0] if t == "SUBACK" or self.ver == 5 else []}]
            return [ack(t, i)]
        if k < 0.9:
            return [{"t": r.choice(("PINGRESP", "CONNACK", "PINGREQ")), "sp": 0, "rc": 0, "pr": []}]
        return [bytes([r.randrange(256)]) + bytes([3]) + bytes(r.randrange(256) for _ in range(3))]

    def op(self):
        r, d = self.r, self.d
        k = r.random()
        if k < 0.55:
            m = self.publication()
            o = {"op": "publish", "m": {x: m[x] for x in ("topic", "pay", "more", "q", "r", "pr")}}
            n = 0
        elif k < 0.8:
            subs = [{"f": lst(r.choice(("a", "+/b", "#", "x/\u00e9"))), "o": {"q": r.randrange(3), "nl": r.randrange(2) if self.ver == 5 else 0,
                     "rap": r.randrange(2) if self.ver == 5 else 0, "rh": r.randrange(3) if self.ver == 5 else 0}} for _ in range(r.choice((1, 1, 2, 3)))]
            o = {"op": "subscribe", "subs": subs, "pr": self.props("SUBSCRIBE")}
            n = len(subs)
        else:
            fs = [lst(r.choice(("a", "+/b", "#"))) for _ in range(r.choice((1, 1, 2)))]
            o = {"op": "unsubscribe", "fs": fs}
            n = len(fs)
        reply, left = [], None
        v5 = self.ver == 5
        if o["op"] == "publish":
            q = o["m"]["q"]
            if q == 1 and r.random() < 0.4:
                reply = [lambda i: ack("PUBACK", i)]
            elif q == 2 and r.random() < 0.5:
                reply = [lambda i: ack("PUBREC", i), lambda i: ack("PUBCOMP", i)][:r.choice((1, 2))]
        elif r.random() < 0.4:
            t = "SUBACK" if o["op"] == "subscribe" else "UNSUBACK"
            reply = [lambda i: {"t": t, "id": i, "pr": [], "rcs": [0] * n if t == "SUBACK" or v5 else []}]
        alive, i = d.packet(o, reply)
        if alive and i > 0:
            if o["op"] == "publish" and o["m"]["q"]:
                q = o["m"]["q"]
                if len(reply) == 0 or (q == 2 and len(reply) == 1):
                    self.out[i] = (q, "rel" if reply else "pub")
            elif o["op"] != "publish" and not reply:
                self.req[i] = ("SUBACK" if o["op"] == "subscribe" else "UNSUBACK", n)
        return alive

    def connectp(self, clean):
        r = self.r
        p = dict(CONNECT, clean=clean, ka=r.choice((0, 60, 65535)), pr=self.props("CONNECT", (17, 21, 22)))
        if r.random() < 0.3:
            p.update(wf=1, wq=r.randrange(3), wr=r.randrange(2), wt=self.topic(), wm=self.payload() or [1], wpr=self.props("WILL"))
        if r.random() < 0.3:
            p.update(uf=1, user=lst("user\u00e9"))
            if r.random() < 0.7:
                p.update(pf=1, **{"pass": lst("secret")})
        return p

    def run(self):
        r, d = self.r, self.d
        d.yes = r.choice((1.0, 1.0, 0.8, 0.5))
        d.newclient()
        keep = r.random() < 0.5
        clean = 0 if keep and (self.ver == 4 or r.random() < 0.7) else r.randrange(2) if self.ver == 5 else 1
        if self.ver == 4:
            keep = clean == 0
        if r.random() < 0.04:
            d.connect(self.connectp(clean), dict(CONNACK, rc=r.choice((128, 135)) if self.ver == 5 else r.choice((1, 2, 3, 4, 5))), keep)
        alive = d.connect(self.connectp(clean), dict(CONNACK, pr=self.props("CONNACK")), keep)
        rogue = r.random() < 0.35
        steps = r.choice((8, 15, 30))
        paused = False
        for _ in range(steps):
            if not alive:
                break
            k = r.random()
            if k < self.w[0]:
                alive = d.deliver(self.incoming())
            elif k < self.w[0] + self.w[1]:
                alive = self.op()
            elif k < self.w[0] + self.w[1] + self.w[2]:
                a = self.answers()
                alive = d.deliver(a) if a else self.op()
            elif k < 0.92 and rogue:
                alive = d.deliver(self.rogue())
            elif k < 0.95:
                paused = not paused
                alive = d.simple("pause" if paused else "resume")
            elif k < 0.97:
                if self.ver == 5:
                    alive = d.deliver([{"t": "DISCONNECT", "rc": r.choice((0, 139, 142)), "pr": self.props("DISCONNECT", (17,))}])
            elif not self.out and (not self.in2 or paused):
                d.simple("disconnect", self.props("DISCONNECT") if self.ver == 5 else [])
                alive = not d.steps[-1]["refused"]
                if alive:
                    self.req = {}
                    clean2 = r.randrange(2) if self.ver == 5 else clean
                    if not keep or clean2:
                        self.in2, paused = {}, False
                    behind = []
                    if not paused:
                        for i, p in self.in2.items():
                            behind.append(dict(p, dup=1))
                    alive = d.connect(self.connectp(clean2), dict(CONNACK, sp=0 if clean2 else 1), keep, behind)
        if alive and r.random() < 0.3:
            d.simple(r.choice(("disconnect", "terminate")))
        return self.result()

    def result(self):
        self.d.end()
        return {"name": self.name, "ver": self.ver, "steps": self.d.steps}


def sim(name, hist, ver, seed):
    "a history of the specification; packet ids of the client's operations are the ones it chose in the specification"
    g = Gen(name, seed, ver, None)
    d = g.d
    d.newclient()
    alive = d.connect(dict(CONNECT, clean=0), CONNACK, True)
    ids = {}
    for e in hist:
        if not alive:
            break
        if e["op"] == "in":
            p = dict(e["p"])
            if p["t"] in ("PUBACK", "PUBREC", "PUBCOMP", "SUBACK", "UNSUBACK"):
                p["id"] = ids.get(p["id"], 60000 + p["id"])
            alive = d.deliver([p], yes=e["yes"])
        elif e["op"] in ("pause", "resume"):
            alive = d.simple(e["op"])
        elif e["op"] == "disconnect":
            d.simple("disconnect")
            alive = True
        elif e["op"] == "connect":
            alive = d.connect(dict(CONNECT, clean=0), dict(CONNACK, sp=1), True)
        else:
            alive, i = d.packet({k: v for k, v in e.items() if k != "id"})
            ids[e["id"]] = i
    return g.result()


def wrap(name, ver, n):
    "more operations than there are packet ids, with some unfinished all the while"
    g = Gen(name, 1, ver, None)
    d = g.d
    d.newclient()
    d.connect(CONNECT, CONNACK, False)
    m = {"topic": [97], "pay": [], "more": 0, "q": 2, "r": 0, "pr": []}
    o = {"q": 1, "nl": 0, "rap": 0, "rh": 0}
    d.packet({"op": "publish", "m": m}, [lambda i: ack("PUBREC", i)])
    d.packet({"op": "subscribe", "subs": [{"f": [97], "o": o}], "pr": []})
    d.packet({"op": "publish", "m": dict(m, q=1)})
    d.packet({"op": "unsubscribe", "fs": [[97]]})
    d.packet({"op": "publish", "m": m})
    d.many(n)
    d.packet({"op": "publish", "m": m})
    return g.result()


# ---------------------------------------------------------------- worker processes
class TimeUp(BaseException):
    pass


def _alarm(sig, frm):
    raise TimeUp()


def _init(repo, patience):
    global PATIENCE
    PATIENCE = patience
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(repo, "interoperability"))
    sys.stdout = sys.stderr = open(os.devnull, "w")
    signal.signal(signal.SIGALRM, _alarm)
    import logging
    logging.disable(logging.CRITICAL)
    time.sleep = lambda n: _sleep(0.01 if n < 1 else 0.05)


def _one(job):
    kind, name, seed, ver, arg = job
    signal.alarm(400 if kind == "wrap" else 60)
    try:
        if kind == "gen":
            return Gen(name, seed, ver, arg).run()
        if kind == "sim":
            return sim(name, arg, ver, seed)
        return wrap(name, ver, arg)
    except TimeUp:
        return {"name": name, "error": "hang", "steps": [], "ver": ver}
    except Exception:
        return {"name": name, "error": traceback.format_exc()[-1500:], "steps": [], "ver": ver}
    finally:
        signal.alarm(0)


def run(jobs, procs=8, patience=1):
    with mp.get_context("spawn").Pool(procs, _init, (os.environ.get("VP_REPO", "/repo"), patience), maxtasksperchild=100) as p:
        return p.map(_one, jobs, chunksize=1)
