"""The listener between the broker and the world: histories over real connections (TCP, WebSockets, TLS).

The brokers and the virtual clock are those of world.py, but the bytes go through the TCP listener of the
repository and loopback sockets, cut into frames and segments by a plan.  When the broker has dealt with
everything is known by the answer to a PINGREQ on each connection (the PINGRESP is taken out again).
"""
import os, random, select, socket, ssl, struct, threading, time, base64, hashlib
from . import world, wire
from .run import Run, Conn, FIELDS, clean
from .gen import Gen

PING, PONG = b"\xc0\x00", b"\xd0\x00"
_port = {}


class Fault(Exception):
    "the connection does something that no listener may do"


def listener(tls):
    "port of the listener of this process"
    if tls not in _port:
        from mqtt.brokers.listeners import TCPListeners as L
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        port = s.getsockname()[1]
        s.close()
        keys = os.path.join(world.REPO, "interoperability", "tls_testing", "keys", "server")
        kw = dict(TLS=True, cert_reqs=ssl.CERT_NONE, certfile=os.path.join(keys, "server.crt"),
                  keyfile=os.path.join(keys, "server.key")) if tls else {}
        for j in range(20):
            try:
                L.create(port, host="127.0.0.1", **kw)
                break
            except OSError:
                port += 7
        _port[tls] = port
    return _port[tls]


class Link:
    "one connection, from the client's side"

    def __init__(self, kind, plan, rnd, patience, port=None):
        self.kind, self.plan, self.rnd, self.patience = kind, plan, rnd, patience
        self.ws = kind == "ws"
        self.raw = bytearray()      # received, not yet taken apart
        self.data = bytearray()     # MQTT bytes received
        self.log = []               # what went over the wire: ("c"|"s", bytes)
        self.pongs = []             # payloads of pings to be answered
        self.open = True            # as far as we know
        self.eof = False
        self.fin = True             # the last data frame ended a message
        self.n = 0
        self.sock = socket.create_connection(("127.0.0.1", port or listener(kind == "tls")), timeout=10)
        self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if kind == "tls":
            c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            c.check_hostname = False
            c.verify_mode = ssl.CERT_NONE
            self.sock = c.wrap_socket(self.sock, suppress_ragged_eofs=True)
        self.started = not self.ws
        self.half = None
        self.odd = False
        self.pk = []                # MQTT packets sent
        self.mine = bytearray()     # MQTT bytes sent, not yet a whole packet
        self.asked = 0              # PINGREQs sent, less PINGRESPs taken

    # ---- out
    def push(self, data, cuts=()):
        at = 0
        for c in sorted({c for c in cuts if 0 < c < len(data)}) + [len(data)]:
            part = bytes(data[at:c])
            at = c
            if part:
                self.log.append(("c", part))
                try:
                    self.sock.sendall(part)
                except OSError:
                    self.open = False
                    return
                if at < len(data):
                    time_sleep(0.0015)

    def handshake(self):
        key = base64.b64encode(bytes(self.rnd.randrange(256) for _ in range(16))).decode()
        up = self.rnd.random() < 0.5
        names = ["Host: x", "Upgrade: websocket", "Connection: Upgrade", "Sec-WebSocket-Key: " + key,
                 "Sec-WebSocket-Protocol: mqtt", "Sec-WebSocket-Version: 13"]
        if up:
            names = [n.split(":", 1)[0].lower() + ":" + n.split(":", 1)[1] for n in names]
        req = ("GET /mqtt HTTP/1.1\r\n" + "\r\n".join(names) + "\r\n\r\n").encode()
        self.push(req, [self.rnd.randrange(len(req)) for _ in range(self.rnd.choice([0, 0, 1, 3]))])
        end = time_monotonic() + 10
        while b"\r\n\r\n" not in self.raw and not self.eof:
            self.read(0.5)
            if time_monotonic() > end:
                raise Fault("no answer to the WebSocket handshake")
        head, _, rest = bytes(self.raw).partition(b"\r\n\r\n")
        want = base64.b64encode(hashlib.sha1((key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11").encode()).digest())
        lines = {x.split(b":", 1)[0].strip().lower(): x.split(b":", 1)[1].strip() for x in head.split(b"\r\n")[1:] if b":" in x}
        if not head.startswith(b"HTTP/1.1 101") or lines.get(b"sec-websocket-accept") != want or \
           lines.get(b"sec-websocket-protocol") != b"mqtt" or lines.get(b"upgrade", b"").lower() != b"websocket":
            raise Fault("WebSocket handshake answered with %r" % head)
        self.raw = bytearray(rest)
        self.log = []
        self.started = True

    def frame(self, op, payload, fin=True, mask=True, longer=0):
        n = len(payload)
        h = bytearray([(0x80 if fin else 0) | op])
        m = 0x80 if mask else 0
        if longer == 2 or n > 65535:
            h += bytes([m | 127]) + struct.pack("!Q", n)
        elif longer == 1 or n > 125:
            h += bytes([m | 126]) + struct.pack("!H", n)
        else:
            h.append(m | n)
        if mask:
            k = bytes(self.rnd.randrange(256) for _ in range(4))
            h += k
            payload = bytes(b ^ k[i & 3] for i, b in enumerate(payload)) if n < 3000 else mask_long(payload, k)
        return bytes(h) + bytes(payload)

    def token(self):
        t = self.plan[self.n % len(self.plan)]
        self.n += 1
        return t

    def send(self, data, whole=False):
        "MQTT bytes, framed and cut as the plan says"
        if not self.open:
            return
        self.mine += data
        pk, rest = wire.split(bytes(self.mine))
        self.mine = bytearray(rest)
        self.asked += pk.count(PING)
        self.pk += pk
        if not self.ws:
            t = self.token()
            n = len(data)
            self.push(data, [] if whole else [c % n for c in t["cut"] if n > abs(c)])
            return
        out, cuts = bytearray(), []
        while True:
            t = self.token()
            if t["op"] == "ping":
                pl = bytes(self.rnd.randrange(256) for _ in range(t["size"]))
                f = self.frame(9, pl)
                self.pongs.append(pl)
            elif t["op"] == "pong":
                f = self.frame(10, b"x" * t["size"])
            else:
                n = {0: 0, 1: 1, 2: 2, 3: 5, 4: len(data) // 2}.get(t["size"], len(data))
                part, data = data[:n], data[n:]
                fin = bool(t["fin"])
                f = self.frame(2 if self.fin else 0, part, fin, longer=t.get("longer", 0))
                self.fin = fin
            cuts += [len(out) + (x % len(f) if x < 0 else x) for x in t["cut"] if abs(x) <= len(f)]
            out += f
            if not data:
                break
            if len(out) > 400000:
                raise Fault("plan without progress")
        self.push(out, [] if whole else cuts)

    # ---- in
    def read(self, wait):
        "what there is, waiting at most so long for the first bytes"
        got = False
        while not self.eof:
            if not (self.kind == "tls" and self.sock.pending()):
                if not select.select([self.sock], [], [], 0 if got else wait)[0]:
                    break
            try:
                d = self.sock.recv(65536)
            except (ssl.SSLWantReadError, socket.timeout):
                continue
            except OSError:
                d = b""
            if not d:
                self.eof = True
                self.open = False
                break
            got = True
            self.raw += d
            if self.started:
                self.log.append(("s", d))
        if self.started:
            self.unwrap()
        return got

    def unwrap(self):
        if not self.ws:
            self.data += self.raw
            self.raw = bytearray()
            return
        while True:
            f = unframe(self.raw)
            if f is None:
                return
            op, fin, masked, pl, n, minimal = f
            del self.raw[:n]
            if masked or not fin or not minimal or op not in (2, 8, 10):
                raise Fault("frame from the server: opcode %d fin %s masked %s minimal %s" % (op, fin, masked, minimal))
            if op == 2:
                self.data += pl
            elif op == 10:
                if not self.pongs or self.pongs[0] != bytes(pl):
                    raise Fault("pong %r, expected %r" % (bytes(pl), self.pongs[:1]))
                self.pongs.pop(0)

    def barrier(self):
        "everything sent so far has been dealt with"
        if not self.open:
            return
        if not self.started:
            self.read(0.003)
            return
        self.send(PING, whole=True)
        end = time_monotonic() + 4 * self.patience
        while not self.eof and not (self.data.endswith(PONG) and self.pinged()):
            self.read(0.2)
            if time_monotonic() > end:
                raise Fault("connection neither answered nor closed")
        if not self.eof:
            del self.data[-2:]
            self.asked -= 1
            if self.pongs:
                raise Fault("WebSocket ping not answered")

    def pinged(self):
        "do the data end with the PINGRESP, rather than in a packet that looks like one?"
        pk, rest = wire.split(bytes(self.data))
        return not rest and pk and pk[-1] == PONG and pk.count(PONG) >= self.asked

    def wait_closed(self, wait=4):
        end = time_monotonic() + wait * self.patience
        while not self.eof:
            self.read(0.2)
            if time_monotonic() > end:
                raise Fault("connection not closed")

    def shutdown(self):
        try:
            socket.socket.shutdown(self.sock, socket.SHUT_WR)
        except OSError:
            pass

    def take(self):
        d, self.data = bytes(self.data), bytearray()
        self.asked -= wire.split(d)[0].count(PONG)
        return d

    def close(self):
        try:
            self.sock.close()
        except OSError:
            pass


time_sleep = world._real_sleep
time_monotonic = world._real_monotonic


def mask_long(payload, k):
    n = len(payload)
    key = (k * (n // 4 + 1))[:n]
    return (int.from_bytes(payload, "big") ^ int.from_bytes(key, "big")).to_bytes(n, "big")


def unframe(b):
    "-> (opcode, fin, masked, payload, length of the frame, length field minimal) or None"
    if len(b) < 2:
        return None
    n, at, minimal = b[1] & 127, 2, True
    if n == 126:
        if len(b) < 4:
            return None
        n, at = struct.unpack("!H", b[2:4])[0], 4
        minimal = n > 125
    elif n == 127:
        if len(b) < 10:
            return None
        n, at = struct.unpack("!Q", b[2:10])[0], 10
        minimal = n > 65535
    masked = bool(b[1] & 128)
    if masked:
        at += 4
    if len(b) < at + n:
        return None
    return b[0] & 15, bool(b[0] & 128), masked, b[at:at + n], at + n, minimal and not b[0] & 0x70


class TcpWorld(world.World):
    "a World whose connections go through the listener"

    def __init__(self, opt, shared=None):
        super().__init__(opt, shared)
        from mqtt.brokers.listeners import TCPListeners as L
        L.setBrokers(self.b3, self.b5)
        self.plans = self.rnd = None
        self.patience = 1

    def open(self, k, ver):
        kind, plan = self.plans(k)
        self.conns[k] = [Link(kind, plan, self.rnd, self.patience), ver]
        self.order.append(k)
        return self.conns[k][0]

    def ready(self, l):
        if l.ws and not l.started:
            l.handshake()

    def part(self, k, data):
        "the first bytes of a packet, and no more for now"
        l = self.conns[k][0]
        self.ready(l)
        l.half = True
        l.send(data, whole=True)

    def feed(self, k, data):
        l = self.conns[k][0]
        self.ready(l)
        l.half = None
        l.send(data)
        l.barrier()

    def eof(self, k):
        l = self.conns[k][0]
        self.ready(l)
        if l.ws and not l.half and self.rnd.random() < 0.4:
            l.push(l.frame(8, self.rnd.choice([b"", b"\x03\xe8"])))
            if self.rnd.random() < 0.5:
                l.shutdown()
        else:
            l.shutdown()
        l.half = None
        l.wait_closed()

    def bad(self, k, data, framed=False):
        self.lastbad = data.hex()
        "bytes no listener can make sense of: the connection is closed"
        l = self.conns[k][0]
        self.ready(l)
        l.half = None
        l.odd = True
        l.push(l.frame(2, data) if framed and l.ws else data)
        l.wait_closed()

    def second(self):
        world.clock.advance(1)
        world.clock.settle(self.threads)

    def output(self):
        out, closed = dict(self.snout), []
        self.snout = {}
        stalled = False
        for k in self.order:
            l = self.conns[k][0]
            if k in self.gone or not l.open:
                continue
            if l.half or not l.started:
                stalled = True
            else:
                l.barrier()
        if stalled:
            time_sleep(0.01 * self.patience)
        for k in self.order:
            l = self.conns[k][0]
            if k in self.gone:
                continue
            l.read(0)
            d = l.take()
            if d:
                out[k] = d
            if l.eof:
                closed.append(k)
                self.gone.add(k)
                if l.raw:
                    raise Fault("incomplete frame before the end")
        return out, closed

    def stop(self):
        for k in self.order:
            self.conns[k][0].close()
        end = time_monotonic() + 5
        while self.b3.clients or self.b5.clients:
            time_sleep(0.002)
            if time_monotonic() > end:
                break
        super().stop()


class TcpRun(Run):
    def __init__(self, name, opt, plans, rnd, patience=1):
        from . import run
        self.name, self.opt = name, opt
        self.w = TcpWorld(opt)
        self.w.plans, self.w.rnd, self.w.patience = plans, rnd, patience
        self.steps, self.conns, self.nk, self.serial, self.anon = [], {}, 0, 0, 0
        self.fault = ""

    def step(self, ev):
        e = ev["e"]
        try:
            if e == "BATCH":
                data = b""
                for x in ev["evs"]:
                    data += self.prepare(x)
                self.w.feed(ev["k"], data)
            elif e == "BAD" and "frame" in ev:
                ev["raw"] = ""
                self.w.bad(ev["k"], bytes.fromhex(ev["frame"]))
            elif e == "JUNK":
                ev["e"] = "BAD"
                self.conns[ev["k"]] = Conn(ev["k"], 4, "")
                self.w.open(ev["k"], 4)
                self.w.bad(ev["k"], bytes.fromhex(ev["junk"]), True)
            elif e == "RAWFEED":        # an event of which part has been sent already
                ev.pop("e")
                self.w.feed(ev["ev"]["k"], ev["rest"])
                ev = ev["ev"]
            else:
                self.perform(ev, self.prepare(ev))
            return self.observe(ev)
        except Fault as x:
            self.steps.append({"ev": clean(ev) if e != "BATCH" else ev, "out": [], "cl": []})
            raise

    def events_of(self, ev):
        return ev["evs"] if ev["e"] == "BATCH" else super().events_of(ev)

    def wire(self, limit=1400):
        "what went over the wire, per connection, as bytes"
        r = []
        for k in self.w.order:
            l = self.w.conns[k][0]
            if l.started and not l.odd and 0 < sum(len(d) for _, d in l.log) <= limit:
                r.append({"name": "%s/%d" % (self.name, k), "kind": "ws" if l.ws else "tcp", "open": not l.eof,
                          "log": [{"by": w, "b": list(d)} for w, d in join(l.log)], "pk": [list(x) for x in l.pk]})
        return r


def join(log):
    "segments in the same direction, one after the other, from the server are one piece"
    out = []
    for w, d in log:
        if out and out[-1][0] == w == "s":
            out[-1] = (w, out[-1][1] + d)
        else:
            out.append((w, d))
    return out


CUTS = [[], [], [1], [7], [-1], [2], [1, 2, 3, 4, 5, 6, 7], [6, 14, -2], [5, 9]]


def random_plan(r):
    style = r.randrange(4)
    if style == 0:
        return [dict(op="data", size=9, fin=1, cut=r.choice(CUTS))]
    n = r.randint(3, 9)
    plan = []
    for _ in range(n):
        op = r.choice(["data"] * 6 + ["ping", "pong"])
        plan.append(dict(op=op, size=r.choice([0, 1, 2, 3, 4, 9, 9]) if op == "data" else r.choice([0, 1, 5, 125]), fin=r.choice([1, 1, 0]),
                         cut=r.choice(CUTS), longer=r.choice([0, 0, 0, 1, 2])))
    return plan + [dict(op="data", size=9, fin=1, cut=[])]


def script_plan(script):
    "a behaviour of MCFrame -> plan"
    plan, sizes, at = [], [], 0
    for x in script:
        if x["a"] == "cut":
            at += x["k"]
            left = at
            for t, n in zip(plan, sizes):
                if left <= n:
                    t["cut"].append(left)
                    break
                left -= n
        else:
            plan.append(dict(op=x["a"], size=x["k"] if x["k"] < 4 or x["a"] != "data" else 4 if x["k"] < 8 else 9, fin=int(x["fin"]), cut=[], longer=x["longer"]))
            sizes.append(x["k"] + 6 + {0: 0, 1: 2, 2: 8}[x["longer"]])
    return plan + [dict(op="data", size=9, fin=1, cut=[])]



JUNK = ["00", "ff" * 8, "2000", "485454502f312e31", "c000", "e000", "30050001610d0a", "1006" + "00044d515454",
        "100c00064d51497364700302003c", "100c00044d5154540302003c0000", "100c00044d5154540602003c0000", "10",
        "8200", "504f5354202f20"]
NOWAIT = ["10", "1006" + "00044d515454", "100c00064d51497364700302003c"]


class TcpGen(Gen):
    "random histories, with several packets at once, half packets and broken frames"

    def __init__(self, name, seed, prof, plans=None, patience=1):
        super().__init__(name, seed, prof)
        self.run.close()
        r = self.r
        prnd = random.Random(seed ^ 0x5eed)
        kinds = prnd.choice([["tcp"], ["ws"], ["tcp", "ws"], ["tcp", "ws", "tls"]])

        def plan(k):
            kind = prnd.choice(kinds)
            return kind, prnd.choice(plans) if plans else random_plan(prnd)
        self.run = TcpRun(name, self.run.opt, plan, prnd, patience)
        self.stalled = {}

    def conns(self):
        return [c for c in self.run.live() if c.k not in self.stalled]

    def batch(self, c=None):
        r = self.r
        evs = []
        if c is None or self.chance(0.25):
            ev = self.connect()
            if not ev:
                return None
            evs = [ev]
            c = Conn(ev["k"], ev["ver"], ev["cid"])
            if ev["cid"] == "":
                return ev
        for _ in range(r.choice([1, 2, 3, 4])):
            kind = r.choice(["publish"] * 5 + ["subscribe", "unsubscribe", "ping", "pubrel", "ack", "bad", "disconnect"])
            if evs and evs[0]["e"] == "CONNECT" and kind in ("ack", "pubrel", "unsubscribe"):
                continue
            if kind in ("bad", "disconnect") and not self.chance(0.15):
                continue
            ev = getattr(self, kind)(c)
            if ev:
                evs.append(ev)
        if not evs:
            return None
        return dict(e="BATCH", k=c.k, evs=evs)

    def connect(self, cid=None):
        ev = super().connect(cid)
        if ev and self.stalled and ev["cid"] and any(c.cid == ev["cid"] for c in self.run.live() if c.k in self.stalled) and not self.chance(0.3):
            return None
        return ev

    def stall(self, c):
        "part of a packet, then (later) the rest"
        ev = self.publish(c) if self.chance(0.8) else self.subscribe(c)
        data = self.run.prepare(ev)
        n = self.r.randrange(1, len(data))
        self.run.w.part(c.k, data[:n])
        self.stalled[c.k] = (ev, data[n:])
        return None

    def halfconnect(self, c=None):
        ev = self.connect()
        if not ev or ev["cid"] == "" or any(c.cid == ev["cid"] for c in self.run.live()):
            return None
        data = self.run.prepare(ev)
        n = self.r.randrange(1, len(data))
        self.run.w.part(ev["k"], data[:n])
        self.stalled[ev["k"]] = (ev, data[n:])
        return None

    def goon(self, c=None):
        if not self.stalled:
            return None
        k = self.r.choice(list(self.stalled))
        ev, rest = self.stalled.pop(k)
        if not self.run.conns[k].open:
            return None
        if self.chance(0.25):
            return dict(e="DROP", k=k)
        return dict(e="RAWFEED", ev=ev, rest=rest)

    def badframe(self, c):
        l = self.run.w.conns[c.k][0]
        if not l.ws:
            return None
        self.run.w.ready(l)
        x = self.r.randrange(4)
        f = [lambda: l.frame(2, PING, mask=False), lambda: l.frame(1, PING), lambda: l.frame(self.r.choice([3, 5, 7]), PING),
             lambda: l.frame(2, b"\x30")[:-1] + b""][x]()
        if x == 3:
            return None
        return dict(e="BAD", k=c.k, frame=f.hex())

    def junk(self, c=None):
        self.run.nk += 1
        return dict(e="JUNK", k=self.run.nk, junk=self.r.choice([j for j in JUNK if j not in NOWAIT]))

    def event(self, kind):
        if kind in ("junk", "halfconnect", "goon"):
            return getattr(self, kind)()
        if kind == "stall" and len(self.stalled) > 1:
            return None
        if kind == "connect" and self.chance(0.3):
            return self.batch()
        ev = super().event(kind)
        return ev

    def epilogue(self):
        while self.stalled:
            ev = self.goon()
            if ev:
                self.run.step(ev)
        super().epilogue()


def generate(name, seed, prof, plans=None, patience=1):
    g = None
    try:
        g = TcpGen(name, seed, prof, plans, patience)
        g.walk()
    except Fault as e:
        t = g.run.trace()
        t["error"] = "%s %s" % (e, getattr(g.run.w, "lastbad", ""))
        return t
    finally:
        if g:
            g.run.close()
    t = g.run.trace()
    t["wire"] = g.run.wire()
    return t
