"""R01: the proxies (mqtt/proxy/mqttsas, mqtt/restart/netproxy) between clients and a broker, over loopback TCP."""
import json, os, random, re, select, socket, sys, threading, time, types, multiprocessing as mp, signal, traceback
from . import tlc, wire
from .run import FIELDS

REPO = os.environ.get("VP_REPO", "/repo")
SHAPE = {"quick": dict(random=180, sims=120, len=(8, 22)), "thorough": dict(random=2500, sims=1500, len=(10, 34))}
_mod = {}
_reports = []
_timeout = 0.8


def stub():
    "the control connection of the restart proxy uses a library that need not be here"
    class Client:
        def __init__(self, *a, **k):
            self.calls = []

        def __getattr__(self, name):
            def f(*a, **k):
                self.calls.append((name, a))
                return (0, 1)
            return f
    for n in ("paho", "paho.mqtt", "paho.mqtt.client"):
        sys.modules[n] = types.ModuleType(n)
    sys.modules["paho"].mqtt = sys.modules["paho.mqtt"]
    sys.modules["paho.mqtt"].client = sys.modules["paho.mqtt.client"]
    sys.modules["paho.mqtt.client"].Client = Client


def start(kind):
    "-> (module, port, control)"
    if kind not in _mod:
        if kind == "net":
            stub()
            import mqtt.restart.netproxy as m
            m.logger.setLevel(100)
            m.traceback.print_exc = lambda *a, **k: None
            handler = m.MQTTHandler
            control = m.ControlBrokers(m.options)
            control.on_connect(control.client, None, None, 0)
            if ("subscribe", (m.options["control_topic"] + "/receive", 2)) not in control.client.calls:
                raise Exception("restart proxy: no subscription to the control topic: %s" % control.client.calls)
        else:
            import mqtt.proxy.mqttsas as m
            m.traceback.print_exc = lambda *a, **k: None
            m.print = lambda *a, **k: _reports.append(a)
            handler = m.MyHandler
            control = None
        m.brokerhost, m.brokerport = "127.0.0.1", 0
        server = m.ThreadingTCPServer(("127.0.0.1", 0), handler)
        server.handle_error = lambda *a: None
        server.daemon_threads = True
        t = threading.Thread(target=server.serve_forever, kwargs={"poll_interval": 0.05}, daemon=True)
        t.start()
        _mod[kind] = (m, server.server_address[1], control)
    return _mod[kind]


WAITING = {"45", "47", "23", "270", "7", "271", "207", "212", "72", "73"}     # recv, select, poll


def idle():
    "every thread of the proxy waits for bytes (as the system sees it)"
    for t in threading.enumerate():
        if "process_request_thread" in t.name and t.native_id:
            try:
                with open("/proc/self/task/%d/syscall" % t.native_id) as f:
                    if f.read().split()[0] not in WAITING:
                        return False
            except FileNotFoundError:
                pass        # ended
            except OSError:
                return True     # not to be seen here
    return True


class End:
    def __init__(self, sock):
        self.sock, self.got, self.eof, self.closed = sock, b"", False, False
        sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)

    def read(self):
        if self.sock and not self.closed:      # the proxy's sockets hold back a small segment until the last one is acknowledged
            self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)
        while not self.eof and not self.closed and select.select([self.sock], [], [], 0)[0]:
            try:
                d = self.sock.recv(65536)
            except OSError:
                d = b""
            if not d:
                self.eof = True
            self.got += d

    def send(self, b):
        try:
            self.sock.sendall(b)
        except OSError:
            pass

    def close(self):
        if not self.closed:
            self.read()
            self.closed = True
            self.sock.close()


def whole(data):
    "-> the whole packets, the rest (None: there is a packet without a valid length)"
    at = 0
    while True:
        n = m = 0
        j = at + 1
        while True:
            if j >= len(data):
                return data[:at], data[at:]
            n += (data[j] & 127) << m
            m += 7
            j += 1
            if not data[j - 1] & 128:
                break
            if j - at > 4:
                return data[:at], None
        if len(data) < j + n:
            return data[:at], data[at:]
        at = j + n


class Hist:
    def __init__(self, name, kind, patience=1):
        self.name, self.kind, self.patience = name, kind, patience
        self.m, self.port, self.control = start(kind)
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind(("127.0.0.1", 0))
        self.l.listen(20)
        self.m.brokerport = self.l.getsockname()[1]
        self.c, self.b = {}, {}     # ends
        self.sent = {}              # (side, k) -> bytes
        self.steps, self.ended = [], set()
        del _reports[:]
        self.nrep = 0

    def open(self, k):
        c = End(socket.create_connection(("127.0.0.1", self.port)))
        self.l.settimeout(5 * self.patience)
        s, _ = self.l.accept()
        self.c[k], self.b[k] = c, End(s)
        self.sent["C", k] = self.sent["B", k] = b""

    def refused(self, k):
        "the broker cannot be reached"
        port = self.m.brokerport
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        self.m.brokerport = s.getsockname()[1]
        s.close()
        c = End(socket.create_connection(("127.0.0.1", self.port)))
        self.c[k] = c
        x = socket.socketpair()
        self.b[k] = End0()
        self.sent["C", k] = self.sent["B", k] = b""
        self.until(lambda: c.eof)
        self.m.brokerport = port

    def until(self, cond, extra=0.002):
        end = time.monotonic() + _timeout * self.patience
        while time.monotonic() < end:
            for e in list(self.c.values()) + list(self.b.values()):
                e.read()
            if cond():
                break
            socks = [e.sock for e in list(self.c.values()) + list(self.b.values()) if not e.eof and not e.closed]
            if socks:
                select.select(socks, [], [], 0.01)
            else:
                time.sleep(0.001)
        if self.partial() and end > time.monotonic():
            n = -1
            while n != self.amount():
                n = self.amount()
                time.sleep(0.02 * self.patience)
                for e in list(self.c.values()) + list(self.b.values()):
                    e.read()
        time.sleep(extra * self.patience)
        n = -1
        while n != self.amount() and time.monotonic() < end + 5:       # the reports and the packets go together
            n = self.amount()
            quiet = 0
            while quiet < 4 and time.monotonic() < end + 5:
                quiet = quiet + 1 if idle() else 0
                time.sleep(0.0005)
                for e in list(self.c.values()) + list(self.b.values()):
                    e.read()
            for e in list(self.c.values()) + list(self.b.values()):
                e.read()
        self.nrep = len(_reports)

    def amount(self):
        return len(_reports) + sum(len(e.got) + e.eof for e in list(self.c.values()) + list(self.b.values()))

    def expected(self):
        "do we have everything that can be there? (only to know how long to wait; the specification decides)"
        for k in self.c:
            c, b = self.c[k], self.b[k]
            if k in self.ended or isinstance(b, End0) or (c.eof or c.closed) and (b.eof or b.closed):
                continue
            if c.eof or b.eof:
                return False        # the other side will end as well
            cs, cr = whole(self.sent["C", k])
            bs, br = whole(self.sent["B", k])
            if cr is None or br is None or self.stop(k):
                return False
            if c.closed and not br or b.closed and not cr:
                return False
            if not br and len(self.up(k)) < len(cs) and not b.closed or not cr and len(self.down(k)) < len(bs) and not c.closed:
                return False
        return True

    def partial(self):
        return any(k not in self.ended and (whole(self.sent["C", k])[1] or whole(self.sent["B", k])[1]) for k in self.c)

    def stop(self, k):
        return self.kind == "sas" and self.named(k) and b"MQTTSAS topic" in self.sent["C", k] and b"TERMINATE" in self.sent["C", k]

    def named(self, k):
        return b"\0\4MQTT\4" in self.sent["C", k][:14]

    def up(self, k):
        return self.b[k].got

    def down(self, k):
        return self.c[k].got

    def step(self, ev, cuts=()):
        e, k = ev["e"], ev["k"]
        before = {j: (len(self.b[j].got), len(self.c[j].got), self.c[j].eof, self.b[j].eof) for j in self.c}
        nrep = self.nrep
        if e == "OPEN":
            self.open(k)
            before[k] = (0, 0, False, False)
        elif e == "REFUSED":
            before[k] = (0, 0, False, False)
            self.refused(k)
        elif e == "BREAK":
            msg = types.SimpleNamespace(payload=b"break", topic="x")
            self.control.on_message(self.control.client, None, msg)
            self.until(lambda: all(x.eof or x.closed for x in list(self.c.values()) + list(self.b.values())))
        elif e in ("C", "B"):
            end = (self.c if e == "C" else self.b)[k]
            data = bytes(ev["b"])
            self.sent[e, k] += data
            at = 0
            for x in sorted({x for x in cuts if 0 < x < len(data)}) + [len(data)]:
                end.send(data[at:x])
                at = x
                if x < len(data):
                    time.sleep(0.001)
        elif e == "CCLOSE":
            self.c[k].close()
        elif e == "BCLOSE":
            self.b[k].close()
        if e not in ("BREAK", "REFUSED"):
            self.until(self.expected)
        obs = []
        for j in self.c:
            n = before.get(j, (0, 0, False, False))
            o = {"k": j, "up": list(self.b[j].got[n[0]:]), "down": list(self.c[j].got[n[1]:]),
                 "cend": self.c[j].eof and not n[2] and not self.c[j].closed, "bend": self.b[j].eof and not n[3] and not self.b[j].closed}
            if o["up"] or o["down"] or o["cend"] or o["bend"]:
                obs.append(o)
        self.steps.append({"ev": {"e": e, "k": k, "b": list(ev.get("b", []))}, "obs": obs, "rep": self.reports(nrep)})
        for j in list(self.c):
            if (self.c[j].eof or self.c[j].closed) and (self.b[j].eof or self.b[j].closed):
                self.ended.add(j)
                self.c[j].close()
                self.b[j].close()
                if j not in [o["k"] for o in obs]:
                    pass

    def reports(self, n):
        from mqtt.formats import MQTTV311
        out = []
        for a in _reports[n:self.nrep]:
            if len(a) >= 4 and a[1] in ("C to S", "S to C"):
                d = a[1][0]
                txt = a[3]
                raw = None
                for (side, k), data in self.sent.items():
                    if (side == "C") == (d == "C"):
                        for p in wire.split(data)[0]:
                            try:
                                if repr(MQTTV311.unpackPacket(p)) == txt:
                                    raw = p
                            except Exception:
                                pass
                out.append({"dir": d, "id": list(str(a[2]).encode()), "b": list(raw) if raw else [0]})
            elif len(a) >= 3 and a[1] in ("C to S", "S to C"):
                out.append({"dir": a[1][0], "id": [], "b": [0]})
        return out

    def close(self):
        for e in list(self.c.values()) + list(self.b.values()):
            try:
                e.close()
            except OSError:
                pass
        self.l.close()

    def trace(self):
        return {"name": self.name, "reports": self.kind == "sas", "steps": self.steps}


class End0(End):
    "the broker's end of a connection that was never made"
    def __init__(self):
        self.got, self.eof, self.closed, self.sock = b"", True, True, None

    def close(self):
        pass


def stop_packet(q=0, ident=7):
    return wire.encode(dict(FIELDS, e="PUBLISH", t=["MQTTSAS topic"], pay="TERMINATE", q=q, id=ident), 4)


def connect(cid, ver=4):
    ev = dict(FIELDS, e="CONNECT", ver=ver, cid=cid, clean=True, exp=0)
    return wire.encode(ev, ver)


class Gen:
    def __init__(self, name, kind, seed, length, patience=1):
        self.r = random.Random(seed)
        self.h = Hist(name, kind, patience)
        self.kind, self.length, self.n = kind, length, 0
        self.up = {}        # k -> [version, rest to send C, rest to send B]

    def cpacket(self, ver):
        r = self.r
        self.n += 1
        x = r.randrange(9)
        if x < 4:
            q = r.choice([0, 1, 2])
            return wire.encode(dict(FIELDS, e="PUBLISH", t=r.choice([["a"], ["a", "b"], ["MQTTSAS topic"]]), pay="m%d" % self.n + "z" * r.choice([0, 0, 3, 118, 130, 300]),
                                    q=q, id=self.n % 60000 + 1, r=r.choice([0, 1]), d=int(q > 0 and r.random() < 0.2)), ver)
        if x == 4:
            return wire.encode(dict(FIELDS, e="SUBSCRIBE", id=self.n, subs=[{"share": "", "f": ["a", "#"], "q": 1, "nl": False, "rap": False, "rh": 0}]), ver)
        if x == 5:
            return wire.encode(dict(FIELDS, e="UNSUBSCRIBE", id=self.n, subs=[{"share": "", "f": ["a"]}]), ver)
        if x == 6:
            return b"\xc0\0"
        return bytes([r.choice([0x40, 0x50, 0x62, 0x62, 0x70]), 2]) + wire.u16(self.n)

    def bpacket(self, ver):
        r = self.r
        self.n += 1
        x = r.randrange(6)
        if x < 3:
            q = r.choice([0, 1, 2])
            return wire.encode(dict(FIELDS, e="PUBLISH", t=["a"], pay="s%d" % self.n + "y" * r.choice([0, 0, 120, 200]), q=q, id=self.n), ver)
        if x == 3:
            return b"\xd0\0"
        if x == 4:
            return b"\x90\3" + wire.u16(self.n) + b"\1" if ver == 4 else b"\x90\4" + wire.u16(self.n) + b"\0\1"
        return bytes([r.choice([0x40, 0x50, 0x62, 0x70, 0xb0]), 2]) + wire.u16(self.n)

    def walk(self):
        r, h = self.r, self.h
        k = 0
        for _ in range(r.randint(*self.length)):
            live = [j for j in self.up if j not in h.ended and not h.c[j].closed and not h.b[j].closed]
            x = r.random()
            if not live or (len(live) < 3 and x < 0.15):
                k += 1
                if x < 0.02:
                    h.step({"e": "REFUSED", "k": k})
                    continue
                h.step({"e": "OPEN", "k": k})
                ver = 4 if r.random() < 0.75 else 5
                self.up[k] = [ver, connect("cl%d" % k if ver == 4 else "v5", ver), b""]
                continue
            if self.kind == "net" and x > 0.975:
                h.step({"e": "BREAK", "k": 0})
                continue
            j = r.choice(live)
            u = self.up[j]
            if x > 0.93:
                h.step({"e": r.choice(["CCLOSE", "BCLOSE"]), "k": j})
                continue
            side = "C" if x < 0.55 or len(h.steps) < 3 else "B"
            at = 1 if side == "C" else 2
            data = u[at]
            u[at] = b""
            if not data or r.random() < 0.3:
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    data += self.cpacket(u[0]) if side == "C" else self.bpacket(u[0])
            if side == "C" and r.random() < 0.03:
                data += stop_packet(r.choice([0, 1]))
            elif r.random() < 0.015:
                data += b"\x30\xff\xff\xff\xff\x7f"
            if r.random() < 0.2 and len(data) > 1:
                n = r.randrange(1, len(data))
                u[at] = data[n:]
                data = data[:n]
            cuts = r.choice([[], [], [1], [2], [len(data) - 1], [3, 7], list(range(1, min(9, len(data))))])
            h.step({"e": side, "k": j, "b": list(data)}, cuts)


def replay(name, kind, hist, patience):
    h = Hist(name, kind, patience)
    try:
        opened = set()
        for e in hist:
            k = e["k"]
            if k and k not in opened:
                h.step({"e": "OPEN", "k": k})
                opened.add(k)
            if e["e"] == "BREAK" and kind != "net" or k in h.ended:
                continue
            b = list(e["b"])
            at = len(h.sent.get(("C", k), b""))
            if e["e"] == "C" and at <= 14 < at + len(b):
                b[14 - at] += k - 1     # client ids of their own
            h.step({"e": e["e"], "k": k, "b": b})
        return h.trace()
    finally:
        h.close()


def _init():
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(os.environ.get("VP_REPO", "/repo"), "interoperability"))
    sys.stdout = sys.stderr = open(os.devnull, "w")
    import logging
    logging.disable(logging.CRITICAL)


def _alarm(sig, frm):
    raise TimeoutError("history takes too long")


def _one(job):
    name, seed, kind, arg, patience = job
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(100)
    try:
        if isinstance(arg, dict):
            return replay(name, kind, arg["hist"], patience)
        g = Gen(name, kind, seed, arg, patience)
        try:
            g.walk()
        finally:
            g.h.close()
        return g.h.trace()
    except Exception:
        return {"name": name, "reports": False, "error": traceback.format_exc(), "steps": []}
    finally:
        signal.alarm(0)


def run(jobs, procs=8):
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix="vpp")
    here = os.getcwd()
    try:
        with mp.get_context("spawn").Pool(procs, _init) as p:
            return p.map(_one, jobs, chunksize=4)
    finally:
        shutil.rmtree(d, ignore_errors=True)


CFG = ('CONSTANTS Reports = %s Conns = %s Budget = %d Sim = %s\n')


def sims(num, seed):
    out = []
    for rep, kind in (("TRUE", "sas"), ("FALSE", "net")):
        rc, text = tlc.tlc("MCProxy", CFG % (rep, "{1, 2}", 9, "TRUE") + "SPECIFICATION Spec\nINVARIANTS Faithful NotLost Told Written\nCHECK_DEADLOCK FALSE\n",
                           ["-simulate", "num=%d" % (num * 3), "-depth", "60", "-seed", str(seed)], timeout=200, workers=1, heap="2g")
        hs = list(dict.fromkeys(re.findall(r'<<"HIST", ("(?:[^"\\]|\\.)*")>>', text)))
        if not hs:
            raise tlc.TLCError(text[-3000:])
        out += [(kind, json.loads(json.loads(h))) for h in hs[:num // 2]]
    return out


def judge(jobs, ts):
    "-> {name: (what, details)}"
    bad = {}
    good = []
    for t in ts:
        if t.get("error"):
            bad[t["name"]] = ("history %s: %s" % (t["name"], t["error"][-900:]), {"steps": t["steps"][-6:]})
        else:
            good.append(t)
    rej, gen, dis = tlc.validate("TraceProxy", good, hinted=False) if good else ({}, 0, 0)
    for n, (step, exp) in rej.items():
        t = next(t for t in good if t["name"] == n)
        step = step or len(t["steps"])
        bad[n] = ("history %s is not a behaviour of the specification of the proxy at step %d: %s\n  specification allows: %s" % (
            n, step, show(t["steps"][step - 1]), exp[:900]), {"step": step, "recorded": t["steps"], "specification_allows": exp})
    return bad, gen, dis, good


def show(s):
    f = lambda b: bytes(b).hex() if len(b) < 60 else "%s...(%d bytes)" % (bytes(b[:30]).hex(), len(b))
    return json.dumps({"event": s["ev"]["e"], "conn": s["ev"]["k"], "bytes": f(s["ev"]["b"]),
                       "seen": [{"conn": o["k"], "at broker": f(o["up"]), "at client": f(o["down"]), "client sees end": o["cend"], "broker sees end": o["bend"]} for o in s["obs"]],
                       "reports": [[r["dir"], bytes(r["id"]).decode(), f(r["b"])] for r in s["rep"]]})


def check(ctx):
    from concurrent.futures import ThreadPoolExecutor
    sh = SHAPE[ctx.tier]
    ex = ThreadPoolExecutor(3)
    big = ctx.thorough
    scopes = [("TRUE", "{1}", 7 if big else 6), ("FALSE", "{1}", 7 if big else 5), ("FALSE", "{1, 2}", 5 if big else 4)]
    mc = [ex.submit(tlc.check, "MCProxy", CFG % (r, c, b, "FALSE") + "SPECIFICATION Spec\nINVARIANTS Faithful NotLost Told\nPROPERTIES Ends Apart\nCHECK_DEADLOCK FALSE\n",
                    timeout=2500, workers=2) for r, c, b in scopes]
    hs = sims(sh["sims"], ctx.base("sim") % 100000)
    b = ctx.base("proxy")
    jobs = [("R01-sim%d" % j, 0, kind, {"hist": h}, 1) for j, (kind, h) in enumerate(hs)]
    jobs += [("R01-%d" % (b + j), b + j, ("sas", "net")[j % 2], sh["len"], 1) for j in range(sh["random"])]
    ts = run(jobs)
    ctx.log(len(ts), "histories run")
    bad, gen, dis, good = judge(jobs, ts)
    ctx.log("validated;", len(bad), "suspicious")
    ctx.traces += len(good)
    ctx.steps += sum(len(t["steps"]) for t in good)
    ctx.states += dis
    ctx.transitions += gen
    ctx.part("trace validation", histories=len(good), of_the_specification=len(hs), rejected=len(bad))
    for name in list(bad)[:6]:
        job = next(j for j in jobs if j[0] == name)[:4] + (6,)
        r = judge([job], run([job], 1))[0]
        if name in r:
            ctx.violation(r[name][0], dict({"kind": "proxy", "job": list(job)}, **r[name][1]))
        else:
            ctx.part("histories accepted only when run again", n=1)
        if len(ctx.violations) > 1:
            break
    if not ctx.violations:
        for (r_, c, n), f in zip(scopes, mc):
            r = f.result()
            if r["error"]:
                raise tlc.TLCError(r["error"])
            ctx.states += r["states"]
            ctx.transitions += r["transitions"]
            ctx.part("model MCProxy", states=r["states"], transitions=r["transitions"], complete=r["complete"])
    if good:
        ctx.sample({"run": good[0]["name"], "steps": [json.loads(show(s)) for s in good[0]["steps"][:4]]})
    ctx.assumptions += ["one thread per connection serves both directions: a packet of which only a part has come holds up the other direction (as the code is designed)",
                        "the control connection of the restart proxy is a stand-in"]
