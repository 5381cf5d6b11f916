"""The broker as its users have it: startbroker.py, a configuration file, a process of its own.

Histories run over real connections as in tcp.py, but to a broker process started in a scratch directory
with a configuration file made for the occasion, and stopped and started again in the way one stops it:
with SIGTERM or SIGINT.  With a real clock there are no TICKs in these histories.
"""
import http.client, json, os, random, shutil, signal, socket, ssl, subprocess, sys, tempfile, urllib.request, urllib.error
from . import world, tcp, run
from .gen import Gen
from .run import Run, Hang, opts, sub
from .tcp import Fault, time_sleep, time_monotonic


def free_port(r, kind=socket.SOCK_STREAM):
    for _ in range(200):
        p = r.randrange(20000, 32000)
        s = socket.socket(socket.AF_INET, kind)
        try:
            s.bind(("", p))
            return p
        except OSError:
            continue
        finally:
            s.close()
    raise Fault("no free port")


NOISE = ["# a comment", "", "   ", "log_type error", "#receive_maximum 77", "# persistence true", "allow_anonymous true", "\t# listener 1883",
         "#listener 1884", "password_file x.pw", "loglevel info"]
DEFAULTS = opts()
KEYS = ("interoperability", "tls_testing", "keys")


def config(r, opt, ports, extra=()):
    "the text of a configuration file that asks for these options and listeners"
    def noise():
        return [r.choice(NOISE) for _ in range(r.choice([0, 0, 1, 2]))]
    keys = os.path.join(world.REPO, *KEYS)
    top = []
    if opt["rm"] != 2 or r.random() < 0.3:
        top.append(["receive_maximum %d" % opt["rm"]])
    if opt["ta"] != 2 or r.random() < 0.3:
        top.append(["topic_alias_maximum  %d" % opt["ta"]])
    if opt["mps"] != 256 or r.random() < 0.3:
        top.append(["%s %d" % (r.choice(["maximum_packet_size", "message_size_limit"]), opt["mps"])])
    if opt["pers"]:
        top.append(["persistence true"])
    elif r.random() < 0.4:
        top.append(["persistence false"])
    top += [[x] for x in extra]
    r.shuffle(top)
    parts = []
    for kind, p in ports.items():
        addr = "127.0.0.1" if kind in ("http", "https", "sn") or r.random() < 0.6 else ""
        name = {"sn": " mqttsn", "http": " http", "https": " http"}.get(kind, r.choice(["", " mqtt"]))
        if name and not addr:
            addr = "INADDR_ANY"
        part = [("listener %d %s%s" % (p, addr, name)).rstrip()]
        if kind in ("tls", "https"):
            o = ["certfile " + os.path.join(keys, "server", "server.crt"), "keyfile " + os.path.join(keys, "server", "server.key"),
                 "require_certificate false", "cafile " + os.path.join(keys, "all-ca.crt")]
            r.shuffle(o)
            part += o
        parts.append(part)
    r.shuffle(parts)
    out = noise()
    for x in top + parts:
        for y in x:
            out.append(r.choice(["", "", "", "  ", "\t"]) + y + r.choice(["", "", " "]))
            out += noise()
    return "\n".join(out) + "\n"


def interruptible():
    "so that SIGINT ends the process, wherever this check was started from"
    signal.signal(signal.SIGINT, signal.default_int_handler)


class Broker:
    "the process"

    def __init__(self, opt, kinds, rnd, patience, extra=()):
        self.rnd, self.patience = rnd, patience
        self.dir = tempfile.mkdtemp(prefix="vpp", dir=os.environ.get("VP_SCRATCH"))
        self.proc = None
        for _ in range(4):
            self.ports = {k: free_port(rnd, self.socket_kind(k)) for k in kinds}
            self.text = self.write(opt, extra)
            self.args = rnd.choice([["-c", "broker.conf"], ["--config-file", "broker.conf"], ["--config-file=broker.conf"]])
            if list(kinds) == ["tcp"] and opt == DEFAULTS and not extra:     # it can do without
                self.text = ""
                self.args = rnd.choice([["--port", str(self.ports["tcp"])], ["--port=%d" % self.ports["tcp"]]])
            with open(os.path.join(self.dir, "broker.conf"), "w") as f:
                f.write(self.text)
            if self.start():
                return
            if "Address already in use" not in self.said():
                break
            self.kill()
        said = self.said()
        self.close()
        raise Fault("the broker did not start: %s\nwith\n%s" % (said[-900:], self.text))

    def socket_kind(self, k):
        return socket.SOCK_DGRAM if k == "sn" else socket.SOCK_STREAM

    def write(self, opt, extra):
        return config(self.rnd, opt, self.ports, extra)

    def said(self):
        try:
            return open(os.path.join(self.dir, "log")).read()
        except OSError:
            return ""

    def start(self):
        log = open(os.path.join(self.dir, "log"), "w")
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.path.join(world.REPO, "interoperability"))
        self.proc = subprocess.Popen([sys.executable, os.path.join(world.REPO, "interoperability", "startbroker.py")] + self.args,
                                     cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=log, preexec_fn=interruptible)
        log.close()
        end = time_monotonic() + 15 * self.patience
        waiting = dict(self.ports)
        while waiting:
            if self.proc.poll() is not None or time_monotonic() > end:
                return False
            time_sleep(0.02)
            up = listening()
            for k in list(waiting):
                if (waiting[k], self.socket_kind(k) == socket.SOCK_DGRAM) in up:
                    waiting.pop(k)
        return True

    def stop(self):
        "in the way one stops it; -> did it end?"
        self.proc.send_signal(self.rnd.choice([signal.SIGTERM, signal.SIGTERM, signal.SIGINT]))
        end = time_monotonic() + 10 * self.patience
        while self.proc.poll() is None:
            if time_monotonic() > end:
                return False
            time_sleep(0.01)
        return True

    def kill(self):
        if self.proc and self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()

    def close(self):
        self.kill()
        shutil.rmtree(self.dir, ignore_errors=True)


def listening():
    "(port, datagrams?) of everything that listens here"
    up = set()
    for f, state, udp in (("tcp", "0A", False), ("tcp6", "0A", False), ("udp", "07", True), ("udp6", "07", True)):
        try:
            for l in open("/proc/net/" + f).readlines()[1:]:
                w = l.split()
                if w[3] == state:
                    up.add((int(w[1].rsplit(":", 1)[1], 16), udp))
        except OSError:
            pass
    return up


class ProcWorld(tcp.TcpWorld):
    extra = ()      # more lines for the configuration file

    def __init__(self, opt, rnd, kinds, patience):
        world.install()
        self.opt, self.rnd, self.patience = opt, rnd, patience
        self.conns, self.gone, self.order, self.snout, self.threads = {}, set(), [], {}, []
        self.sns = {}
        self.plans = None
        self.p = Broker(opt, kinds, rnd, patience, self.extra)

    def open(self, k, ver):
        kind, plan = self.plans(k)
        if kind == "tls" and "tls" not in self.p.ports:
            kind = "tcp"
        port = self.p.ports["tls" if kind == "tls" else self.rnd.choice([x for x in self.p.ports if x.startswith("tcp")])]
        self.conns[k] = [tcp.Link(kind, plan, self.rnd, self.patience, port), ver]
        self.order.append(k)
        return self.conns[k][0]

    def sn(self, k, data):
        if k not in self.sns:
            self.sns[k] = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            self.sns[k].connect(("127.0.0.1", self.p.ports["sn"]))
        s = self.sns[k]
        s.send(data)
        if data[1] == 4:
            s.settimeout(4 * self.patience)
            try:
                self.snout[k] = s.recv(1024)
            except OSError:
                raise Fault("no answer to the MQTT-SN client")
        else:
            time_sleep(0.06 * self.patience)

    def second(self):
        raise Fault("no virtual clock here")

    def http(self, url, method=""):
        kind = "https" if "https" in self.p.ports else "http"
        rq = urllib.request.Request("%s://127.0.0.1:%d%s" % (kind, self.p.ports[kind], url), method=method or "GET",
                                    data=b'{"a": 1}' if method in ("PUT", "POST", "PATCH") else None, headers={"Content-Type": "application/json"} if method else {})
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        c.check_hostname, c.verify_mode = False, ssl.CERT_NONE
        try:
            with urllib.request.urlopen(rq, timeout=10 * self.patience, context=c if kind == "https" else None) as f:
                return f.status, f.read().decode()
        except urllib.error.HTTPError as e:
            return e.code, e.read().decode()
        except (OSError, http.client.HTTPException) as e:
            raise Fault("HTTP %s: %s" % (url, e))

    def restart(self):
        if not self.p.stop():
            raise Fault("the broker does not end on SIGTERM:\n" + self.p.said()[-600:])
        for k in self.order:
            if k not in self.gone:
                self.conns[k][0].wait_closed()
        if not self.p.start():
            raise Fault("the broker does not start again:\n" + self.p.said()[-1200:])

    def stop(self):
        for k in self.order:
            self.conns[k][0].close()
        for s in self.sns.values():
            s.close()
        self.p.close()


class ProcRun(tcp.TcpRun):
    World = ProcWorld

    def __init__(self, name, opt, plans, rnd, kinds, patience=1):
        self.name, self.opt = name, opt
        self.steps, self.conns, self.nk, self.serial, self.anon = [], {}, 0, 0, 0
        self.fault = ""
        self.w = self.World(opt, rnd, kinds, patience)
        self.w.plans = plans

    def restart(self):
        self.w.restart()
        self.anon = 0

    def finish(self):
        pass


class ProcGen(tcp.TcpGen):
    Run = ProcRun

    def __init__(self, name, seed, prof, patience=1):
        prnd = random.Random(seed ^ 0x5eed)
        bare = not prof["w"].get("http") and not prof.get("visual") and prnd.random() < 0.2     # no configuration file
        if bare:
            prof = dict(prof, opts={}, w=dict(prof["w"], sn=0))
        Gen.__init__(self, name, seed, prof, make=False)
        kinds = ["tcp"]
        for k, x in (("tcp2", 0.3), ("tls", 0.3), ("sn", 1.0), ("http", 0.5 if not prof["w"].get("http") else 1.0)):
            if prnd.random() < x:
                if bare:
                    continue
                kinds.append("https" if k == "http" and prnd.random() < 0.25 else k)
        links = prnd.choice([["tcp"], ["tcp", "ws"], ["tcp", "tls"]])
        if bare and "tls" in links:
            links = ["tcp"]

        def plan(k):
            return prnd.choice(links), [dict(op="data", size=9, fin=1, cut=[])] if prnd.random() < 0.6 else tcp.random_plan(prnd)
        self.run = self.Run(name, self.options, plan, prnd, kinds, patience)
        self.stalled = {}


def generate(name, seed, prof, patience=1):
    g = None
    try:
        if prof.get("visual"):
            from . import visual
            g = visual.VisProcGen(name, seed, prof, patience)
        else:
            g = ProcGen(name, seed, prof, patience)
        g.walk()
        g.run.finish()
    except Fault as e:
        t = g.run.trace() if g else {"name": name, "steps": [], "opt": {}}
        t["error"] = "%s\n%s" % (e, g.run.w.p.text if g else "")
        return t
    finally:
        if g:
            g.run.close()
    t = g.run.trace()
    t["config"] = g.run.w.p.text
    return t
