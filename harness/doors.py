"""N01: the listeners of a broker process let in whom their settings say, and nobody else.

A broker process (process.py) gets a configuration file with a few listeners of random settings; clients
with all kinds of certificates, or none, try to get in.  What they see is judged by spec/TraceListeners.tla.
"""
import http.client, json, os, random, select, socket, ssl, time
from . import pool, process, tlc, wire, world
from .tcp import Fault, time_monotonic, time_sleep

KEYS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "keys")
IP = {"one": "127.0.0.1", "two": "127.0.0.2"}
IGNORED = ["# require_certificate false", "", "ciphers DEFAULT", "#certfile nothing.crt", "use_identity_as_username false", "   # listener 1883", "tls_version tlsv1"]
SHOWN = {}


def key(name):
    return os.path.join(KEYS, name)


def shown(der):
    if not SHOWN:
        for s in ("s1", "s2"):
            SHOWN[ssl.PEM_cert_to_DER_cert(open(key("server%s.crt" % s[1])).read())] = s
    return SHOWN.get(der, "?")


def settings(r):
    l = {"proto": r.choice(["mqtt"] * 5 + ["http"]), "addr": r.choice(["any", "any", "one", "one", "two"]), "tls": r.random() < 0.75,
         "cert": "none", "ca": "none", "require": True, "nosni": True}
    if l["tls"]:
        l["cert"] = r.choice(["s1"] * 4 + ["s2"] * 3 + ["none"])
        l["ca"] = r.choice(["a", "a", "ab", "none"]) if l["cert"] != "none" else r.choice(["a", "ab"])
        l["require"] = r.random() < 0.5
        l["nosni"] = l["proto"] == "http" or r.random() < 0.6
    elif r.random() < 0.15 and l["addr"] != "two":
        l["proto"] = "mqttsn"
        l["addr"] = "one"
    return l


def text(r, l, port):
    addr = {"one": "127.0.0.1", "two": "127.0.0.2"}.get(l["addr"]) or r.choice(["", "INADDR_ANY"])
    proto = l["proto"]
    if proto == "mqtt" and (not addr or r.random() < 0.5):
        proto = ""
    if proto and not addr:
        addr = "INADDR_ANY"
    o = []
    if l["ca"] != "none":
        o.append("cafile " + key("ca-%s.crt" % l["ca"]))
    if l["cert"] != "none":
        if l["cert"] == "s1" and r.random() < 0.3:
            o.append("certfile " + key("server1.pem"))      # with the key in it
        else:
            o += ["certfile " + key("server%s.crt" % l["cert"][1]), "keyfile " + key("server%s.key" % l["cert"][1])]
    if not l["require"]:
        o.append("require_certificate false")
    elif r.random() < 0.5:
        o.append("require_certificate true")
    if not l["nosni"]:
        o.append("allow_non_sni_connections false")
    elif r.random() < 0.3:
        o.append("allow_non_sni_connections true")
    r.shuffle(o)
    out = [("listener %d %s %s" % (port, addr, proto)).rstrip()]
    for x in o:
        out += [r.choice(IGNORED)] if r.random() < 0.3 else []
        out.append(r.choice(["", "", "  ", "\t"]) + x)
    return out


class Site(process.Broker):
    def __init__(self, r, patience):
        self.listeners = [settings(r) for _ in range(r.choice([1, 2, 3, 3, 4]))]
        super().__init__({}, ["l%d" % n for n in range(1, len(self.listeners) + 1)], r, patience)

    def write(self, opt, extra):
        lines = [r for r in (["#receive_maximum 1", ""] if self.rnd.random() < 0.3 else [])]
        for n, l in enumerate(self.listeners, 1):
            lines += text(self.rnd, l, self.ports["l%d" % n])
        return "\n".join(lines) + "\n"

    def socket_kind(self, k):
        return socket.SOCK_DGRAM if self.listeners[int(k[1:]) - 1]["proto"] == "mqttsn" else socket.SOCK_STREAM


def attempt(r, l):
    a = {"to": "one" if l["proto"] == "mqttsn" else r.choice(["one", "one", "two"]) if l["addr"] != "two" else r.choice(["one", "two", "two"]),
         "tls": l["tls"] if r.random() < 0.88 else not l["tls"], "cert": "none", "sni": False, "speaks": l["proto"]}
    if l["proto"] == "mqttsn":
        a["tls"] = False
    elif r.random() < 0.06:
        a["speaks"] = "http" if l["proto"] == "mqtt" else "mqtt"
    if a["tls"]:
        a["cert"] = r.choice(["none"] * 4 + ["a"] * 4 + ["b"] * 2 + ["old", "self"])
        a["sni"] = r.random() < 0.6
    return a


def string(s):
    return len(s).to_bytes(2, "big") + s


class Client:
    "a client that tries, and stays"

    def __init__(self, k, port, l, a, r, patience):
        self.k, self.sock, self.patience, self.ver = k, None, patience, r.choice([4, 5])
        self.data, self.heard = b"", []
        self.served, self.shown = False, ""
        hopeless = a["tls"] != l["tls"] or a["speaks"] != l["proto"]
        try:
            self.go(port, a, r, (0.4 if hopeless else 8) * patience)
        except socket.timeout:
            if not hopeless:
                raise Fault("attempt %d: no answer" % k)
        except (OSError, EOFError, http.client.HTTPException):
            pass
        if not self.served or a["speaks"] != "mqtt":
            self.close()

    def go(self, port, a, r, wait):
        if a["speaks"] == "mqttsn":
            self.sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            self.sock.connect((IP[a["to"]], port))
            self.sock.settimeout(wait)
            self.sock.send(b"\x08\x04\x04\x01\x00\x3cn" + bytes([65 + self.k % 26]))
            self.served = self.sock.recv(1024)[:3] == b"\x03\x05\x00"
            return
        self.sock = socket.create_connection((IP[a["to"]], port), timeout=wait)
        if a["tls"]:
            c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            c.check_hostname = False
            c.verify_mode = ssl.CERT_NONE
            if a["cert"] != "none":
                c.load_cert_chain(key("client-%s.crt" % a["cert"]), key("client-%s.key" % a["cert"]))
            self.sock = c.wrap_socket(self.sock, server_hostname="broker.test" if a["sni"] else None)
        if a["speaks"] == "http":
            self.sock.sendall(b"GET /api/v0001/retained HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")
            self.served = self.sock.recv(4096).startswith(b"HTTP/1.0 200")
        else:
            body = string(b"MQTT") + bytes([self.ver]) + b"\x02\x00\x78"
            body += (b"\x00" if self.ver == 5 else b"") + string(b"door%d" % self.k)
            self.sock.sendall(wire.frame(1, 0, body))
            p = self.next(wait)
            self.served = p[0] == 0x20 and p[3] == 0
            if self.served:
                self.sock.sendall(wire.frame(8, 2, b"\x00\x01" + (b"\x00" if self.ver == 5 else b"") + string(b"hall/#") + b"\x00"))
                if self.next(wait)[0] != 0x90:
                    raise Fault("attempt %d: no SUBACK" % self.k)
        if self.served and a["tls"]:
            self.shown = shown(self.sock.getpeercert(True))

    def next(self, wait):
        "a packet"
        end = time_monotonic() + wait
        while True:
            pk, rest = wire.split(self.data)
            if pk:
                self.data = self.data[len(pk[0]):]
                return bytes(pk[0])
            self.sock.settimeout(max(0.01, end - time_monotonic()))
            d = self.sock.recv(4096)
            if not d:
                raise EOFError()
            self.data += d

    def alive(self):
        "does it get an answer to a ping? (publications on the way are kept)"
        try:
            self.sock.sendall(b"\xc0\x00")
            while True:
                p = self.next(8 * self.patience)
                if p[0] >> 4 == 3:
                    self.heard.append(p)
                elif p == b"\xd0\x00":
                    return True
                else:
                    return False
        except socket.timeout:
            raise Fault("connection %d: no answer to a ping" % self.k)
        except (OSError, EOFError):
            return False

    def close(self):
        if self.sock:
            self.sock.close()
            self.sock = None


def generate(name, seed, patience=1):
    r = random.Random(seed)
    site, ins, steps, k = None, {}, [], 0
    t = {"name": name, "listeners": [], "steps": steps, "config": ""}
    try:
        site = Site(r, patience)
        t["listeners"], t["config"] = site.listeners, site.text
        for _ in range(r.randrange(14, 26)):
            x = r.random()
            s = {"served": False, "shown": "", "heard": [], "alive": []}
            if x < 0.76 or not ins:
                k += 1
                n = r.randrange(len(site.listeners)) + 1
                l = site.listeners[n - 1]
                a = attempt(r, l)
                c = Client(k, site.ports["l%d" % n], l, a, r, patience)
                s.update(ev={"e": "TRY", "k": k, "n": n, "a": a}, served=c.served, shown=c.shown)
                if c.sock:
                    ins[k] = c
            elif x < 0.9:
                j = r.choice(sorted(ins))
                s["ev"] = {"e": "PUB", "k": j}
                word = b"w%d" % len(steps)
                ins[j].sock.sendall(wire.frame(3, 0, string(b"hall/x") + (b"\x00" if ins[j].ver == 5 else b"") + word))
                ins[j].alive()      # the publisher's packets have been dealt with
                for i in sorted(ins):
                    ins[i].alive()
                    for p in ins[i].heard:
                        s["heard"].append(i if p.endswith(word) else -i)
                    ins[i].heard = []
            else:
                j = r.choice(sorted(ins))
                s["ev"] = {"e": "LEAVE", "k": j}
                c = ins.pop(j)
                c.sock.sendall(b"\xe0\x00")
                c.close()
            s["alive"] = [i for i in sorted(ins) if ins[i].alive()]
            for i in sorted(ins):
                if ins[i].heard:
                    raise Fault("connection %d gets %r" % (i, ins[i].heard))
            steps.append(s)
            if len(s["alive"]) != len(ins):
                break       # judged below
        if site.proc.poll() is not None:
            raise Fault("the broker ended: " + site.said()[-600:])
    except Fault as e:
        t["error"] = "%s\n%s" % (e, t["config"])
    finally:
        for c in ins.values():
            c.close()
        if site:
            site.close()
    return t


CFG = 'CONSTANTS Max = %d Flaw = "%s"\nINIT Init\nNEXT Next\nVIEW View\nINVARIANTS Guarded Undisturbed Open\nCHECK_DEADLOCK FALSE\n'


def model(ctx):
    r = tlc.check("MCListeners", CFG % (3 if ctx.thorough else 2, ""), timeout=1500)
    if r["error"] or not r["complete"]:
        raise tlc.TLCError(r["error"] or "MCListeners: not finished")
    ctx.states += r["states"]
    ctx.transitions += r["transitions"]
    ctx.part("model MCListeners", states=r["states"], transitions=r["transitions"], complete=r["complete"])
    for flaw in ("optional", "anyname", "authority", "address", "plain"):
        if not tlc.check("MCListeners", CFG % (1, flaw), timeout=100)["error"]:
            raise tlc.TLCError("MCListeners: nothing is found wrong with listeners of kind " + flaw)
    ctx.part("model MCListeners", flaws_refuted=5)


def judge(job):
    "one history, with patience: -> (what is wrong, details) or None"
    t = pool.run_jobs([(job[0], job[1], "doors", (6,))], 1)[0]
    if t.get("error"):
        return "run %s: %s" % (t["name"], t["error"][-1200:]), {"steps": t["steps"][-4:]}
    for n, (step, exp) in tlc.validate("TraceListeners", [t], hinted=False)[0].items():
        step = step or len(t["steps"])
        s = t["steps"][step - 1]
        return "run %s: step %d is not what the listeners' settings say:\n  %s\n  listener: %s\n  specification wants: %s\n  configuration:\n%s" % (
            n, step, json.dumps(s), json.dumps(t["listeners"][s["ev"]["n"] - 1]) if "n" in s["ev"] else "", exp[:500], t["config"]), \
            {"step": step, "specification_wants": exp, "recorded": t["steps"][:step], "listeners": t["listeners"], "config": t["config"]}
    return None


def check(ctx):
    model(ctx)
    ctx.log("model:", ctx.states, "states complete")
    b = ctx.base("doors")
    jobs = [("N01-%d" % (b + j), b + j, "doors", ()) for j in range(128 * (12 if ctx.thorough else 1))]
    traces = pool.run_jobs(jobs)
    good = [t for t in traces if not t.get("error")]
    ctx.log(len(traces), "histories run with a broker process")
    rej, gen, dis = tlc.validate("TraceListeners", good, hinted=False) if good else ({}, 0, 0)
    ctx.traces += len(good)
    tries = [s for t in good for s in t["steps"] if s["ev"]["e"] == "TRY"]
    ctx.steps += sum(len(t["steps"]) for t in good)
    ctx.states += dis
    ctx.transitions += gen
    sus = [j for j, t in zip(jobs, traces) if t.get("error") or t["name"] in rej]
    ctx.part("broker processes", histories=len(good), attempts=len(tries), served=sum(s["served"] for s in tries), refused=sum(not s["served"] for s in tries), rejected=len(sus))
    for job in sus[:6]:
        r = judge(job)
        if r:
            ctx.violation(r[0], dict({"kind": "doors", "job": list(job)}, **r[1]))
        else:
            ctx.log("history", job[0], "is accepted when run again")
            ctx.part("histories accepted only when run again", n=1)
        if len(ctx.violations) > 1:
            break
    if good:
        ctx.sample({"configuration": good[0]["config"], "steps": good[0]["steps"][:3]})
    ctx.assumptions += ["clients that begin a TLS handshake and do not go on are not tried (the listener waits for them)"]
