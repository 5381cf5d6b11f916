"""A broker process on a free port and small raw MQTT clients."""
import os, shutil, socket, subprocess, sys, tempfile, time

INTEROP = os.path.join(os.getcwd(), "interoperability")


class Broker:
    def __init__(self, conf="", cwd=None):
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        self.port = s.getsockname()[1]
        s.close()
        self.own = cwd is None
        self.dir = cwd or tempfile.mkdtemp(prefix="demo")
        self.conf = os.path.join(self.dir, "b.conf")
        with open(self.conf, "w") as f:
            f.write(conf + "\nlistener %d 127.0.0.1\n" % self.port)
        self.start()

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=INTEROP)
        self.p = subprocess.Popen(["/opt/venv/bin/python", os.path.join(INTEROP, "startbroker.py"), "-c", self.conf],
                                  cwd=self.dir, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for _ in range(200):
            try:
                socket.create_connection(("127.0.0.1", self.port), 1).close()
                return
            except OSError:
                time.sleep(0.05)
        raise SystemExit("broker did not start")

    def stop(self, keep=False):
        self.p.terminate()
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        if self.own and not keep:
            shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()


def s16(x):
    x = x.encode() if isinstance(x, str) else x
    return len(x).to_bytes(2, "big") + x


def vbi(n):
    o = b""
    while True:
        n, d = divmod(n, 128)
        o += bytes([d | (128 if n else 0)])
        if not n:
            return o


def packet(head, body=b""):
    return bytes([head]) + vbi(len(body)) + body


class Client:
    def __init__(self, broker, v=5, port=None):
        self.v = v
        self.s = socket.create_connection(("127.0.0.1", port or broker.port), 5)
        self.buf = b""
        self.closed = False

    def props(self, p):
        return vbi(len(p)) + p if self.v == 5 else b""

    def send(self, b):
        self.s.sendall(b)

    def connect(self, cid, clean=True, props=b"", will=None, ka=0, wprops=b""):
        "will = (topic, payload, qos, retain)"
        fl = 2 * clean
        tail = b""
        if will:
            fl |= 4 | will[2] << 3 | will[3] << 5
            tail = self.props(wprops) + s16(will[0]) + s16(will[1])
        self.send(packet(0x10, s16("MQTT") + bytes([self.v, fl]) + ka.to_bytes(2, "big") + self.props(props) + s16(cid) + tail))
        return self.want("CONNACK")

    def subscribe(self, *subs, id=1, props=b""):
        "subs: (filter, options)"
        self.send(packet(0x82, id.to_bytes(2, "big") + self.props(props) + b"".join(s16(f) + bytes([o]) for f, o in subs)))

    def unsubscribe(self, *fs, id=1):
        self.send(packet(0xA2, id.to_bytes(2, "big") + self.props(b"") + b"".join(s16(f) for f in fs)))

    def publish(self, topic, payload, q=0, id=0, r=0, dup=0, props=b""):
        self.send(packet(0x30 | dup << 3 | q << 1 | r, s16(topic) + (id.to_bytes(2, "big") if q else b"") + self.props(props)
                         + (payload.encode() if isinstance(payload, str) else payload)))

    def ack(self, kind, id, rc=None):
        h = {"PUBACK": 0x40, "PUBREC": 0x50, "PUBREL": 0x62, "PUBCOMP": 0x70}[kind]
        self.send(packet(h, id.to_bytes(2, "big") + (bytes([rc]) if rc is not None else b"")))

    def ping(self):
        self.send(b"\xc0\x00")

    def disconnect(self, rc=None):
        self.send(packet(0xE0, b"" if rc is None else bytes([rc])))
        time.sleep(0.1)
        self.close()

    def close(self):
        self.s.close()

    def recv(self, timeout=3):
        "the next packet as a dict; None when the time is up; {'t': 'CLOSED'} when closed"
        end = time.time() + timeout
        while True:
            p = self._take()
            if p:
                return p
            left = end - time.time()
            if left <= 0:
                return None
            self.s.settimeout(left)
            try:
                d = self.s.recv(65536)
            except socket.timeout:
                return None
            except OSError:
                d = b""
            if not d:
                self.closed = True
                return {"t": "CLOSED"}
            self.buf += d

    def _take(self):
        b = self.buf
        n, m, i = 0, 1, 1
        while True:
            if i >= len(b):
                return None
            n += (b[i] & 127) * m
            m *= 128
            i += 1
            if not b[i - 1] & 128:
                break
        if len(b) < i + n:
            return None
        head, body = b[0], b[i:i + n]
        self.buf = b[i + n:]
        names = ["", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE", "SUBACK", "UNSUBSCRIBE",
                 "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH"]
        p = {"t": names[head >> 4], "flags": head & 15, "body": body, "size": i + n}
        if p["t"] == "PUBLISH":
            k = int.from_bytes(body[:2], "big")
            p["topic"], body = body[2:2 + k].decode(), body[2 + k:]
            p["q"], p["r"], p["dup"], p["id"] = head >> 1 & 3, head & 1, head >> 3 & 1, 0
            if p["q"]:
                p["id"], body = int.from_bytes(body[:2], "big"), body[2:]
            p["props"], body = self._props(body)
            p["pay"] = body.decode("utf-8", "replace")
        elif p["t"] == "CONNACK":
            p["sp"], p["rc"] = body[0], body[1]
            p["props"] = self._props(body[2:])[0]
        elif p["t"] in ("SUBACK", "UNSUBACK"):
            p["id"] = int.from_bytes(body[:2], "big")
            p["rcs"] = list(self._props(body[2:])[1])
        elif p["t"] in ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP"):
            p["id"], p["rc"] = int.from_bytes(body[:2], "big"), body[2] if len(body) > 2 else 0
        elif p["t"] == "DISCONNECT":
            p["rc"] = body[0] if body else 0
        return p

    def _props(self, b):
        if self.v != 5:
            return b"", b
        n, m, i = 0, 1, 0
        while True:
            n += (b[i] & 127) * m
            m *= 128
            i += 1
            if not b[i - 1] & 128:
                break
        return b[i:i + n], b[i + n:]

    def want(self, t, timeout=3):
        p = self.recv(timeout)
        if not p or p["t"] != t:
            raise Failed("expected %s, got %s" % (t, p))
        return p

    def sync(self):
        "everything the broker sent up to the answer of a PINGREQ"
        self.ping()
        out = []
        while True:
            p = self.recv(3)
            if p is None:
                raise Failed("no PINGRESP; got %s" % out)
            if p["t"] == "PINGRESP":
                return out
            out.append(p)
            if p["t"] == "CLOSED":
                return out


class Failed(Exception):
    pass


def demo(f):
    "run f; exit 0 if it holds, 1 if not"
    try:
        f()
    except (Failed, AssertionError) as e:
        import traceback
        traceback.print_exc()
        print("FAILED:", e)
        sys.exit(1)
    print("holds")
    sys.exit(0)
