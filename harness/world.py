"""Runs histories of client events on the real brokers of /repo, in one process, under a virtual clock.

The brokers are driven through the entry points the TCP listener uses (handleRequest and keepalive on
a socket object); the sockets are byte-level fakes.  What the real code sends is decoded with wire.py.
"""
import _thread, os, sys, threading, time, types, signal

REPO = os.environ.get("VP_REPO", "/repo")
_real_sleep, _real_monotonic, _real_time = time.sleep, time.monotonic, time.time


class Clock:
    """Virtual time.  Threads that sleep are parked until the clock has been advanced far enough."""

    def __init__(self):
        self.now = 1000.0
        self.cv = threading.Condition()
        self.sleepers = {}      # thread ident -> wake time
        self.main = threading.get_ident()

    def monotonic(self):
        return self.now

    def sleep(self, secs):
        me = threading.get_ident()
        if me == self.main:
            return
        with self.cv:
            wake = self.now + max(secs, 0)
            self.sleepers[me] = wake
            self.cv.notify_all()
            while self.now < wake and me in self.sleepers:
                self.cv.wait()
            self.sleepers.pop(me, None)
            self.cv.notify_all()

    def settle(self, threads, limit=2.0):
        "wait (in real time) until every thread of ours is asleep or finished"
        end = _real_monotonic() + limit
        with self.cv:
            while True:
                busy = [t for t in threads if t.is_alive() and
                        (t.ident not in self.sleepers or self.sleepers[t.ident] <= self.now)]
                if not busy:
                    return True
                if _real_monotonic() > end:
                    return False
                self.cv.wait(0.02)

    def advance(self, secs):
        with self.cv:
            self.now += secs
            self.cv.notify_all()


clock = Clock()
_installed = False


def install():
    "put the virtual clock and the code under test in place (once per process)"
    global _installed, brokers
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    clock.main = threading.get_ident()
    time.monotonic = clock.monotonic
    time.time = lambda: 1.6e9 + clock.now
    time.sleep = clock.sleep
    real_wait = threading.Event.wait

    def wait(self, timeout=None):
        if timeout is None or threading.get_ident() == clock.main or getattr(threading.current_thread(), "_vp_own", False) \
           or not getattr(threading.current_thread(), "_vp_sut", False):
            return real_wait(self, timeout)
        if not self.is_set():
            clock.sleep(timeout)
        return self.is_set()
    threading.Event.wait = wait
    sys.path.insert(0, os.path.join(REPO, "interoperability"))
    import logging
    logging.disable(logging.CRITICAL)
    import traceback
    traceback.print_exc = lambda *a, **k: None
    os.chdir(os.environ.get("VP_SCRATCH", "/tmp"))


class Sock:
    "a connected socket as the brokers see it"
    websockets = False
    count = 100

    def __init__(self):
        Sock.count += 1
        self.no = Sock.count
        self.inbuf = b""
        self.outbuf = bytearray()
        self.isclosed = False
        self.hook = None    # called before bytes are written (to switch threads there)
        self.ready = False
        self.idle = None

    def recv(self, n):
        if self.isclosed:
            raise OSError("closed")
        d, self.inbuf = self.inbuf[:n], self.inbuf[n:]
        return d

    def send(self, data):
        if self.hook:
            self.hook(self)
        if self.isclosed:
            raise OSError("closed")
        self.outbuf += bytes(data)
        return len(data)

    sendall = send

    def pending(self):
        return len(self.inbuf) > 0

    def fileno(self):
        return self.no

    def shutdown(self, how=0):
        pass

    def close(self):
        self.isclosed = True

    def settimeout(self, t):
        pass

    def gettimeout(self):
        return None

    def getpeername(self):
        return ("127.0.0.1", self.no)


DEFOPT = {"visual": False, "persistence": False, "overlapping_single": True, "dropQoS0": True,
          "publish_on_pubrel": False, "topicAliasMaximum": 2, "maximumPacketSize": 256, "receiveMaximum": 2,
          "serverKeepAlive": 60, "zero_length_clientids": True}


class World:
    """One broker process.  `opt` is the option record of the specification:
       pubrel, single, drop0, ta, mps, rm, ska, pers, zlc"""

    def __init__(self, opt, shared=None):
        install()
        from mqtt.brokers.V311 import MQTTBrokers as B3
        from mqtt.brokers.V5 import MQTTBrokers as B5
        from mqtt.brokers.SN import MQTTSNBrokers as BS
        o = {"visual": False, "persistence": bool(opt["pers"]), "overlapping_single": bool(opt["single"]),
             "dropQoS0": bool(opt["drop0"]), "publish_on_pubrel": bool(opt["pubrel"]),
             "topicAliasMaximum": opt["ta"], "maximumPacketSize": opt["mps"], "receiveMaximum": opt["rm"],
             "serverKeepAlive": opt["ska"], "zero_length_clientids": bool(opt["zlc"])}
        o = self.settings(o)
        before = set(threading.enumerate())
        self.opt = opt
        self.start = None
        made = self.started(o) if shared is None else None
        if made:
            self.b3, self.b5, self.bs = made
        else:
            self.shared = {} if shared is None else shared
            self.lock = threading.RLock()
            self.b3 = B3(options=dict(o), lock=self.lock, sharedData=self.shared)
            self.b5 = B5(options=dict(o), lock=self.lock, sharedData=self.shared)
            self.bs = BS(lock=self.lock, sharedData=self.shared)
            self.b3.setBroker5(self.b5)
            self.b5.setBroker3(self.b3)
            self.bs.setBroker3(self.b3)
            self.bs.setBroker5(self.b5)
        self.threads = [t for t in threading.enumerate() if t not in before and t is not self.start]
        for t in self.threads:
            t._vp_sut = True
        clock.settle(self.threads)
        self.conns = {}      # k -> [sock, version]
        self.gone = set()    # reported as closed
        self.order = []
        self.snout = {}

    def settings(self, o):
        return o

    def started(self, o):
        "the brokers as start.run makes them, if these are settings that a configuration file can have; its listener does nothing"
        if o != dict(DEFOPT, **{n: o[n] for n in ("visual", "topicAliasMaximum", "maximumPacketSize", "receiveMaximum")}):
            return None
        import types
        import mqtt.brokers.start as S
        import mqtt.brokers.listeners.TCPListeners as T
        import mqtt.brokers.listeners.HTTPListeners as H
        here, self.end = _thread.allocate_lock(), _thread.allocate_lock()
        here.acquire()
        self.end.acquire()
        made = []

        def create(*a, **k):
            made.append((S.broker3, S.broker5, S.brokerSN, H.lock, H.sharedData))
            here.release()
            self.end.acquire()

        def main():
            try:
                S.run(config)
            except Exception:
                pass
            finally:
                if not made:
                    here.release()

        config = ["receive_maximum %d" % o["receiveMaximum"], "topic_alias_maximum %d" % o["topicAliasMaximum"], "maximum_packet_size %d" % o["maximumPacketSize"],
                  "visual %s" % ("true" if o["visual"] else "false"), "listener 1883"]
        old, sig = T.create, getattr(S, "signal", None)
        T.create, S.signal = create, types.SimpleNamespace(signal=lambda *a: None, SIGTERM=15, SIGINT=2)
        t = threading.Thread(target=main, daemon=True)
        t.start()
        here.acquire()
        T.create, S.signal = old, sig
        if not made:
            return None
        self.start, self.module = t, S
        self.lock, self.shared = made[0][3:]
        return made[0][:3]

    # ---- one connection, as the listener serves it
    def open(self, k, ver):
        self.conns[k] = [Sock(), ver]
        self.order.append(k)
        return self.conns[k][0]

    def broker(self, k):
        return {4: self.b3, 5: self.b5}[self.conns[k][1]]

    def feed(self, k, data):
        "the bytes arrive; the listener handles packet after packet"
        sock = self.conns[k][0]
        if sock.isclosed:
            return
        sock.inbuf += data
        terminate = False
        while sock.inbuf and not terminate:
            try:
                terminate = self.broker(k).handleRequest(sock)
            except Exception:
                terminate = True
        if terminate:
            sock.close()

    def eof(self, k):
        "the client's end is gone: the listener reads end of file"
        sock = self.conns[k][0]
        if sock.isclosed:
            return
        sock.inbuf = b""
        try:
            self.broker(k).handleRequest(sock)
        except Exception:
            pass
        sock.close()

    def second(self):
        clock.advance(1)
        self.rest()

    def rest(self):
        "what happens when a second has passed"
        clock.settle(self.threads)
        for k in list(self.order):
            sock = self.conns[k][0]
            if not sock.isclosed:
                try:
                    for b in (self.b3, self.b5):
                        b.keepalive(sock)
                except Exception:
                    sock.close()

    def sn(self, k, data):
        "a datagram arrives from address k: served by the UDP listener's own handler"
        import mqtt.brokers.listeners.UDPListeners as U

        class Sink:
            def sendto(_, packet, address):
                self.snout[address[1]] = self.snout.get(address[1], b"") + bytes(packet)

        class Handler(U.UDPHandler):
            def __init__(self, request, address):
                self.request, self.client_address, self.server = request, address, None
        U.setBroker(self.bs)
        try:
            Handler((data, Sink()), ("127.0.0.1", k)).handle()
        except Exception:
            pass

    def http(self, url, method=""):
        "a request (GET, if nothing is said), served by the HTTP listener's own code: -> (status, body)"
        import mqtt.brokers.listeners.HTTPListeners as H
        H.setBrokers(self.b3, self.b5, self.bs)
        H.setSharedData(self.lock, self.shared)
        try:
            rc, text = H.api.get(url) if not method else H.api.delete(url) if method == "DELETE" else getattr(H.api, method.lower())(url, {"a": 1})
        except Exception as e:
            return -1, str(e)
        return rc, text or ""

    def reinit(self):
        if self.start and self.module.broker5 is self.b5:
            return self.module.reinitialize()
        for b in (self.b3, self.b5, self.bs):
            b.reinitialize()

    def output(self):
        "what was sent and closed since the last call"
        out, closed = dict(self.snout), []
        self.snout = {}
        for k in self.order:
            sock = self.conns[k][0]
            if sock.outbuf:
                out[k] = bytes(sock.outbuf)
                sock.outbuf = bytearray()
            if sock.isclosed and k not in self.gone:
                closed.append(k)
                self.gone.add(k)
        return out, closed

    def stop(self):
        for b in (self.b3, self.b5):
            try:
                b.shutdown()
            except Exception:
                pass
        if self.start:
            self.end.release()
        clock.advance(1)
        for t in self.threads + ([self.start] if self.start else []):
            t.join(0.5)
