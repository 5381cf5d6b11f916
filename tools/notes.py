NOT = {}


def TECH(p):
    if p in ("F01", "F02", "F03", "F04"):
        return ("TLA+ byte-level specification of the packet formats (Enc/Dec), its round-trip, truncation and flag invariants checked exhaustively with TLC; "
                "TLC's packets and random packets and malformations fed to the real pack/unpack and the results judged by TLC")
    if p in ("C01", "C02"):
        return ("TLA+ specification of the client library composed with a repeating server, checked exhaustively in scopes with TLC; TLC-generated and random "
                "histories run on the real library over TCP; what it sent and reported validated by TLC against the specification")
    if p == "L01":
        return ("TLA+ specification of the byte-stream and WebSocket framing (every cutting of a stream yields the same packets) checked exhaustively with TLC; TLC-generated "
                "and random framings of histories sent to the real listeners over TCP, WebSocket and TLS; frames validated against it, packets against the broker specification")
    if p == "R01":
        return ("TLA+ specification of the proxies checked exhaustively in scopes with TLC; TLC-generated and random byte schedules run through the real proxies over TCP; "
                "what came out on either side and what was reported validated by TLC")
    if p == "M01":
        return ("TLA+ specification of the explorer and of replaying checked exhaustively on small models with TLC (sound, complete, no run repeated, records replay); "
                "TLC-generated and random explorations of the real explorer, and replays of their records, validated by TLC")
    if p == "N01":
        return ("TLA+ specification of the listeners and of attempts to get in, checked exhaustively with TLC (and five flawed brokers refuted); attempts at startbroker.py as a process, with generated "
                "configurations and certificates of every kind, validated by TLC against the specification")
    if p == "V01":
        return ("TLA+ specification of the reports of packets, checked exhaustively with TLC on a small broker with observers; TLC-generated and random histories run on the real brokers with "
                "observers, in one process and with startbroker.py as a process; the reports, and the lines of the msc file, validated by TLC against the packets, the packets against the broker specification")
    return ("TLA+ specification of the broker checked exhaustively in scopes with TLC; TLC-generated behaviours replayed into the real brokers; "
            "recorded runs of the real brokers validated by TLC against the specification"
            + ("; the same with startbroker.py as a process with generated configuration files, stopped and started again" if p in ("S01", "S02", "H01") else ""))


def NOTE(p):
    if p in ("F01", "F02", "F03", "F04"):
        return ("The code's encoder and decoder are compared with the specification on every packet TLC enumerates and on seeded random packets and corruptions; "
                "the space of all packets is sampled beyond MCCodec's bounds. Packets a receiver may refuse (Odd) are not decided.")
    if p in ("C01", "C02"):
        return ("Every step of the explored runs of the real library (callback mode) is judged by the TLA+ specification; delivery and completion invariants hold "
                "exhaustively for the bounded composition with a server. Other runs are sampled. One application thread; no resending by the client.")
    if p == "L01":
        return ("Real listeners over loopback TCP; the order of events is fixed by waiting for the answers, so framing rather than timing is explored. A suspicious history counts "
                "only if it is rejected again with longer waits. Framings beyond MCFrame's bounds are sampled.")
    if p == "R01":
        return ("Both proxies run in the harness process with their real handler threads; the control connection (paho, not installed) is a stand-in. Schedules beyond MCProxy's bounds are "
                "sampled. A suspicious history counts only if it is rejected again with longer waits.")
    if p == "M01":
        return ("Random models with synthetic systems behind them; which paths are still open is judged only for systems with reproducible results. The shipped MQTT model is not run. "
                "Models beyond those enumerated are sampled.")
    if p == "N01":
        return ("Real TLS over loopback addresses; settings and attempts beyond those of one listener are sampled (the combinations of one listener and one attempt are few, and come up many times). Trusted: "
                "Python's ssl module as client. A suspicious history counts only if it is rejected again with longer waits.")
    if p == "V01":
        return ("Every report of every explored run is judged by the TLA+ specification. Of a refused packet a report may be missing. Properties other than topic alias and message expiry "
                "are not compared. Reports of PINGREQ and PINGRESP are not judged with a broker process. Runs are sampled.")
    return ("Every explored run of the real code was judged packet by packet by the TLA+ specification; the specification's invariants hold "
            "exhaustively in the named scopes. Outside the scopes and the runs sampled nothing is proved. Trusted: harness codec, fake sockets and virtual clock.")
