------------------------------- MODULE Frame --------------------------------
(***************************************************************************)
(* What lies between the bytes of a connection and the MQTT packets:       *)
(* MQTT packets in a stream of bytes, and WebSocket frames (RFC 6455) that *)
(* carry such a stream.  How the bytes are cut into segments and frames    *)
(* must not matter: the packets are those of the stream.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

(* ---- packets in a stream ---- *)
\* remaining length that starts at b[2]: <<length, bytes used>>, <<-1, 0>> not all there, <<-2, 0>> invalid
RECURSIVE RemLen(_, _, _, _)
RemLen(b, j, mult, acc) ==
  IF j > 5 THEN <<-2, 0>>
  ELSE IF j > Len(b) THEN <<-1, 0>>
  ELSE LET v == acc + ((b[j] % 128) * mult)
       IN IF b[j] < 128 THEN <<v, j - 1>> ELSE RemLen(b, j + 1, mult * 128, v)

RECURSIVE SplitR(_, _)
SplitR(b, pk) ==
  LET r == RemLen(b, 2, 1, 0)
  IN IF r[1] = -2 THEN [pk |-> pk, rest |-> b, bad |-> TRUE]
     ELSE IF r[1] = -1 \/ Len(b) < 1 + r[2] + r[1] THEN [pk |-> pk, rest |-> b, bad |-> FALSE]
     ELSE LET n == 1 + r[2] + r[1] IN SplitR(SubSeq(b, n + 1, Len(b)), Append(pk, SubSeq(b, 1, n)))

Split(b) == SplitR(b, <<>>)

(* ---- frames ---- *)
CONT == 0  BIN == 2  CLOSE == 8  PING == 9  PONG == 10

RECURSIVE BigEndian(_, _, _, _)
BigEndian(b, j, n, acc) == IF n = 0 THEN acc ELSE BigEndian(b, j + 1, n - 1, acc * 256 + b[j])

Masked(b, key) == [j \in 1..Len(b) |-> b[j] ^^ key[((j - 1) % 4) + 1]]

NoFrame == [n |-> 0]

\* the first frame in b; n is its size, 0 if it is not all there
First(b) ==
  IF Len(b) < 2 THEN NoFrame
  ELSE LET l7 == b[2] % 128
           ext == IF l7 = 126 THEN 2 ELSE IF l7 = 127 THEN 8 ELSE 0
           masked == b[2] >= 128
           head == 2 + ext + (IF masked THEN 4 ELSE 0)
       IN IF Len(b) < head THEN NoFrame
          ELSE LET l == IF ext = 0 THEN l7 ELSE BigEndian(b, 3, ext, 0)
               IN IF Len(b) < head + l THEN NoFrame
                  ELSE [n |-> head + l, op |-> b[1] % 16, fin |-> b[1] >= 128, rsv |-> (b[1] \div 16) % 8, masked |-> masked,
                        minimal |-> (ext = 0) \/ (ext = 2 /\ l > 125) \/ (ext = 8 /\ l > 65535),
                        pl |-> LET raw == SubSeq(b, head + 1, head + l)
                               IN IF masked THEN Masked(raw, SubSeq(b, head - 3, head)) ELSE raw]

Bytes(n, k) == [j \in 1..k |-> (n \div (256 ^ (k - j))) % 256]

\* the bytes of a frame: key is <<>> for none; longer: more length bytes than needed
Frame(op, fin, pl, key, longer) ==
  LET l == Len(pl)
      m == IF key = <<>> THEN 0 ELSE 128
      len == IF longer = 2 \/ l > 65535 THEN <<m + 127, 0, 0, 0, 0, 0>> \o Bytes(l, 3)
             ELSE IF longer = 1 \/ l > 125 THEN <<m + 126>> \o Bytes(l, 2) ELSE <<m + l>>
  IN <<(IF fin THEN 128 ELSE 0) + op>> \o len \o key \o (IF key = <<>> THEN pl ELSE Masked(pl, key))

(* ---- the listener: one connection, after the handshake ----
   raw: bytes of an incomplete frame   data: of an incomplete packet   pk: packets for the broker
   pongs: what has to be answered to pings   over: nothing more is taken *)
Listener0(ws) == [ws |-> ws, raw |-> <<>>, data |-> <<>>, pk |-> <<>>, pongs |-> <<>>, over |-> FALSE]

Stream(s, b) ==
  LET r == Split(s.data \o b)
  IN [s EXCEPT !.data = r.rest, !.pk = @ \o r.pk, !.over = @ \/ r.bad]

RECURSIVE TakeFrames(_)
TakeFrames(s) ==
  LET f == First(s.raw)
  IN IF s.over \/ f.n = 0 THEN s
     ELSE LET u == [s EXCEPT !.raw = SubSeq(@, f.n + 1, Len(@))]
          IN TakeFrames(IF ~f.masked \/ f.op \notin {CONT, BIN, PING, PONG} THEN [u EXCEPT !.over = TRUE]
                        ELSE IF f.op = PING THEN [u EXCEPT !.pongs = Append(@, f.pl)]
                        ELSE IF f.op = PONG THEN u
                        ELSE Stream(u, f.pl))

Arrive(s, b) == IF s.over THEN s ELSE IF s.ws THEN TakeFrames([s EXCEPT !.raw = @ \o b]) ELSE Stream(s, b)

(* ---- the other direction: what a client may be sent ---- *)
FrameOk(f) == /\ f.op \in {BIN, PONG, CLOSE} /\ f.fin /\ f.rsv = 0 /\ ~f.masked /\ f.minimal

\* c: [raw, data, pongs: payloads of the pongs received, ok]
Client0(ws) == [ws |-> ws, raw |-> <<>>, data |-> <<>>, pongs |-> <<>>, ok |-> TRUE]

RECURSIVE ClientFrames(_)
ClientFrames(c) ==
  LET f == First(c.raw)
  IN IF ~c.ok \/ f.n = 0 THEN c
     ELSE IF ~FrameOk(f) THEN [c EXCEPT !.ok = FALSE]
     ELSE LET u == [c EXCEPT !.raw = SubSeq(@, f.n + 1, Len(@))]
          IN ClientFrames(IF f.op = BIN THEN [u EXCEPT !.data = @ \o f.pl]
                          ELSE IF f.op = PONG THEN [u EXCEPT !.pongs = Append(@, f.pl)] ELSE u)

Get(c, b) == IF c.ws THEN ClientFrames([c EXCEPT !.raw = @ \o b]) ELSE [c EXCEPT !.data = @ \o b]
=============================================================================
