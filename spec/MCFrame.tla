------------------------------ MODULE MCFrame -------------------------------
(***************************************************************************)
(* A short stream of MQTT packets, sent in all ways of framing it, arriving*)
(* cut in all ways: the listener hands on exactly the packets of the       *)
(* stream, each as soon as it is all there, and answers every ping.        *)
(***************************************************************************)
EXTENDS Frame, TLC, Json

CONSTANTS Ws, Sim, Budget, Script

\* PINGREQ; PUBLISH a x (QoS 0); PUBREL 257; in Sim mode one byte stands for a piece of what is really sent
Text == IF Script = "long" THEN <<48, 4, 0, 1, 97, 130, 192, 0, 98, 2, 1, 1>> ELSE <<192, 0, 48, 4, 0, 1, 97, 130>>
Keys == IF Sim THEN {<<7, 0, 130, 255>>} ELSE {<<0, 0, 0, 0>>, <<137, 0, 130, 1>>}

VARIABLES todo,     \* of Text, not yet sent
          net,      \* bytes under way
          l,        \* the listener
          sent,     \* frames sent: <<bytes on the wire so far, bytes of Text so far, pings so far>>
          at,       \* bytes arrived
          pings, n, hist, open

vars == <<todo, net, l, sent, at, pings, n, hist, open>>

Init == /\ todo = Text /\ net = <<>> /\ l = Listener0(Ws) /\ sent = << <<0, 0, 0>> >> /\ at = 0 /\ pings = <<>> /\ n = 0
        /\ hist = <<>> /\ open = TRUE

Last == sent[Len(sent)]

Data == /\ todo # <<>>
        /\ IF Ws
           THEN \E k \in 0..Len(todo), fin \in BOOLEAN, key \in Keys, longer \in 0..2 :
                  /\ longer > 0 => k = 1
                  /\ n < Budget
                  /\ LET f == Frame(IF open THEN BIN ELSE CONT, fin, SubSeq(todo, 1, k), key, longer)
                     IN /\ net' = net \o f
                        /\ sent' = Append(sent, <<Last[1] + Len(f), Last[2] + k, Last[3]>>)
                  /\ todo' = SubSeq(todo, k + 1, Len(todo))
                  /\ open' = fin
                  /\ n' = n + 1
                  /\ hist' = IF Sim THEN Append(hist, [a |-> "data", k |-> k, fin |-> fin, longer |-> longer]) ELSE hist
                  /\ UNCHANGED <<l, at, pings>>
           ELSE /\ net' = net \o todo /\ todo' = <<>>
                /\ sent' = sent \o [j \in 1..Len(todo) |-> <<Last[1] + j, Last[2] + j, 0>>]
                /\ hist' = IF Sim THEN Append(hist, [a |-> "data", k |-> Len(todo), fin |-> TRUE, longer |-> 0]) ELSE hist
                /\ UNCHANGED <<l, at, pings, n, open>>

Control == /\ Ws /\ n < Budget
           /\ \E k \in {0, 2}, op \in {PING, PONG} :
                LET pl == SubSeq(<<n + 1, 192>>, 1, k)
                    f == Frame(op, TRUE, pl, CHOOSE x \in Keys : TRUE, 0)
                IN /\ net' = net \o f
                   /\ sent' = Append(sent, <<Last[1] + Len(f), Last[2], Last[3] + (IF op = PING THEN 1 ELSE 0)>>)
                   /\ pings' = IF op = PING THEN Append(pings, pl) ELSE pings
                   /\ hist' = IF Sim THEN Append(hist, [a |-> IF op = PING THEN "ping" ELSE "pong", k |-> k, fin |-> TRUE, longer |-> 0]) ELSE hist
           /\ n' = n + 1
           /\ UNCHANGED <<todo, l, at, open>>

Deliver == \E k \in (IF Sim THEN {1, 2, 3, 5, Len(net)} \cap (1..Len(net)) ELSE 1..Len(net)) :
             /\ l' = Arrive(l, SubSeq(net, 1, k))
             /\ net' = SubSeq(net, k + 1, Len(net))
             /\ at' = at + k
             /\ hist' = IF Sim THEN Append(hist, [a |-> "cut", k |-> k, fin |-> TRUE, longer |-> 0]) ELSE hist
             /\ UNCHANGED <<todo, sent, pings, n, open>>

Next == Data \/ Control \/ Deliver
Spec == Init /\ [][Next]_vars

\* everything in frames that have arrived completely
Here == LET P == SelectSeq(sent, LAMBDA x : x[1] <= at) IN P[Len(P)]

Exact  == l.pk = Split(SubSeq(Text, 1, Here[2])).pk
Answer == l.pongs = SubSeq(pings, 1, Here[3])
Alive  == ~l.over
\* the frames of the sender are understood as they were made
Whole  == (todo = <<>> /\ net = <<>>) => (l.pk = Split(Text).pk /\ l.pongs = pings /\ l.raw = <<>> /\ l.data = <<>>)

\* a frame no listener may take ends it, whatever came before
Refused == \A f \in {Frame(1, TRUE, <<192, 0>>, <<1, 2, 3, 4>>, 0), Frame(5, TRUE, <<>>, <<1, 2, 3, 4>>, 0), Frame(BIN, TRUE, <<192, 0>>, <<>>, 0)} :
             Ws /\ l.raw = <<>> => LET u == Arrive(l, f) IN u.over /\ u.pk = l.pk

Written == ~(Sim /\ todo = <<>> /\ net = <<>> /\ ~PrintT(<<"HIST", ToJson(hist)>>))
View == <<todo, net, l, sent, at, pings, n, open>>
=============================================================================
