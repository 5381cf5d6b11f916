----------------------------- MODULE TraceFrame -----------------------------
(***************************************************************************)
(* Connections as they were recorded, byte by byte, in both directions: is *)
(* every frame from the server as it must be, every ping answered (in      *)
(* order, not before it came), and are the packets that were sent those    *)
(* that the events of the history stand for?                               *)
(***************************************************************************)
EXTENDS Frame, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, i, l, c, dead
vars == <<tr, i, l, c, dead>>
T == Traces[tr]

Init == /\ tr \in 1..Len(Traces) /\ i = 1 /\ dead = FALSE
        /\ l = Listener0(Traces[tr].kind = "ws") /\ c = Client0(Traces[tr].kind = "ws")

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

Ok(u, v) == v.ok /\ IsPrefix(v.pongs, u.pongs)

\* at the end
Complete(u, v) == /\ IsPrefix(u.pk, T.pk)                   \* packets as the history has them
                  /\ T.open => /\ u.pk = T.pk
                               /\ v.pongs = u.pongs
                  /\ v.raw = <<>> /\ Split(v.data).rest = <<>>   \* whole frames and packets only

Next == /\ ~dead /\ i <= Len(T.log)
        /\ tr' = tr
        /\ LET u == IF T.log[i].by = "c" THEN Arrive(l, T.log[i].b) ELSE l
               v == IF T.log[i].by = "s" THEN Get(c, T.log[i].b) ELSE c
           IN /\ l' = u /\ c' = v
              /\ IF Ok(u, v) /\ (i = Len(T.log) => Complete(u, v))
                 THEN /\ dead' = FALSE /\ i' = i + 1
                      /\ (i = Len(T.log)) => PrintT(<<"ACCEPT", T.name>>)
                 ELSE /\ PrintT(<<"STUCK", T.name, i, [pongs |-> <<u.pongs, v.pongs>>, ok |-> v.ok, raw |-> v.raw, n |-> <<Len(u.pk), Len(T.pk)>>]>>)
                      /\ dead' = TRUE /\ i' = i

Spec == Init /\ [][Next]_vars
=============================================================================
