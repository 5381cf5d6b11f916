---------------------------- MODULE TraceListeners ----------------------------
(***************************************************************************)
(* Did the listeners of the recorded runs let in whom they should?         *)
(*  T.listeners: the settings   T.steps[i].ev: TRY k n a | LEAVE k | PUB k *)
(*  .served, .shown: of a TRY   .alive: who answers   .heard: who got how  *)
(*  many copies                                                            *)
(***************************************************************************)
EXTENDS Listeners, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, i, dead
vars == <<tr, i, dead, in>>
T == Traces[tr]
S == T.steps[i]
L == T.listeners

Init == tr \in 1..Len(Traces) /\ i = 1 /\ dead = FALSE /\ in = [k \in {} |-> 0]

\* who is in after the step
After == CASE S.ev.e = "TRY" -> IF Stays(L[S.ev.n], S.ev.a) THEN DOMAIN in \cup {S.ev.k} ELSE DOMAIN in
           [] S.ev.e = "LEAVE" -> DOMAIN in \ {S.ev.k}
           [] OTHER -> DOMAIN in

\* everyone that is in answers; of a publication everyone gets a copy
Each(s, K) == Len(s) = Cardinality(K) /\ {s[j] : j \in 1..Len(s)} = K

Right == /\ Each(S.alive, After)
         /\ S.ev.e = "TRY" => S.served = Served(L[S.ev.n], S.ev.a) /\ S.shown = Shown(L[S.ev.n], S.ev.a)
         /\ S.ev.e = "PUB" => Each(S.heard, Hears)

Moves == CASE S.ev.e = "TRY" -> Try(L, S.ev.k, S.ev.n, S.ev.a)
           [] S.ev.e = "LEAVE" -> Leave(S.ev.k)
           [] OTHER -> Publish(S.ev.k)

Next == /\ ~dead /\ i <= Len(T.steps) /\ tr' = tr
        /\ IF Right THEN Moves /\ i' = i + 1 /\ dead' = FALSE /\ ((i = Len(T.steps)) => PrintT(<<"ACCEPT", T.name>>))
           ELSE /\ PrintT(<<"STUCK", T.name, i, [served |-> IF S.ev.e = "TRY" THEN <<Served(L[S.ev.n], S.ev.a), Shown(L[S.ev.n], S.ev.a)>> ELSE <<>>,
                                                  alive |-> After, heard |-> IF S.ev.e = "PUB" THEN Hears ELSE {}]>>)
                /\ dead' = TRUE /\ UNCHANGED <<i, in>>

Spec == Init /\ [][Next]_vars
==============================================================================
