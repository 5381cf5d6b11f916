----------------------------- MODULE TraceClient -----------------------------
(***************************************************************************)
(* Is what the real client did a behaviour of Client?  A trace: name, ver, *)
(* steps.  A step: op with its arguments ("none": the application does     *)
(* nothing), ins (the packets that arrive then), sent (what the client     *)
(* wrote) as [b: bytes, more: payload bytes left out], calls (what the     *)
(* application was told, with its answers yes), up.                        *)
(* op "many": QoS 1 publications, each finished before the next, with the  *)
(* ids `ids`.                                                              *)
(***************************************************************************)
EXTENDS Client, Json, IOUtils
C == INSTANCE Codec

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, s, dead
vars == <<tr, i, s, dead>>
T == Traces[tr]

Many(st, e) == IF \A j \in 1..Len(e.ids) : Free(st, e.ids[j]) THEN {O(st, <<>>, <<>>)} ELSE {}

Begin(st, e) == CASE e.op = "none" -> {O(st, <<>>, <<>>)}
                  [] e.op = "many" -> Many(st, e)
                  [] OTHER -> Step(st, e)

\* is q the beginning of r
Starts(q, r) == Len(q) <= Len(r) /\ \A j \in 1..Len(q) : q[j] = r[j]

RECURSIVE Arrive(_, _, _, _)
Arrive(U, ins, sent, calls) ==
  IF ins = <<>> \/ U = {} THEN U
  ELSE LET d == C!Dec(T.ver, ins[1].b, ins[1].more)
           V == UNION {{O(w.s, u.sent \o w.sent, u.calls \o w.calls) :
                          w \in UNION {Step(u.s, IF d.ok THEN [op |-> "in", p |-> d.pkt, yes |-> yes] ELSE [op |-> "bad"]) : yes \in BOOLEAN}} : u \in U}
       IN Arrive({v \in V : Starts(v.sent, sent) /\ Starts(v.calls, calls)}, Tail(ins), sent, calls)

Sent(e) == [j \in 1..Len(e.sent) |-> LET d == C!Dec(T.ver, e.sent[j].b, e.sent[j].more) IN IF d.ok THEN d.pkt ELSE [t |-> "not a packet"]]

Outcomes(e) == Arrive(Begin(s, e), e.ins, Sent(e), e.calls)
Next1 == {u \in Outcomes(T.steps[i]) : u.sent = Sent(T.steps[i]) /\ u.calls = T.steps[i].calls /\ u.s.up = T.steps[i].up}

Init == /\ tr \in 1..Len(Traces)
        /\ i = 1
        /\ s = Client0(Traces[tr].ver)
        /\ dead = FALSE
Next ==
  /\ ~dead
  /\ i <= Len(T.steps)
  /\ tr' = tr
  /\ LET N == Next1
     IN IF N = {}
        THEN /\ PrintT(<<"STUCK", T.name, i, [sent |-> Sent(T.steps[i]), begin |-> Begin(s, T.steps[i]), in2 |-> DOMAIN s.in2, out |-> s.out, req |-> s.req]>>)
             /\ dead' = TRUE /\ UNCHANGED <<i, s>>
        ELSE /\ \E u \in N : s' = u.s
             /\ i' = i + 1
             /\ dead' = FALSE
             /\ (i = Len(T.steps)) => PrintT(<<"ACCEPT", T.name>>)
Spec == Init /\ [][Next]_vars
=============================================================================
