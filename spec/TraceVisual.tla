----------------------------- MODULE TraceVisual -----------------------------
(***************************************************************************)
(* Are the reports that every observer got in the steps of a recorded run, *)
(* and the lines of the file, those of the packets of the run?             *)
(***************************************************************************)
EXTENDS Visual, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

\* cid: connection -> the client's name; life, at: the file that is being written, and the line; fd: connection -> its number in the file
VARIABLES tr, i, cid, dead, life, at, fd
vars == <<tr, i, cid, dead, life, at, fd>>
T == Traces[tr]
S == T.steps[i]

Init == tr \in 1..Len(Traces) /\ i = 1 /\ cid = [k \in {} |-> ""] /\ dead = FALSE
        /\ life = 1 /\ at = 0 /\ fd = [k \in {} |-> 0]

Five(k) == k \in 1..Len(T.vers) /\ T.vers[k] = 5
Name(c, k) == IF k \in DOMAIN c THEN c[k] ELSE ""

Events(ev) == CASE ev.e = "PAIR" -> <<ev.a, ev.b>> [] ev.e = "BATCH" -> ev.evs [] OTHER -> <<ev>>
Packet(ev) == ev.e \notin {"TICK", "DROP", "RESTART", "REINIT", "SNPUB", "SNCONN", "HTTP"} /\ Five(ev.k)

\* the clients' names after the step
Named(c) ==
  LET evs == Events(S.ev)
      new == {j \in 1..Len(evs) : evs[j].e = "CONNECT" /\ evs[j].k \notin DOMAIN c /\ Five(evs[j].k)
                                  /\ \E o \in 1..Len(S.out) : S.out[o].k = evs[j].k /\ \E n \in 1..Len(S.out[o].pk) :
                                       S.out[o].pk[n].p = "CONNACK" /\ S.out[o].pk[n].rc = <<0>>}
  IN [k \in DOMAIN c \cup {evs[j].k : j \in new} |->
        IF k \in DOMAIN c THEN c[k] ELSE LET e == evs[CHOOSE j \in new : evs[j].k = k] IN IF e.cid = "" THEN e.acid ELSE e.cid]

Gone(k) == \E j \in 1..Len(S.cl) : S.cl[j] = k

Wanted(c) ==
  LET evs == SelectSeq(Events(S.ev), Packet)
  IN [j \in 1..Len(evs) |->
       [v |-> InView(evs[j], IF Name(c, evs[j].k) # "" THEN Name(c, evs[j].k) ELSE IF evs[j].e = "CONNECT" THEN evs[j].cid ELSE ""),
        maybe |-> evs[j].e = "BAD" \/ (Gone(evs[j].k) /\ evs[j].e # "DISCONNECT")]]

Sent(c) ==
  LET P == {o \in 1..Len(S.out) : Five(S.out[o].k)}
  IN [k \in {S.out[o].k : o \in P} |-> LET o == CHOOSE x \in P : S.out[x].k = k
                                       IN [j \in 1..Len(S.out[o].pk) |-> OutView(k, Name(c, k), S.out[o].pk[j])]]

\* ---- the file of this life: the lines of this step are the packets received and then those sent, in whatever order
Files0 == [life |-> life, at |-> at, fd |-> fd]
RECURSIVE Flat(_, _)
Flat(s, K) == IF K = {} THEN <<>> ELSE LET k == CHOOSE x \in K : TRUE IN s[k] \o Flat(s, K \ {k})

InFile(f, n, ins, out, no) ==
  LET lines == SubSeq(f, at + 1, at + n)
  IN /\ n = Len(ins) + Len(out) /\ at + n <= Len(f)
     /\ \A j \in 1..Len(ins) : ins[j].v.k \in DOMAIN no /\ lines[j] = Line("CtoS", no[ins[j].v.k], ins[j].v.cls)
     /\ SameBag(SubSeq(lines, Len(ins) + 1, n), [j \in 1..Len(out) |-> Line("StoC", IF out[j].k \in DOMAIN no THEN no[out[j].k] ELSE -1, out[j].cls)])

\* the set of what may be after this step (empty: the file is wrong), given what was sent
Written(sent) ==
  IF T.files = <<>> THEN {Files0}
  ELSE LET f == T.files[life]
           out == Flat(sent, DOMAIN sent)
       IN IF S.ev.e = "RESTART"     \* all lines are there by now
          THEN IF InFile(f, Len(f) - at, <<>>, out, fd) THEN {[life |-> life + 1, at |-> 0, fd |-> [k \in {} |-> 0]]} ELSE {}
          ELSE LET ins == Wanted(cid)
                   new == ins # <<>> /\ S.ev.e = "CONNECT" /\ S.ev.k \notin DOMAIN fd /\ at < Len(f)
                   no == IF new THEN [k \in DOMAIN fd \cup {S.ev.k} |-> IF k = S.ev.k THEN f[at + 1].fd ELSE fd[k]] ELSE fd
                   next(some) == [life |-> life, at |-> at + Len(some) + Len(out), fd |-> [k \in {x \in DOMAIN no : ~Gone(x)} |-> no[k]]]
               IN {next(some) : some \in {x \in {ins, <<>>} : (x = ins \/ ins[1].maybe) /\ InFile(f, Len(x) + Len(out), x, out, no)}}

Next == /\ ~dead /\ i <= Len(T.steps)
        /\ tr' = tr /\ cid' = Named(cid)
        /\ IF \A j \in 1..Len(S.rep) : Reports(S.rep[j], Wanted(cid), Sent(cid'), S.ev.e = "PAIR")
              /\ Written(Sent(cid')) # {}
              /\ (i = Len(T.steps)) => T.late \in {<<>>, <<"CONNACK", "SUBACK">>}      \* reports are not kept
           THEN /\ \E w \in Written(Sent(cid')) : life' = w.life /\ at' = w.at /\ fd' = w.fd
                /\ dead' = FALSE /\ i' = i + 1
                /\ (i = Len(T.steps)) => PrintT(<<"ACCEPT", T.name>>)
           ELSE /\ PrintT(<<"STUCK", T.name, i, [received |-> Wanted(cid), sent |-> Sent(cid'),
                                                  line |-> IF T.files # <<>> THEN SubSeq(T.files[life], at + 1, Len(T.files[life])) ELSE <<>>]>>)
                /\ dead' = TRUE /\ i' = i /\ UNCHANGED <<life, at, fd>>

Spec == Init /\ [][Next]_vars
=============================================================================
