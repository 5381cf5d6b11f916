--------------------------- MODULE TraceExplorer ---------------------------
(***************************************************************************)
(* Recorded explorations and replays.  kind "explore": steps               *)
(*   step     call: <<n, args>> or <<>>; rc; more: what step() returned    *)
(*            (FALSE: goes on); asked/given: what the selection callback   *)
(*            got and gave back (asked = <<>>: not called)                 *)
(*   restart  by the driver;   put: the driver adds a value to a pool      *)
(* kind "replay": the record (CALL, RESULT, OBSERVED, RESTART), with what  *)
(*   was really called, and the counts at the end                          *)
(***************************************************************************)
EXTENDS Explorer, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, x, dead
vars == <<tr, i, x, dead>>
T == Traces[tr]
M == [acts |-> T.model.acts, pools |-> T.model.pools, fixed |-> RangeOf(T.model.fixed), max |-> T.model.max]

\* what the action got is what was chosen, except that the call callback replaces values of type "cb"
Fits(s) == /\ s.got[1] = s.call[1]
           /\ LET ps == Act(M, s.call[1]).ps
              IN \A j \in 1..Len(ps) : s.got[2][j] = (IF ps[j] = "cb" THEN "'called back'" ELSE s.call[2][j])

After(y, s) ==
  IF s.do = "restart" THEN {Restart(M, y)}
  ELSE IF s.do = "put" THEN {[y EXCEPT !.pools[s.t] = Append(@, s.v)]}
  ELSE LET z == Look(M, y)
           f == Frees(M, z)
           g == IF s.asked = <<>> THEN f ELSE f \cap RangeOf(s.given)
       IN IF T.det /\ s.asked # <<>> /\ RangeOf(s.asked) # f THEN {}
          ELSE IF T.callback /\ T.det /\ s.asked = <<>> /\ f # {} THEN {}
          ELSE IF s.call = <<>> THEN (IF s.stop /\ (g = {} \/ ~T.det) THEN {z} ELSE {})
          ELSE IF Fits(s) /\ s.call \in (IF T.det THEN g ELSE Calls(M, y.pools)) /\ s.stop = (s.rc.k = "exc")
          THEN {Called(M, z, s.call, s.rc)} ELSE {}

\* a line of the record
Line(r, s) ==
  IF s.do = "CALL"
  THEN IF s.aborted THEN (IF CanCall(r, s.args) THEN {} ELSE {r})
       ELSE IF CanCall(r, s.args) /\ s.called = <<s.n, [j \in 1..Len(s.args) |-> Img(r, s.args[j])]>>
            THEN {[r EXCEPT !.rc = s.rc, !.seen = @ \o s.came]} ELSE {}
  ELSE IF s.do = "RESULT" THEN {OnResult(r, s.v)}
  ELSE IF s.do = "OBSERVED" THEN {OnObserved(r, s.v)}
  ELSE IF s.do = "RESTART" THEN (IF s.restarted THEN {OnRestart(r)} ELSE {})
  ELSE IF s.passes = r.passes /\ s.failures = r.failures THEN {r} ELSE {}

Init == tr \in 1..Len(Traces) /\ i = 1 /\ dead = FALSE /\ x = (IF T.kind = "explore" THEN X0(M) ELSE R0)

Next ==
  /\ ~dead /\ i <= Len(T.steps) /\ tr' = tr
  /\ LET S == IF T.kind = "explore" THEN After(x, T.steps[i]) ELSE Line(x, T.steps[i])
     IN IF S = {}
        THEN /\ PrintT(<<"STUCK", T.name, i, IF T.kind = "explore" THEN <<x.path, x.pools, Frees(M, Look(M, x))>> ELSE x>>)
             /\ dead' = TRUE /\ UNCHANGED <<i, x>>
        ELSE /\ x' \in S
             /\ i' = i + 1 /\ dead' = FALSE
             /\ (i = Len(T.steps)) => PrintT(<<"ACCEPT", T.name>>)

Spec == Init /\ [][Next]_vars
=============================================================================
