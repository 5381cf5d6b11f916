----------------------------- MODULE MCExplorer ----------------------------
(***************************************************************************)
(* The explorer on small models of a system that behaves the same way each *)
(* time: whatever it chooses, it never repeats itself and stops only when  *)
(* everything was done; every record replays without a failure on the same *)
(* system, and with one on a system with another result.                   *)
(***************************************************************************)
EXTENDS Explorer, TLC, Json

CONSTANTS Model,        \* name of the model
          Big,
          Early,        \* the driver may stop a run before its end
          Sim, MaxSteps
VARIABLES x, hist, log, fresh, over
vars == <<x, hist, log, fresh, over>>

Acts(n) ==
  IF n = "handles"      \* create, use with two values, destroy
  THEN <<[n |-> "create", ps |-> <<>>, ret |-> "h", fin |-> <<>>],
         [n |-> "use", ps |-> <<"h", "v">>, ret |-> "", fin |-> <<FALSE, FALSE>>],
         [n |-> "destroy", ps |-> <<"h">>, ret |-> "", fin |-> <<TRUE>>]>>
  ELSE IF n = "codes"   \* results out of a fixed set, a call without a result
  THEN <<[n |-> "ask", ps |-> <<"v">>, ret |-> "code", fin |-> <<FALSE>>],
         [n |-> "tell", ps |-> <<"code">>, ret |-> "", fin |-> <<FALSE>>]>>
  ELSE <<[n |-> "create", ps |-> <<>>, ret |-> "h", fin |-> <<>>],
         [n |-> "join", ps |-> <<"h", "h">>, ret |-> "h", fin |-> <<FALSE, TRUE>>]>>
m == [acts |-> Acts(Model), pools |-> [h |-> <<>>, v |-> (IF Big THEN <<"1", "2">> ELSE <<"2">>), code |-> <<"0", "5">>],
      fixed |-> {"code"}, max |-> [h |-> 2]]

\* the system: handles are numbered, everything fails after Deep calls; "use" fails for value 2 after a "destroy"
Deep == IF Model = "handles" THEN 3 ELSE IF Model = "codes" THEN 2 ELSE IF Big THEN 5 ELSE 4
Fresh(p) == LET n == Cardinality({j \in 1..Len(p) : p[j][1] \in {"create", "join"}}) IN <<"h1", "h2", "h3", "h4">>[n + 1]
Sys(p, k) ==
  IF Len(p) >= Deep - 1 \/ (k[1] = "use" /\ k[2][2] = "2" /\ \E j \in 1..Len(p) : p[j][1] = "destroy") THEN [k |-> "exc", v |-> ""]
  ELSE IF k[1] \in {"create", "join"} THEN [k |-> "val", v |-> Fresh(p)]
  ELSE IF k[1] = "ask" THEN [k |-> "val", v |-> (IF k[2][1] = "1" THEN "0" ELSE "5")]
  ELSE [k |-> "none", v |-> ""]

\* every run the model has: paths to their end
RECURSIVE Runs(_)
Runs(y) == LET ks == Calls(m, y.pools)
           IN IF ks = {} THEN {y.path}
              ELSE UNION {LET rc == Sys(y.path, k) IN IF rc.k = "exc" THEN {Append(y.path, k)}
                                                      ELSE Runs(Called(m, y, k, rc)) : k \in ks}
AllRuns == Runs(X0(m))
Prefixes(S) == UNION {{SubSeq(p, 1, j) : j \in 0..Len(p)} : p \in S}
AllPaths == Prefixes(AllRuns)

Init == x = X0(m) /\ hist = <<>> /\ log = <<>> /\ fresh = FALSE /\ over = FALSE

Obj(v) == IF v \in {"h1", "h2", "h3", "h4"} THEN [k |-> "obj", t |-> v] ELSE [k |-> "lit", t |-> v]
Logged(k, rc) == <<[do |-> "CALL", n |-> k[1], args |-> [j \in 1..Len(k[2]) |-> Obj(k[2][j])]]>>
                 \o (IF rc.k = "none" THEN <<>> ELSE <<[do |-> "RESULT", v |-> IF rc.k = "exc" THEN [k |-> "exc", t |-> ""] ELSE Obj(rc.v)]>>)
                 \o (IF rc.k = "exc" THEN <<[do |-> "RESTART"]>> ELSE <<>>)
Keep(s) == IF Sim THEN hist' = Append(hist, s) ELSE UNCHANGED hist

Step ==
  /\ ~over /\ (Sim => Len(hist) < MaxSteps)
  /\ LET z == Look(m, x)
         f == Frees(m, z)
     IN IF f # {}
        THEN \E k \in f : LET rc == Sys(x.path, k)
                              y == Called(m, z, k, rc)
                          IN /\ x' = y /\ Keep([do |-> "step", call |-> k])
                             /\ log' = (IF Len(log) > 30 /\ x.path = <<>> THEN Logged(k, rc) ELSE log \o Logged(k, rc))
                             /\ fresh' = (IF rc.k = "exc" THEN FALSE ELSE fresh \/ New(x, k))
                             /\ Assert(rc.k # "exc" \/ fresh \/ New(x, k), "a run repeated")
                             /\ over' = FALSE
        ELSE IF x.path = <<>>
        THEN over' = TRUE /\ UNCHANGED <<x, hist, fresh, log>>
        ELSE /\ x' = Restart(m, z) /\ Keep([do |-> "restart"]) /\ fresh' = FALSE /\ over' = FALSE
             /\ log' = Append(log, [do |-> "RESTART"])
             /\ Assert(fresh, "a run repeated")

Stop ==
  /\ Early /\ ~over /\ x.path # <<>> /\ fresh /\ (Sim => Len(hist) < MaxSteps)
  /\ x' = Restart(m, x) /\ Keep([do |-> "restart"]) /\ fresh' = FALSE /\ over' = FALSE
  /\ log' = Append(log, [do |-> "RESTART"])

Next == Step \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

\* what is given to an action is there for it, what it needs is there
Sound == Paths(x.tree, <<>>) \subseteq AllPaths
\* when it says that there is no more, there is no more
Complete == (over /\ ~Early) => Paths(x.tree, <<>>) = AllPaths
Finishes == <>over

\* replaying the record on the same system (with handles of its own)
Handle(t) == CASE t = "h1" -> "g1" [] t = "h2" -> "g2" [] t = "h3" -> "g3" [] OTHER -> "g4"
Now(v) == IF v.k = "obj" THEN [v EXCEPT !.t = Handle(@)] ELSE v
Result(j) == IF j < Len(log) /\ log[j + 1].do = "RESULT" THEN Now(log[j + 1].v) ELSE [k |-> "none", t |-> ""]
RECURSIVE Replay(_, _, _)
Replay(r, j, odd) ==      \* odd: the call that has another result this time (0: none)
  IF j > Len(log) THEN <<r, TRUE>>
  ELSE LET s == log[j]
       IN IF s.do = "CALL"
          THEN IF ~CanCall(r, s.args) THEN <<r, FALSE>>
               ELSE IF \A a \in 1..Len(s.args) : Img(r, s.args[a]) = Now(s.args[a])
                    THEN Replay([r EXCEPT !.rc = IF j = odd THEN [k |-> "lit", t |-> "other"] ELSE Result(j)], j + 1, odd)
                    ELSE <<[r EXCEPT !.failures = 1000], FALSE>>
          ELSE IF s.do = "RESULT" THEN Replay(OnResult(r, s.v), j + 1, odd)
          ELSE Replay(OnRestart(r), j + 1, odd)
Results == Cardinality({j \in 1..Len(log) : log[j].do = "RESULT"})
Replays == LET e == Replay(R0, 1, 0) IN e[2] /\ e[1].failures = 0 /\ e[1].passes = Results
Notices == \A j \in {y \in 1..Len(log) : log[y].do = "CALL" /\ y < Len(log) /\ log[y + 1].do = "RESULT"} :
             LET e == Replay(R0, 1, j) IN e[1].failures > 0 /\ e[1].failures < 1000

Written == ~(Sim /\ (over \/ Len(hist) = MaxSteps) /\ ~PrintT(<<"HIST", ToJson(hist)>>))
View == <<x, fresh, over>>
=============================================================================
