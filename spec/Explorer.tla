----------------------------- MODULE Explorer ------------------------------
(***************************************************************************)
(* The model explorer (mbt/main.py) and the replay of what it recorded.    *)
(*                                                                         *)
(* A model m: acts   sequence of [n: name, ps: types of the parameters,    *)
(*                   ret: type of the result or "", fin: which parameters  *)
(*                   are used up]                                          *)
(*            pools  type -> the values there are at the start             *)
(*            fixed  types whose values are given once and for all         *)
(*            max    type -> how many results of it may be there at a time *)
(* The explorer x: pools, path (the calls since the last restart),         *)
(*            tree   what was done: opts, the calls that were possible;    *)
(*                   kids, those made -> the tree after it; ended          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Node0 == [opts |-> {}, kids |-> <<>>, ended |-> FALSE]
X0(m) == [pools |-> m.pools, path |-> <<>>, tree |-> Node0]

RangeOf(s) == {s[j] : j \in 1..Len(s)}
Max(m, t) == IF t \in DOMAIN m.max THEN m.max[t] ELSE 1

Enabled(m, pools) ==
  {a \in RangeOf(m.acts) :
     /\ \A j \in 1..Len(a.ps) : pools[a.ps[j]] # <<>>
     /\ \/ a.ret = "" \/ a.ret \in m.fixed \/ Len(pools[a.ret]) < Max(m, a.ret)}

RECURSIVE Args(_, _)
Args(ps, pools) == IF ps = <<>> THEN {<<>>}
                   ELSE {<<v>> \o r : v \in RangeOf(pools[ps[1]]), r \in Args(Tail(ps), pools)}

Calls(m, pools) == UNION {{<<a.n, r>> : r \in Args(a.ps, pools)} : a \in Enabled(m, pools)}
Act(m, n) == CHOOSE a \in RangeOf(m.acts) : a.n = n

RECURSIVE At(_, _)
At(t, p) == IF p = <<>> THEN t ELSE At(t.kids[p[1]], Tail(p))
Put(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
RECURSIVE Set(_, _, _)
Set(t, p, n) == IF p = <<>> THEN n ELSE [t EXCEPT !.kids = Put(@, p[1], Set(t.kids[p[1]], Tail(p), n))]
RECURSIVE Paths(_, _)
Paths(t, p) == {p} \cup UNION {Paths(t.kids[k], Append(p, k)) : k \in DOMAIN t.kids}

\* is there something not yet done from here on?
RECURSIVE Open(_)
Open(t) == ~t.ended /\ \E k \in t.opts : k \notin DOMAIN t.kids \/ Open(t.kids[k])

\* arriving at the present state: what is possible here
Look(m, x) == LET n == At(x.tree, x.path) IN [x EXCEPT !.tree = Set(@, x.path, [n EXCEPT !.opts = @ \cup Calls(m, x.pools)])]
Frees(m, x) == LET n == At(x.tree, x.path)
               IN {k \in Calls(m, x.pools) : k \notin DOMAIN n.kids \/ Open(n.kids[k])}
New(x, k) == k \notin DOMAIN At(x.tree, x.path).kids

Without(s, v) == SelectSeq(s, LAMBDA w : w # v)
RECURSIVE UseUp(_, _, _, _)
UseUp(pools, a, args, j) ==
  IF j > Len(a.ps) THEN pools
  ELSE UseUp(IF a.fin[j] THEN [pools EXCEPT ![a.ps[j]] = Without(@, args[j])] ELSE pools, a, args, j + 1)

Restart(m, x) == [x EXCEPT !.tree = Set(@, x.path, [At(x.tree, x.path) EXCEPT !.ended = TRUE]), !.path = <<>>, !.pools = m.pools]

\* the call k was made and had result rc: [k: "none", "exc", "val", v]
Called(m, x, k, rc) ==
  LET a == Act(m, k[1])
      n == At(x.tree, x.path)
      y == [x EXCEPT !.path = Append(@, k), !.tree = IF k \in DOMAIN n.kids THEN @ ELSE Set(@, x.path, [n EXCEPT !.kids = Put(@, k, Node0)])]
      p == IF rc.k = "val" /\ a.ret # "" /\ a.ret \notin m.fixed /\ rc.v \notin RangeOf(x.pools[a.ret])
           THEN [x.pools EXCEPT ![a.ret] = Append(@, rc.v)] ELSE x.pools
  IN IF rc.k = "exc" THEN Restart(m, y)
     ELSE [y EXCEPT !.pools = UseUp(p, a, k[2], 1)]

(***************************************************************************)
(* Replay.  Values: [k: "lit", t], [k: "obj", t] (a handle of its own on   *)
(* every run), [k: "pair", o: value, t], [k: "exc"/"none", t: ""].         *)
(* r: map (a handle in the record -> the one now), seen (observations that *)
(* came), passes, failures, rc (of the last call), bad (cannot go on)      *)
(***************************************************************************)
R0 == [map |-> <<>>, seen |-> <<>>, passes |-> 0, failures |-> 0, rc |-> [k |-> "none", t |-> ""]]

Known(r, v) == v.k # "obj" \/ v.t \in DOMAIN r.map
RECURSIVE Img(_, _)
Img(r, v) == IF v.k = "obj" THEN (IF Known(r, v) THEN r.map[v.t] ELSE v)
             ELSE IF v.k = "pair" THEN [v EXCEPT !.o = Img(r, v.o)] ELSE v
CanCall(r, args) == \A j \in 1..Len(args) : Known(r, args[j]) /\ (args[j].k = "pair" => Known(r, args[j].o))

Same(v, rc) == IF v.k = "obj" THEN rc.k = "obj" ELSE IF v.k = "exc" THEN rc.k = "exc" ELSE v = rc

Count(r, ok) == IF ok THEN [r EXCEPT !.passes = @ + 1] ELSE [r EXCEPT !.failures = @ + 1]

OnResult(r, v) ==
  LET ok == Same(v, r.rc)
      u == Count(r, ok)
  IN IF ok /\ v.k = "obj" THEN [u EXCEPT !.map = [t \in DOMAIN @ \cup {v.t} |-> IF t = v.t THEN r.rc ELSE @[t]]] ELSE u

RemoveOne(s, v) == LET j == CHOOSE i \in 1..Len(s) : s[i] = v IN SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
OnObserved(r, v) ==
  LET w == Img(r, v)
      ok == w \in RangeOf(r.seen)
      u == Count(r, ok)
  IN IF ok THEN [u EXCEPT !.seen = RemoveOne(@, w)] ELSE u

OnRestart(r) == [r EXCEPT !.map = <<>>, !.seen = <<>>]
=============================================================================
