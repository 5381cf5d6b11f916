----------------------------- MODULE MCListeners -----------------------------
(***************************************************************************)
(* Every listener, every attempt, up to Max clients that are in.           *)
(* Flaw: the broker does not do what the settings say (to see that the     *)
(* invariants can tell).                                                   *)
(***************************************************************************)
EXTENDS Listeners

CONSTANTS Max, Flaw

Settings ==
  [proto : {"mqtt", "http"}, addr : {"any", "one", "two"}, tls : {TRUE}, cert : {"none", "s1", "s2"}, ca : {"none", "a", "ab"}, require : BOOLEAN, nosni : BOOLEAN]
  \cup [proto : {"mqtt", "http"}, addr : {"any", "one", "two"}, tls : {FALSE}, cert : {"none"}, ca : {"none"}, require : {TRUE}, nosni : {TRUE}]

Attempts ==
  [to : {"one", "two"}, tls : {TRUE}, cert : {"none", "a", "b", "old", "self"}, sni : BOOLEAN, speaks : {"mqtt", "http"}]
  \cup [to : {"one", "two"}, tls : {FALSE}, cert : {"none"}, sni : {FALSE}, speaks : {"mqtt", "http"}]

VARIABLES L, before
vars == <<L, before, in>>

\* what the broker makes of the settings, and of the attempt
Really(l) == CASE Flaw = "optional" -> [l EXCEPT !.require = FALSE]
               [] Flaw = "anyname" -> [l EXCEPT !.nosni = TRUE]
               [] Flaw = "authority" -> [l EXCEPT !.ca = "ab"]
               [] Flaw = "address" -> [l EXCEPT !.addr = "any"]
               [] Flaw = "plain" -> [l EXCEPT !.tls = FALSE]
               [] OTHER -> l

Init == L \in {<<l>> : l \in Settings} /\ in = [k \in {} |-> 0] /\ before = <<>>

Next ==
  /\ UNCHANGED L
  /\ \/ \E k \in 1..Max, a \in Attempts : Try([n \in DOMAIN L |-> Really(L[n])], k, 1, a) /\ before' = <<k, a, DOMAIN in>>
     \/ \E k \in 1..Max : Leave(k) /\ before' = <<>>
     \/ \E k \in 1..Max : Publish(k) /\ before' = <<>>

Guarded == NoStrangers(L) /\ NoForgeries(L) /\ NoPlaintext(L) /\ Named(L) /\ Inside(L) /\ NoAnonymousServer(L)

\* an attempt changes nothing for those that are in, and who is entitled gets in
Undisturbed == before # <<>> => DOMAIN in \ {before[1]} = before[3]
Open == before # <<>> /\ Stays(L[1], before[2]) => before[1] \in DOMAIN in

View == <<L, in, IF before = <<>> THEN <<>> ELSE <<before[1], before[3], Stays(L[1], before[2])>> >>
==============================================================================
