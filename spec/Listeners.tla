------------------------------ MODULE Listeners ------------------------------
(***************************************************************************)
(* The doors of the broker: which clients the listeners let in.            *)
(*                                                                         *)
(* A listener has an address, a protocol and, if one of cafile, certfile   *)
(* and keyfile is set, TLS: with the certificate it shows, the authorities *)
(* whose clients it trusts, whether a client must show a certificate, and  *)
(* whether a client may come without saying which server it wants (SNI).   *)
(* An attempt goes to an address and a listener's port, plainly or with    *)
(* TLS, with a certificate or without, and speaks some protocol.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

\* the authorities of a cafile
Trusted(ca) == CASE ca = "a" -> {"a"} [] ca = "ab" -> {"a", "b"} [] OTHER -> {}

\* certificates: none, of authority a, of authority b, of a but expired ("old"), signed by itself ("self")
CertOK(l, a) == IF a.cert = "none" THEN ~l.require ELSE a.cert \in Trusted(l.ca)

Reached(l, a) == l.addr \in {"any", a.to}

\* HTTP listeners have no setting for server names
NameOK(l, a) == l.proto = "http" \/ l.nosni \/ a.sni

Greeted(l, a) == IF l.tls THEN a.tls /\ l.cert # "none" /\ CertOK(l, a) /\ NameOK(l, a) ELSE ~a.tls

Served(l, a) == Reached(l, a) /\ Greeted(l, a) /\ a.speaks = l.proto

Shown(l, a) == IF Served(l, a) /\ l.tls THEN l.cert ELSE ""

\* ---- the clients that are in: connection -> the listener and the attempt
VARIABLE in

Stays(l, a) == l.proto = "mqtt" /\ Served(l, a)

Try(L, k, n, a) ==
  /\ k \notin DOMAIN in
  /\ in' = IF Stays(L[n], a) THEN [x \in DOMAIN in \cup {k} |-> IF x = k THEN [n |-> n, a |-> a] ELSE in[x]] ELSE in

Leave(k) == k \in DOMAIN in /\ in' = [x \in DOMAIN in \ {k} |-> in[x]]

\* all that are in are clients of one broker: what one publishes, all get, once
Publish(k) == k \in DOMAIN in /\ UNCHANGED in
Hears == DOMAIN in

\* ---- what the settings are there for
NoStrangers(L) == \A k \in DOMAIN in : L[in[k].n].tls /\ L[in[k].n].require => in[k].a.cert \in Trusted(L[in[k].n].ca)
NoForgeries(L) == \A k \in DOMAIN in : L[in[k].n].tls => in[k].a.cert \in {"none"} \cup Trusted(L[in[k].n].ca)
NoPlaintext(L) == \A k \in DOMAIN in : L[in[k].n].tls = in[k].a.tls
Named(L) == \A k \in DOMAIN in : L[in[k].n].tls /\ ~L[in[k].n].nosni => in[k].a.sni
Inside(L) == \A k \in DOMAIN in : L[in[k].n].addr # "any" => in[k].a.to = L[in[k].n].addr
NoAnonymousServer(L) == \A k \in DOMAIN in : L[in[k].n].tls => L[in[k].n].cert # "none"
==============================================================================
