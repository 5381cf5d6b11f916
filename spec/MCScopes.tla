------------------------------ MODULE MCScopes ------------------------------
(***************************************************************************)
(* The scopes of the exhaustive checks: for each property, which clients,  *)
(* packets and events there are, and how many of each.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Never == -2
NoLim == 268435460
Off == [on |-> FALSE]

Opt == [pubrel |-> FALSE, single |-> TRUE, drop0 |-> TRUE, ta |-> 2, mps |-> 256, rm |-> 2, ska |-> 60, zlc |-> TRUE, pers |-> FALSE]

B0 == [connect |-> 0, sub |-> 0, unsub |-> 0, pub |-> 0, rep |-> 0, rel |-> 0, wrong |-> 0, drop |-> 0, disc |-> 0, bad |-> 0,
       ping |-> 0, tick |-> 0, sn |-> 0, restart |-> 0, reinit |-> 0, http |-> 0, uniq |-> 0]

C(ver, cid, clean, exp) ==
  [ver |-> ver, cid |-> cid, clean |-> clean, exp |-> IF ver = 5 THEN exp ELSE 0, ka |-> 0, rmax |-> 65535, mps |-> NoLim,
   tamax |-> 0, will |-> Off]
Will(t, q, r, delay) == [on |-> TRUE, t |-> t, pay |-> "w", q |-> q, r |-> r, pr |-> "", prl |-> 0, exp |-> -1, delay |-> delay]

F(f, q) == [share |-> "", f |-> f, q |-> q, nl |-> FALSE, rap |-> FALSE, rh |-> 0]
S(fs) == [subs |-> fs, sid |-> 0]
M(t, q) == [t |-> t, q |-> q, r |-> 0]
R(t, q) == [t |-> t, q |-> q, r |-> 1]

TA == <<"a">>
TB == <<"a", "b">>

Base == [opt |-> Opt, connects |-> {}, subs |-> {}, unsubs |-> {}, pubs |-> {}, sn |-> {}, http |-> {}, ids |-> {1}, rcs |-> {0},
         discs |-> {[rc |-> 0, exp |-> -1]}, wrong |-> FALSE, takeover |-> FALSE, exact |-> TRUE, budget |-> B0,
         weights |-> [connect |-> 4, sub |-> 4, pub |-> 8, ack |-> 8, rep |-> 2, rel |-> 3, drop |-> 1, disc |-> 1, bad |-> 1,
                      wrong |-> 1, tick |-> 3, ping |-> 1, unsub |-> 2, sn |-> 2, restart |-> 1, reinit |-> 1, http |-> 4]]

P5 == C(5, "p", TRUE, Never)
Q5 == C(5, "q", FALSE, Never)
Q4 == C(4, "q", FALSE, 0)

RECURSIVE ScopeOf(_)
\* a deeper search: n more of everything that there may be some of
Deeper(p, n) == [p EXCEPT !.budget = [k \in DOMAIN @ |-> IF @[k] > 0 THEN @[k] + n ELSE 0]]

ScopeOf(x) ==
  CASE x = "B01" -> [Base EXCEPT
         !.connects = {P5, Q4}, !.subs = {S(<<F(<<"+">>, 0)>>), S(<<F(<<"a", "#">>, 1)>>), S(<<F(<<"#">>, 0)>>), S(<<F(TB, 1)>>), S(<<F(<<"$d", "#">>, 0)>>)},
         !.unsubs = {S(<<F(<<"a", "#">>, 0)>>)},
         !.pubs = {M(TA, 0), M(TB, 1), M(<<"$d">>, 0), M(<<"a", "">>, 0), M(<<"", "a">>, 0)},
         !.budget = [B0 EXCEPT !.connect = 2, !.sub = 2, !.unsub = 1, !.pub = 2]]
    [] x = "B02" -> [Base EXCEPT
         !.connects = {Q5, C(4, "p", TRUE, 0)}, !.subs = {S(<<F(TA, 2)>>)}, !.pubs = {M(TA, 2), M(TA, 1)}, !.ids = {1, 2}, !.wrong = TRUE,
         !.budget = [B0 EXCEPT !.connect = 2, !.sub = 1, !.pub = 2, !.rep = 1, !.rel = 2, !.drop = 1]]
    [] x = "B02r" -> [ScopeOf("B02") EXCEPT !.opt = [Opt EXCEPT !.pubrel = TRUE]]
    [] x = "B03" -> [Base EXCEPT
         !.connects = {P5, Q4}, !.subs = {S(<<F(TA, 2)>>)}, !.pubs = {M(TA, 2), M(TA, 1)}, !.wrong = TRUE, !.rcs = {0, 128},
         !.budget = [B0 EXCEPT !.connect = 2, !.sub = 1, !.pub = 3, !.rel = 1, !.wrong = 1]]
    [] x = "B04" -> [Base EXCEPT
         !.connects = {C(5, "p", TRUE, 0), Q5, [Q5 EXCEPT !.rmax = 1]}, !.subs = {S(<<F(TA, 2)>>)}, !.pubs = {M(TA, 2), M(TA, 1)},
         !.budget = [B0 EXCEPT !.connect = 3, !.sub = 1, !.pub = 3, !.rel = 1, !.drop = 2]]
    [] x = "B05" -> [Base EXCEPT
         !.connects = {P5, [Q5 EXCEPT !.rmax = 1], [Q5 EXCEPT !.rmax = 2]}, !.subs = {S(<<F(<<"a", "#">>, 2)>>)},
         !.pubs = {M(TA, 1), M(TB, 2)}, !.budget = [B0 EXCEPT !.connect = 3, !.sub = 1, !.pub = 3, !.drop = 1]]
    [] x = "B06" -> [Base EXCEPT
         !.connects = {Q5, C(4, "p", FALSE, 0)}, !.subs = {S(<<F(<<"#">>, 2)>>)}, !.pubs = {M(TA, 1), M(TA, 2)},
         !.budget = [B0 EXCEPT !.connect = 3, !.sub = 1, !.pub = 3, !.rel = 1, !.drop = 2]]
    [] x = "B07" -> [Base EXCEPT
         !.connects = {C(v, "p", cl, x1) : v \in {5}, cl \in {TRUE, FALSE}, x1 \in {0, Never}} \cup {C(4, "q", TRUE, 0), C(4, "q", FALSE, 0)},
         !.subs = {S(<<F(TA, 1)>>)}, !.pubs = {M(TA, 1)}, !.discs = {[rc |-> 0, exp |-> -1], [rc |-> 0, exp |-> 0]},
         !.budget = [B0 EXCEPT !.connect = 4, !.sub = 2, !.pub = 2, !.drop = 1, !.disc = 2]]
    [] x = "B08" -> [Base EXCEPT
         !.connects = {C(5, "p", cl, e) : cl \in {TRUE, FALSE}, e \in {0, 1, 2, Never}},
         !.subs = {S(<<F(TA, 1)>>)}, !.pubs = {M(TA, 1)}, !.discs = {[rc |-> 0, exp |-> -1], [rc |-> 0, exp |-> 1], [rc |-> 4, exp |-> 0]},
         !.budget = [B0 EXCEPT !.connect = 3, !.sub = 1, !.pub = 1, !.drop = 2, !.disc = 2, !.tick = 4]]
    [] x = "B09" -> [Base EXCEPT
         !.connects = {C(4, "p", TRUE, 0), Q5, [Q5 EXCEPT !.rmax = 1]}, !.subs = {S(<<F(TA, 2)>>)}, !.pubs = {M(TA, 0), M(TA, 1), M(TA, 2)},
         !.budget = [B0 EXCEPT !.connect = 3, !.sub = 1, !.pub = 2, !.drop = 1, !.disc = 1]]
    [] x = "B09k" -> [ScopeOf("B09") EXCEPT !.opt = [Opt EXCEPT !.drop0 = FALSE]]
    [] x = "B10" -> [Base EXCEPT
         !.connects = {P5, [Q5 EXCEPT !.rmax = 1], [Q5 EXCEPT !.rmax = 2]}, !.subs = {S(<<F(TA, 2)>>)}, !.pubs = {M(TA, 1), M(TA, 2)}, !.ids = {1, 2, 3},
         !.budget = [B0 EXCEPT !.connect = 2, !.sub = 1, !.pub = 3, !.rep = 1, !.rel = 0]]
    [] x = "B11" -> [Base EXCEPT !.exact = FALSE,
         !.connects = {P5, Q4}, !.subs = {S(<<F(<<"a", "#">>, 1)>>), S(<<F(TA, 0), F(<<"+">>, 1)>>),
            S(<<[F(TA, 1) EXCEPT !.rh = 1, !.rap = TRUE]>>), S(<<[F(TA, 1) EXCEPT !.rh = 2]>>), S(<<[F(TA, 1) EXCEPT !.share = "g"]>>)},
         !.unsubs = {S(<<F(TA, 0)>>)},
         !.pubs = {R(TA, 1), R(TB, 0), R(TA, 0) @@ [pay |-> ""], M(TA, 1)},
         !.budget = [B0 EXCEPT !.connect = 2, !.sub = 2, !.pub = 2]]
    [] x = "B12" -> [Base EXCEPT
         !.connects = {P5, Q4}, !.subs = {S(<<F(TA, 1)>>), S(<<F(TA, 2), F(TA, 0)>>), S(<<F(<<"test", "nosubscribe">>, 1), F(<<"+">>, 1)>>),
             S(<<F(<<"test", "QoS 0 only">>, 2)>>), S(<<F(<<"#", "a">>, 0)>>)},
         !.unsubs = {S(<<F(TA, 0)>>), S(<<F(<<"+">>, 0), F(TA, 0)>>)}, !.pubs = {M(TA, 1), M(<<"test", "QoS 0 only">>, 1)},
         !.budget = [B0 EXCEPT !.connect = 2, !.sub = 3, !.unsub = 2, !.pub = 1]]
    [] x = "B13" -> [Base EXCEPT !.exact = FALSE,
         !.connects = {P5, C(5, "q", TRUE, Never)}, !.subs = {[S(<<F(TA, 0)>>) EXCEPT !.sid = 1], [S(<<F(<<"+">>, 2)>>) EXCEPT !.sid = 2],
             S(<<F(<<"#">>, 1)>>), [S(<<[F(<<"a", "#">>, 2) EXCEPT !.nl = TRUE]>>) EXCEPT !.sid = 3]},
         !.pubs = {M(TA, 1), R(TA, 2)}, !.budget = [B0 EXCEPT !.connect = 2, !.sub = 3, !.pub = 1]]
    [] x = "B13m" -> [ScopeOf("B13") EXCEPT !.opt = [Opt EXCEPT !.single = FALSE], !.exact = FALSE]
    [] x = "B14" -> [Base EXCEPT !.exact = FALSE,
         !.connects = {P5, Q5, C(4, "r", TRUE, 0)}, !.subs = {S(<<[F(TA, 0) EXCEPT !.share = "g"]>>), S(<<[F(<<"+">>, 1) EXCEPT !.share = "g"]>>),
             S(<<[F(TA, 0) EXCEPT !.share = "h"]>>), S(<<F(TA, 0)>>)},
         !.unsubs = {S(<<[F(TA, 0) EXCEPT !.share = "g"]>>)}, !.pubs = {M(TA, 0), M(TA, 1)},
         !.budget = [B0 EXCEPT !.connect = 3, !.sub = 3, !.pub = 1]]
    [] x = "B15" -> [Base EXCEPT
         !.connects = {[C(5, "p", TRUE, 0) EXCEPT !.will = Will(TA, 1, 0, 0)], [C(4, "p4", FALSE, 0) EXCEPT !.will = Will(TA, 2, 1, 0)],
                       C(5, "p", FALSE, Never), Q5}, !.takeover = TRUE,
         !.subs = {S(<<F(TA, 1)>>)}, !.discs = {[rc |-> 0, exp |-> -1], [rc |-> 4, exp |-> -1]},
         !.budget = [B0 EXCEPT !.connect = 3, !.sub = 1, !.drop = 2, !.disc = 1, !.bad = 1]]
    [] x = "B16" -> [Base EXCEPT
         !.connects = {[C(5, "p", cl, e) EXCEPT !.will = Will(TA, 0, 0, d)] : cl \in {TRUE, FALSE}, e \in {0, 1, Never}, d \in {1, 2}} \cup {Q5},
         !.subs = {S(<<F(TA, 0)>>)}, !.discs = {[rc |-> 4, exp |-> -1], [rc |-> 0, exp |-> -1], [rc |-> 4, exp |-> 1]}, !.takeover = TRUE,
         !.budget = [B0 EXCEPT !.connect = 3, !.sub = 1, !.drop = 1, !.disc = 1, !.tick = 3]]
    [] x = "B17" -> [Base EXCEPT
         !.connects = {C(5, "p", cl, e) : cl \in {TRUE, FALSE}, e \in {0, Never}} \cup {[C(4, "q", cl, 0) EXCEPT !.will = Will(TA, 1, 0, 0)] : cl \in {TRUE, FALSE}},
         !.takeover = TRUE, !.subs = {S(<<F(TA, 1)>>)}, !.pubs = {M(TA, 1)},
         !.budget = [B0 EXCEPT !.connect = 3, !.sub = 1, !.pub = 2]]
    [] x = "B18" -> [Base EXCEPT
         !.connects = {P5, [Q5 EXCEPT !.tamax = 1]}, !.subs = {S(<<F(<<"#">>, 1)>>)},
         !.pubs = {M(t, 1) @@ [al |-> a] : t \in {<<>>, TA, TB}, a \in {1, 2}} \cup {M(<<>>, 0) @@ [al |-> 0], M(TA, 0) @@ [al |-> 3]},
         !.budget = [B0 EXCEPT !.connect = 2, !.sub = 1, !.pub = 3, !.drop = 1]]
    [] x = "B19" -> [Base EXCEPT !.exact = FALSE,
         !.connects = {P5, [Q5 EXCEPT !.rmax = 1]}, !.subs = {S(<<F(TA, 1)>>)},
         !.pubs = {M(TA, 1) @@ [exp |-> 2], M(TA, 1), R(TA, 1) @@ [exp |-> 1]},
         !.budget = [B0 EXCEPT !.connect = 2, !.sub = 1, !.pub = 2, !.drop = 1, !.tick = 2]]
    [] x = "B20" -> [Base EXCEPT !.exact = FALSE,
         !.connects = {P5, [Q5 EXCEPT !.mps = 40], [Q5 EXCEPT !.mps = 25]}, !.subs = {S(<<F(TA, 1)>>)},
         !.pubs = {M(TA, 1), M(TA, 1) @@ [pay |-> "xxxxxxxxxxxxxxxxxxxxxx"], M(TA, 1) @@ [len |-> 257], M(TA, 0) @@ [len |-> 256, pay |-> "yyyyyyyyyyyyy"]},
         !.budget = [B0 EXCEPT !.connect = 2, !.sub = 1, !.pub = 3, !.drop = 1]]
    [] x = "B21" -> [Base EXCEPT
         !.connects = {P5, Q5, C(4, "r", FALSE, 0)}, !.subs = {S(<<F(TA, 1)>>), [S(<<F(<<"+">>, 0)>>) EXCEPT !.sid = 5]},
         !.pubs = {M(TA, 1) @@ [pr |-> "[[\"ctype\",\"t\"]]", prl |-> 4, al |-> 1], M(TA, 1) @@ [pr |-> "[[\"ctype\",\"u\"]]", prl |-> 4], R(TA, 1) @@ [pr |-> "[[\"ctype\",\"t\"]]", prl |-> 4]}, !.exact = FALSE,
         !.budget = [B0 EXCEPT !.connect = 2, !.sub = 2, !.pub = 2, !.drop = 1]]
    [] x = "B22" -> [Base EXCEPT !.exact = FALSE,
         !.connects = {C(5, "p", FALSE, Never), C(4, "q", FALSE, 0)}, !.subs = {S(<<F(<<"aa">>, 2)>>), S(<<F(<<"+">>, 1)>>)},
         !.pubs = {M(<<"aa">>, 2), R(<<"aa">>, 1)}, !.sn = {[t |-> <<"aa">>, r |-> 0], [t |-> <<"aa">>, r |-> 1]},
         !.budget = [B0 EXCEPT !.connect = 3, !.sub = 2, !.pub = 1, !.sn = 2, !.drop = 1]]
    [] x = "B23" -> [Base EXCEPT !.opt = [Opt EXCEPT !.ska = 2],
         !.connects = {[C(5, "p", TRUE, 0) EXCEPT !.ka = ka, !.will = Will(TA, 0, 0, 0)] : ka \in {0, 1, 3}} \cup {[C(4, "q", TRUE, 0) EXCEPT !.ka = 1], [C(4, "q", TRUE, 0) EXCEPT !.ka = 2]},
         !.subs = {S(<<F(TA, 0)>>)},
         !.budget = [B0 EXCEPT !.connect = 2, !.sub = 1, !.ping = 2, !.tick = 6]]
    [] x = "B24" -> [Base EXCEPT
         !.connects = {[C(5, "p", FALSE, Never) EXCEPT !.will = Will(TA, 1, 0, 0)], C(4, "q", FALSE, 0), C(5, "r", FALSE, Never)},
         !.subs = {S(<<F(TA, 1)>>), S(<<F(<<"a#">>, 1)>>)}, !.pubs = {M(<<"+">>, 0), M(TA, 1)},
         !.budget = [B0 EXCEPT !.connect = 3, !.sub = 2, !.pub = 1, !.bad = 1]]
    [] x = "B25" -> [Base EXCEPT
         !.connects = {C(5, "p", TRUE, 0), C(4, "", TRUE, 0), C(4, "", FALSE, 0), C(5, "", TRUE, 0),
                       [C(5, "p", FALSE, 0) EXCEPT !.rmax = 0]}, !.takeover = TRUE, !.subs = {S(<<F(TA, 0)>>)}, !.pubs = {M(TA, 0)},
         !.budget = [B0 EXCEPT !.connect = 4, !.ping = 2, !.sub = 1, !.pub = 1, !.drop = 1]]
    [] x = "S01" -> [Base EXCEPT !.opt = [Opt EXCEPT !.pers = TRUE], !.exact = FALSE,
         !.connects = {C(5, "p", FALSE, Never), C(4, "q", FALSE, 0), C(4, "r", TRUE, 0)}, !.subs = {S(<<F(<<"+">>, 1)>>), S(<<F(TA, 2)>>)},
         !.pubs = {R(TA, 1), R(TA, 0) @@ [pay |-> ""], M(TA, 1)},
         !.budget = [B0 EXCEPT !.connect = 2, !.sub = 2, !.pub = 2, !.restart = 1]]
    [] x = "S01n" -> [ScopeOf("S01") EXCEPT !.opt = Opt]
    [] x = "S02" -> [Base EXCEPT !.exact = FALSE,
         !.connects = {C(5, "p", FALSE, Never), C(4, "q", FALSE, 0)}, !.subs = {S(<<F(TA, 1)>>)}, !.pubs = {R(TA, 1), M(TA, 1)},
         !.budget = [B0 EXCEPT !.connect = 4, !.sub = 2, !.pub = 2, !.reinit = 2]]
    [] x = "H01" -> [Base EXCEPT !.exact = FALSE,
         !.connects = {C(5, "p", FALSE, Never), C(4, "q", FALSE, 0), C(4, "r", TRUE, 0)}, !.subs = {S(<<F(<<"+">>, 1)>>), S(<<F(TA, 2)>>), S(<<[F(TA, 0) EXCEPT !.share = "g"]>>)},
         !.unsubs = {S(<<F(TA, 0)>>)}, !.pubs = {R(TA, 1), R(TA, 0) @@ [pay |-> ""], M(TA, 1), R(<<"$d">>, 0)},
         !.http = {[pay |-> y] : y \in {"retained", "subscriptions", "clients", "other"}} \cup {[pay |-> "client", cid |-> y] : y \in {"p", "q", "r"}},
         !.budget = [B0 EXCEPT !.connect = 2, !.sub = 1, !.unsub = 1, !.pub = 2, !.drop = 1, !.http = 1]]
=============================================================================
