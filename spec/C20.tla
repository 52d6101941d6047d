--------------------------------- MODULE C20 ---------------------------------
(* Seeds and the global generator: sessions replayed against Session20, and    *)
(* searches small enough that every candidate must have been drawn.            *)
EXTENDS Stats, GenKit, Session20
Ests == {"fast", "fastfew", "fastpart", "lts", "ltsraw", "s", "mm", "robpca", "robpca2", "sd", "sd3"}
Seeds == {0, 1, 42, 123456}
Confs == [est : Ests, seed : Seeds]
Ev == [op : {"seeded"}, k : 1..3, how : {"new", "same"}, d : 1..2] \cup [op : {"unseeded"}, k : 1..3, how : {"new"}, d : 1..2] \cup [op : {"perturb"}, k : {1}, how : {"seed0", "seed9", "draw", "draw3", "normal"}, d : {1}]
RECURSIVE Draw(_)
Draw(k) == IF k = 0 THEN <<>> ELSE <<RandomElement(Ev)>> \o Draw(k - 1)
Sd(k, how) == [op |-> "seeded", k |-> k, how |-> how, d |-> 1]
Pt(how) == [op |-> "perturb", k |-> 1, how |-> how, d |-> 1]
Canon == <<Sd(1, "same"), Sd(1, "same"), Pt("seed0"), Sd(1, "new"), Pt("draw"), [Sd(1, "same") EXCEPT !.d = 2], Sd(1, "same")>>
Cases == << {[what |-> "session", conf |-> <<c, RandomElement(Confs), RandomElement(Confs)>>, s |-> Canon, n |-> 20, p |-> RandomElement({2, 3}), kind |-> k, rep |-> 1] : c \in Confs, k \in {"cont", "grid"}},
            {[what |-> "session", conf |-> <<RandomElement(Confs), RandomElement(Confs), RandomElement(Confs)>>, s |-> TLCEval(Draw(9)), n |-> RandomElement({16, 25, 40}), p |-> RandomElement({2, 3, 5}), kind |-> RandomElement({"cont", "grid"}), rep |-> i] : i \in 1..Size(60, 900)},
            Pick(Size(40, 400), [what : {"sdall"}, n : {5, 6, 7}, p : {2, 3, 4}, seed : Seeds, rep : 1..5]),
            Pick(Size(24, 300), [what : {"starts"}, est : {"fast", "lts", "s"}, seed : Seeds, kind : {"heavy", "normal", "cluster30"}, rep : 1..4]),
            Pick(Size(16, 100), [what : {"fresh"}, est : {"fast", "robpca", "sd"}, rep : 1..Size(6, 40)]) >>
(* Stahel-Donoho outlyingness with every direction through two observations *)
Dir(X, i, j) == VSub(X[i], X[j])
OutAlong(X, d) == LET pr == TLCEval(MV(X, d)) md == TLCEval(Median(pr)) sc == TLCEval(MADraw(pr)) IN [i \in 1..Len(X) |-> RAbs(pr[i] \ominus md) \oslash sc]
AllOut(X) == LET n == Len(X)
                 P == TLCEval(SetToSeq({ij \in (1..n) \X (1..n) : ij[1] < ij[2]}))
                 O == TLCEval([q \in 1..Len(P) |-> OutAlong(X, Dir(X, P[q][1], P[q][2]))])
             IN [i \in 1..n |-> (LET s == VSort([q \in 1..Len(P) |-> O[q][i]]) IN s[Len(s)])]
Same(a, b) == Len(a) = Len(b) /\ VClose(a, b, R("1e-9"), R("1e-12"))
RECURSIVE Memos(_, _)
Memos(m, evs) == IF evs = <<>> THEN <<m>> ELSE <<m>> \o Memos(IF Head(evs).op = "seeded" THEN Remember(m, Head(evs).slot, Head(evs).val) ELSE m, Tail(evs))
Judge(r) ==
  LET ok == r.st = "ok"
      ses == ok /\ r.what = "session"
      seeded == IF ses THEN TLCEval(Positions(r.ev, LAMBDA e : e.op = "seeded")) ELSE <<>>
      memo == IF ses THEN TLCEval(Memos([k \in 1..6 |-> <<>>], r.ev)) ELSE <<>>
  IN << Cl("Returns", TRUE, ok),
        Cl("SeededRepeats", ses, \A q \in 1..Len(seeded) : LET e == r.ev[seeded[q]] IN SeededOk(e.g0, e.g1, memo[seeded[q]][e.slot], e.val, Same)),
        Cl("SeededIsThatOfAFreshProcess", ses, \A q \in 1..Len(seeded) : Same(r.ev[seeded[q]].val, r.fresh[r.ev[seeded[q]].slot])),
        Cl("AllDirectionsConsidered", ok /\ r.what = "sdall", VClose(r.got, AllOut(r.X), R("1e-6"), R("1e-9"))),
        Cl("NoStartOverlooked", ok /\ r.what = "starts", \A i \in 1..Len(r.single) : r.many \preceq (r.single[i] \otimes R("1.0001"))),
        Cl("UnseededDiffers", ok /\ r.what = "fresh" /\ r.rich, r.distinct >= 2) >>
=============================================================================
