--------------------------------- MODULE C19 ---------------------------------
(* Sessions over several objects and datasets, replayed against Session19:     *)
(* every read must give what a fresh object fitted on the data of the state    *)
(* gives (computed in a separate process image), whatever came before.         *)
EXTENDS Stats, GenKit, Session19
Uni == {"umcd", "umcda", "tau", "qn", "huber", "cellm", "wrap1"}
CovC == {"fast", "fastraw", "fastfew", "det", "detraw", "ogk", "ogkrw", "wrap", "kendall"}
Reg == {"lts", "ltsraw", "ltsfew", "s", "sfew", "snoint", "mm", "mm0"}
Rest == {"robpca", "robpca2", "loc", "loc2", "scaler", "scalerq", "scalernc", "yj", "bc", "auto", "yjraw", "ddc", "ddcq", "clean", "clean2"}
Slow == {"cell", "cell9", "ddcw", "mmdef"}
Fast == Uni \cup CovC \cup Reg \cup Rest
Ev(nobj) == [o : 1..nobj, op : {"fit"}, d : 1..2, e : 1..2, r : {0}] \cup [o : 1..nobj, op : {"read"}, d : {0}, e : 1..2, r : 0..5]
EvB(nobj) == Ev(nobj) \cup [o : 1..nobj, op : {"bad"}, d : 1..2, e : {1}, r : 0..1]
RECURSIVE Draw(_, _)
Draw(k, nobj) == IF k = 0 THEN <<>> ELSE <<RandomElement(IF RandomElement(1..3) = 1 THEN EvB(nobj) ELSE Ev(nobj))>> \o Draw(k - 1, nobj)
(* the canonical histories every class must go through *)
Refit == << [o |-> 1, op |-> "fit", d |-> 1, e |-> 1, r |-> 0], [o |-> 1, op |-> "read", d |-> 0, e |-> 1, r |-> 1], [o |-> 1, op |-> "read", d |-> 0, e |-> 2, r |-> 2],
            [o |-> 1, op |-> "fit", d |-> 2, e |-> 1, r |-> 0], [o |-> 1, op |-> "read", d |-> 0, e |-> 1, r |-> 0], [o |-> 1, op |-> "read", d |-> 0, e |-> 2, r |-> 1],
            [o |-> 1, op |-> "read", d |-> 0, e |-> 2, r |-> 3], [o |-> 1, op |-> "fit", d |-> 1, e |-> 1, r |-> 0], [o |-> 1, op |-> "read", d |-> 0, e |-> 1, r |-> 0] >>
TwoOf == << [o |-> 1, op |-> "fit", d |-> 1, e |-> 1, r |-> 0], [o |-> 2, op |-> "fit", d |-> 2, e |-> 1, r |-> 0], [o |-> 1, op |-> "read", d |-> 0, e |-> 1, r |-> 0],
            [o |-> 1, op |-> "read", d |-> 0, e |-> 2, r |-> 1], [o |-> 2, op |-> "read", d |-> 0, e |-> 1, r |-> 0], [o |-> 2, op |-> "read", d |-> 0, e |-> 1, r |-> 2], [o |-> 1, op |-> "read", d |-> 0, e |-> 1, r |-> 3] >>
Recover == << [o |-> 1, op |-> "fit", d |-> 1, e |-> 1, r |-> 0], [o |-> 1, op |-> "bad", d |-> 2, e |-> 1, r |-> 0], [o |-> 1, op |-> "fit", d |-> 2, e |-> 1, r |-> 0], [o |-> 1, op |-> "read", d |-> 0, e |-> 1, r |-> 0], [o |-> 1, op |-> "read", d |-> 0, e |-> 1, r |-> 1],
              [o |-> 1, op |-> "bad", d |-> 1, e |-> 1, r |-> 1], [o |-> 1, op |-> "fit", d |-> 1, e |-> 1, r |-> 0], [o |-> 1, op |-> "read", d |-> 0, e |-> 1, r |-> 0] >>
(* an object built around another object of the session *)
Around == {<<"s", "mm">>, <<"s", "mm0">>, <<"lts", "mm">>, <<"qn", "scaler">>, <<"tau", "scalernc">>, <<"umcd", "scaler">>, <<"umcd", "ddc">>, <<"tau", "ddc">>}
Mixed == {<<"fast", "fastraw">>, <<"fast", "robpca">>, <<"lts", "s">>, <<"lts", "ltsraw">>, <<"s", "mm">>, <<"mm", "mm0">>, <<"scaler", "scalerq">>, <<"ddc", "ddcq">>, <<"yj", "auto">>, <<"bc", "auto">>, <<"det", "ogk">>,
          <<"huber", "yj">>, <<"umcd", "wrap1">>, <<"umcd", "umcda">>, <<"robpca", "robpca2">>, <<"loc", "loc2">>, <<"clean", "clean2">>, <<"cellm", "ddc">>, <<"wrap", "kendall">>}
C(cs, sh, s, i) == [cls |-> cs, share |-> sh, s |-> s, p |-> RandomElement({2, 3}), n |-> RandomElement({16, 24, 32}), rep |-> i]
Cases == << {C(<<c>>, "F", Refit, i) : c \in Fast \cup Slow, i \in 1..Size(1, 6)},
            {C(<<c>>, "F", Refit, i) : c \in {"fastfew", "ltsfew", "sfew"}, i \in 7..Size(12, 30)},
            {C(<<c, c>>, "F", TwoOf, i) : c \in Fast \cup Slow, i \in 1..Size(1, 6)},
            {C(<<c>>, "F", Recover, i) : c \in Fast, i \in 1..Size(1, 4)},
            {C(cs, "T", TLCEval(Draw(8, 2)), i) : cs \in Around, i \in 1..Size(4, 40)},
            {C(cs, "F", TLCEval(Draw(8, 2)), i) : cs \in Mixed, i \in 1..Size(2, 30)},
            {C(<<RandomElement(Fast), RandomElement(Fast), RandomElement(Fast)>>, "F", TLCEval(Draw(10, 3)), i) : i \in 1..Size(40, 900)} >>
Judge(r) ==
  LET ok == r.st = "ok"
      st == TLCEval(States(Start(Len(r.cls)), r.ev))
      Is(op) == Positions(r.ev, LAMBDA e : e.op = op)
      reads == TLCEval(Positions(r.ev, LAMBDA e : e.op = "read"))
      Good(i) == r.ev[i].key > 0
  IN << Cl("Returns", TRUE, ok),
        Cl("HistoryConsistent", ok, \A q \in 1..Len(reads) : r.ev[reads[q]].key = st[reads[q]][r.ev[reads[q]].o]),
        Cl("FitReturnsItself", ok, \A i \in 1..Len(r.ev) : r.ev[i].op = "fit" => r.ev[i].self),
        Cl("ReadIsThatOfAFreshObject", ok, \A q \in 1..Len(reads) : Good(reads[q]) => LET e == r.ev[reads[q]] IN e.res = e.wres /\ Len(e.val) = Len(e.want) /\ VClose(e.val, e.want, R("1e-8"), R("1e-10"))),
        Cl("ParametersUnchanged", ok, \A i \in 1..Len(r.ev) : r.ev[i].pok) >>
=============================================================================
