--------------------------------- MODULE C26 ---------------------------------
(* Dataset loaders: sessions of loads, mutations of what was returned, and     *)
(* directory changes, consumed event by event against Session26.               *)
EXTENDS Stats, GenKit, Session26
Names == {"telephone", "stars", "animals", "topgear", "glass"}
(* the documented tables: rows, columns, first and last names, number of       *)
(* categorical features, number of numeric cells and their total               *)
Doc(n) == CASE n = "telephone" -> [rows |-> 24, cols |-> 2, first |-> "Year", last |-> "Calls", cat |-> 0, num |-> 48, tot |-> R("1595.98")]
            [] n = "stars" -> [rows |-> 47, cols |-> 2, first |-> "Te", last |-> "light", cat |-> 0, num |-> 94, tot |-> R("438.14")]
            [] n = "animals" -> [rows |-> 28, cols |-> 2, first |-> "body", last |-> "brain", cat |-> 0, num |-> 56, tot |-> R("135882.885")]
            [] n = "topgear" -> [rows |-> 297, cols |-> 32, first |-> "Make", last |-> "Origin", cat |-> 19, num |-> 3759, tot |-> R("18624308.2")]
            [] OTHER -> [rows |-> 180, cols |-> 750, first |-> "V1", last |-> "V750", cat |-> 0, num |-> 135000, tot |-> R("31252047.41867204")]
Ops == [op : {"load"}, name : Names, frame : {"T", "F", "d"}] \cup [op : {"mut"}, how : {"cell", "names", "cols", "del", "sort", "fill", "catnames"}, k : 0..3] \cup [op : {"cd"}, to : {"tmp", "root"}]
Loads == [op : {"load"}, name : Names, frame : {"T", "F", "d"}]
RECURSIVE Draw(_)
Draw(k) == IF k = 0 THEN <<>> ELSE <<RandomElement(IF k % 2 = 0 THEN Loads ELSE Ops)>> \o Draw(k - 1)
(* every loader with every option on its own, then random sessions *)
Cases == << {[id |-> "", s |-> <<l>>] : l \in Loads},
            {[id |-> "", s |-> <<l, [op |-> "mut", how |-> h, k |-> 0], [op |-> "load", name |-> l.name, frame |-> f]>>] : l \in Loads, h \in {"cell", "names", "cols", "del", "catnames"}, f \in {"T", "F"}},
            {[id |-> ToString(i), s |-> TLCEval(Draw(8))] : i \in 1..Size(60, 800)} >>

Judge(r) ==
  LET ok == r.st = "ok"
      ev == r.ev
      L == TLCEval(Positions(ev, LAMBDA e : e.op = "load"))
      held(i) == IF i = 0 THEN <<>> ELSE ev[i].held
      AllL(P(_, _)) == \A q \in 1..Len(L) : P(ev[L[q]], Doc(ev[L[q]].name))
  IN << Cl("Returns", TRUE, ok),
        Cl("DocumentedShape", ok, AllL(LAMBDA e, d : e.rows = d.rows /\ e.cols = d.cols)),
        Cl("DocumentedNames", ok, AllL(LAMBDA e, d : Len(e.names) = d.cols /\ e.names[1] = d.first /\ e.names[Len(e.names)] = d.last /\ e.namesok)),
        Cl("CategoricalFeatures", ok, AllL(LAMBDA e, d : e.ncat = d.cat /\ e.catok /\ (e.isframe => e.catexact))),
        Cl("NumericContent", ok, AllL(LAMBDA e, d : e.num = d.num /\ RClose(e.tot, d.tot, R("1e-10"), 0) /\ e.numeric)),
        Cl("Container", ok, AllL(LAMBDA e, d : e.isframe = e.want)),
        Cl("DescriptionAndFilename", ok, AllL(LAMBDA e, d : e.meta /\ e.descr = e.descrfile)),
        Cl("LoadIsFreshAndComplete", ok, \A i \in 1..Len(ev) : ev[i].op = "load" => LoadOk(held(i - 1), ev[i].held, ev[i].file)),
        Cl("MutationStaysLocal", ok, \A i \in 1..Len(ev) : ev[i].op = "mut" => MutateOk(held(i - 1), ev[i].held, ev[i].k)),
        Cl("NothingElseChanges", ok, \A i \in 1..Len(ev) : ev[i].op = "cd" => OtherOk(held(i - 1), ev[i].held)) >>
=============================================================================
