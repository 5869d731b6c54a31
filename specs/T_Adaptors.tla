---------------------------- MODULE T_Adaptors -----------------------------
EXTENDS Adaptors, Trace
VARIABLE l
Step(e) ==
  LET o == e.o  a == e.a IN
  CASE e.op = "New"   -> New(o, a[1])
    [] e.op = "Push"  -> Push(o, a[1])
    [] e.op = "Clear" -> Clear(o)
    [] e.op = "QPop"  -> QPop(o)
    [] e.op = "QFront" -> QFront(o)
    [] e.op = "QBack" -> QBack(o)
    [] e.op = "SPop"  -> SPop(o)
    [] e.op = "STop"  -> STop(o)
    [] e.op = "PPop"  -> PPop(o)
    [] e.op = "PTop"  -> PTop(o)
    [] e.op = "PushL" -> PushL(o, a)
    [] e.op = "PushN" -> PushN(o, a[1], a[2])
    [] e.op = "QPopN" -> QPopN(o, a[1])
    [] e.op = "SPopN" -> SPopN(o, a[1])
    [] e.op = "PPopN" -> PPopN(o, a[1])
    [] e.op = "QTurn" -> QTurn(o, a[1], a[2])
    [] e.op = "STurn" -> STurn(o, a[1], a[2])
    [] e.op = "PTurn" -> PTurn(o, a[1], a[2], a[3])
    [] e.op = "PDrain" -> PDrain(o)
    [] e.op = "Obs"   -> Obs(o)
(* a long result is recorded as stretches: first value, length, step *)
RECURSIVE Flat(_, _)
Flat(d, i) == IF i > Len(d) THEN <<>>
              ELSE (IF d[i + 2] = 1 THEN Upto(d[i], d[i + 1]) ELSE Downto(d[i], d[i + 1])) \o Flat(d, i + 3)
Post(e) == /\ r' = IF Has(e, "b") THEN Seq3(Flat(e.b, 1)) ELSE e.r
           /\ Has(e, "c") => e.c = Len(st'[e.o])            \* size after the call
           /\ Has(e, "s") => e.s = Render(st'[e.o])
           /\ Has(e, "t") => Flat(e.t, 1) = st'[e.o]       \* a long string, parsed
           /\ Has(e, "f") => e.f = st'[e.o]                 \* a caller-supplied container
TInit == Init /\ l = 1
TNext == \E i \in DOMAIN Nodes[l].k :
           /\ l' = Nodes[l].k[i]
           /\ Step(Nodes[Nodes[l].k[i]]) /\ Post(Nodes[Nodes[l].k[i]])
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
