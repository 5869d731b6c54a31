----------------------------- MODULE T_Bitmap ------------------------------
EXTENDS Bitmap, Trace
VARIABLE l
Step(e) ==
  LET o == e.o  a == e.a IN
  CASE e.op = "Scale"    -> r' = OK /\ Same
    [] e.op = "New"      -> New(o, a[1])
    [] e.op = "FromData" -> FromData(o, a)
    [] e.op = "Set"      -> Set(o, a[1])
    [] e.op = "Unset"    -> Unset(o, a[1])
    [] e.op = "IsSet"    -> IsSet(o, a[1])
    [] e.op = "Resize"   -> Resize(o, a[1])
    [] e.op = "Clear"    -> Clear(o)
(* Scale: in what follows position 64i+j, j < 56, stands for bit i*2^a+j of a
   wide bitmap; no call names any other bit.  e.c: the positions reported on, up to and beyond the size e.d; e.b: the data bytes *)
Post(e) == /\ r' = e.r
           /\ Has(e, "d") => /\ e.d = sz'[e.o]
                             /\ Range(e.c) = on'[e.o]
                             /\ Len(e.b) = sz'[e.o] \div 8
                             /\ BitsOf(e.b) = on'[e.o]
TInit == Init /\ l = 1
TNext == \E i \in DOMAIN Nodes[l].k :
           /\ l' = Nodes[l].k[i]
           /\ Step(Nodes[Nodes[l].k[i]]) /\ Post(Nodes[Nodes[l].k[i]])
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
