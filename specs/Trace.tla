------------------------------- MODULE Trace -------------------------------
(* Recorded behaviours of the implementation: a tree of events, node 1 is the
   root, e.k lists the events that may follow e.  A trace specification walks
   the tree; every node must be explainable by the action it names. *)
EXTENDS Json, IOUtils, TLC, Integers, Sequences
Nodes == ndJsonDeserialize(IOEnv.TRACE)
Has(e, f) == f \in DOMAIN e
(* acceptance for specifications whose state is determined by the trace:
   exactly one state per node of the tree *)
Accepted == TLCGet("stats").distinct = Len(Nodes)
=============================================================================
