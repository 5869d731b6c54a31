------------------------------ MODULE Results ------------------------------
(* Encoding of what a call returned, shared with harness/cmd/driver/core.go. *)
EXTENDS Integers, Sequences

OK       == <<0>>
PANIC    == <<-1>>      \* the call panicked (out of range, empty container)
NOTFOUND == <<-2>>      \* not-found error, nil node, invalid iterator
ERR      == <<-3>>      \* any other error value
Val(x)   == <<1, x>>
Bool(b)  == <<2, IF b THEN 1 ELSE 0>>
Seq3(s)  == <<3>> \o s
B2I(b)   == IF b THEN 1 ELSE 0
=============================================================================
