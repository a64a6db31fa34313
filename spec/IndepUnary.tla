----------------------------- MODULE IndepUnary -----------------------------
(* Two subscriptions of one pipeline: the product of two copies of the       *)
(* behaviour of one subscription (SeqUnary), interleaved in every way.       *)
(* ord = which subscription took each step; the second one may start late.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Configs, MaxLen, After, Vals, Total, Late
VARIABLES ci, s1, d1, b1, n1, h1, s2, d2, b2, n2, h2, ord, on, ends
A == INSTANCE SeqUnary WITH ss <- s1, done <- d1, subd <- b1, nout <- n1, h <- h1
B == INSTANCE SeqUnary WITH ss <- s2, done <- d2, subd <- b2, nout <- n2, h <- h2
va == <<s1, d1, b1, n1, h1>>
vb == <<s2, d2, b2, n2, h2>>
vars == <<ci, s1, d1, b1, n1, h1, s2, d2, b2, n2, h2, ord, on, ends>>
Init == /\ A!Init /\ B!Init
        /\ ord = <<1>> /\ on = FALSE /\ ends = 0
End(q) == IF q[Len(q)].a = "n" THEN 0 ELSE 1
More == Len(ord) < Total
Start == /\ ~on /\ Len(ord) <= Late
         /\ on' = TRUE /\ ord' = Append(ord, 2) /\ UNCHANGED <<ci, va, vb, ends>>
First == /\ on \/ Len(ord) < Late
         /\ A!Next /\ UNCHANGED <<vb, on>> /\ ord' = Append(ord, 1)
         /\ ends' = ends + End(h1') /\ ends' <= 1
Second == /\ on /\ B!Next /\ UNCHANGED <<va, on>> /\ ord' = Append(ord, 2)
          /\ ends' = ends + End(h2') /\ ends' <= 1
Next == More /\ (Start \/ First \/ Second)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* each projection is a behaviour of a lone subscription: its invariants hold whatever the other one does
Grammar == A!Grammar /\ B!Grammar
Silence == A!Silence /\ B!Silence
\* the step of one leaves the other as it was
Alone == [][(va' = va) \/ (vb' = vb)]_vars
Stop == Len(ord) >= Total \/ ~ENABLED Next
Emit == Stop => PrintT(ToJson([c |-> ci, h |-> h1, g |-> h2, o |-> ord]))
=============================================================================
