----------------------------- MODULE IndepMulti -----------------------------
(* Two subscriptions of one pipeline over several sources: the product of    *)
(* two copies of the behaviour of one subscription (SeqMulti).  Time is       *)
(* common: a step of time is a step of both.                                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Configs, MaxLen, After, MaxSubs, Dead, Total, Late
VARIABLES ci, s1, d1, h1, s2, d2, h2, ord, on, ends
A == INSTANCE SeqMulti WITH st <- s1, dead <- d1, h <- h1
B == INSTANCE SeqMulti WITH st <- s2, dead <- d2, h <- h2
va == <<s1, d1, h1>>
vb == <<s2, d2, h2>>
vars == <<ci, s1, d1, h1, s2, d2, h2, ord, on, ends>>
Init == /\ A!Init /\ B!Init
        /\ ord = <<1>> /\ on = FALSE /\ ends = 0
End(q) == IF q[Len(q)].a \in {"n", "t"} THEN 0 ELSE 1
T == [k |-> "t", i |-> 0, v |-> 0]
More == Len(ord) < Total
Start == /\ ~on /\ Len(ord) <= Late
         /\ on' = TRUE /\ ord' = Append(ord, 2) /\ UNCHANGED <<ci, va, vb, ends>>
First == /\ on \/ Len(ord) < Late
         /\ A!Next /\ UNCHANGED <<vb, on>> /\ h1'[Len(h1')].a # "t" /\ ord' = Append(ord, 1)
         /\ ends' = ends + End(h1') /\ ends' <= 2
Second == /\ on /\ B!Next /\ UNCHANGED <<va, on>> /\ h2'[Len(h2')].a # "t" /\ ord' = Append(ord, 2)
          /\ ends' = ends + End(h2') /\ ends' <= 2
Tick == /\ on /\ A!Timed(A!C) /\ A!Step(T) /\ B!Step(T) /\ UNCHANGED <<ci, on, ends>> /\ ord' = Append(ord, 3)
Next == More /\ (Start \/ First \/ Second \/ Tick)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Grammar == A!Grammar /\ B!Grammar
Silence == A!Silence /\ B!Silence
Released == A!Released /\ B!Released
Alone == [][(va' = va) \/ (vb' = vb) \/ ord'[Len(ord')] = 3]_vars
Stop == Len(ord) >= Total \/ ~ENABLED Next
Emit == Stop => PrintT(ToJson([c |-> ci, h |-> h1, g |-> h2, o |-> ord]))
=============================================================================
