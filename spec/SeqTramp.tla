----------------------------- MODULE SeqTramp -----------------------------
(* Operators over sources that give their values on the current_thread       *)
(* trampoline (the default of just and from_iterable): the operator's state  *)
(* machine (RxMulti) driven by one queue of tasks, a value per task, in turn. *)
(* c.tr : per source (index src + 1) its values; the subscription of a        *)
(* source puts its task at the end of the queue.                             *)
EXTENDS RxMulti, Json
CONSTANTS Configs
VARIABLES ci, st, q, pos, h
vars == <<ci, st, q, pos, h>>
C == Configs[ci]
\* (sources with a synchronous script are not on the trampoline)
OnTr(c, src) == src + 1 <= Len(c.tr) /\ (src + 1 > Len(c.sc) \/ c.sc[src + 1] = <<>>)
\* subscriptions made since there were n of them
New(c, s, n) == SelectSeq([i \in 1..(Len(s.subs) - n) |-> n + i], LAMBDA i : OnTr(c, s.subs[i].src))
Init == /\ ci \in 1..Len(Configs)
        /\ st = Start(C)
        /\ q = New(C, st, 0)
        /\ pos = [i \in 1..Len(st.subs) |-> 1]
        /\ h = st.outs
ValsOf(i) == C.tr[st.subs[i].src + 1]
\* a task of subscription i: its next value; after the last one (or if there is none) its completion too
After(i) == LET s0 == Begin(st)
                v  == ValsOf(i)
                s1 == IF v = <<>> THEN s0 ELSE OnEv(C, s0, i, Ev("n", v[pos[i]]))
            IN IF pos[i] >= Len(v) THEN OnEv(C, s1, i, Ev("c", 0)) ELSE s1
Next == /\ q # <<>>
        /\ LET i == Head(q)
               s == IF st.subs[i].live THEN After(i) ELSE Begin(st)
           IN /\ st' = s
              /\ q' = Tail(q) \o New(C, s, Len(st.subs)) \o (IF s.subs[i].live THEN <<i>> ELSE <<>>)
              /\ pos' = [j \in 1..Len(s.subs) |-> IF j > Len(st.subs) THEN 1 ELSE IF j = i THEN pos[j] + 1 ELSE pos[j]]
              /\ h' = h \o s.outs
        /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Grammar == \A i \in 1..Len(h) : h[i].k # "n" => i = Len(h)
\* a queue without duplicates; live subscriptions to such sources are always in it
Queued == /\ \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
          /\ \A i \in 1..Len(st.subs) : st.subs[i].live /\ OnTr(C, st.subs[i].src) => \E j \in 1..Len(q) : q[j] = i
\* everything ends when the queue is empty
Ends == q = <<>> => (st.done \/ \E i \in 1..Len(st.subs) : st.subs[i].live)
Emit_ == q = <<>> => PrintT(ToJson([c |-> ci, o |-> h, d |-> st.done]))
=============================================================================
