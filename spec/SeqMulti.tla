----------------------------- MODULE SeqMulti -----------------------------
(* Enumerates every bounded history (events of any subscription that ever   *)
(* existed, disposal, time) of the configurations and prints each maximal   *)
(* one with the observations it must produce.                               *)
EXTENDS RxMulti, Json
CONSTANTS Configs, MaxLen, After,
          MaxSubs,  \* bound on subscriptions made
          Dead      \* how many events of already closed subscriptions are tried per history
VARIABLES ci, st, h, dead
vars == <<ci, st, h, dead>>
C == Configs[ci]

\* 1 live, 0 released, 2 ended by itself but allowed to hold its resources until the replacement ends
Snap(s) == [i \in 1..Len(s.subs) |->
              <<s.subs[i].src, IF s.subs[i].live THEN 1
                               ELSE IF ~s.done /\ C.op \in {"oern", "retry_when"} /\ s.subs[i].role = "src" THEN 2 ELSE 0>>]
Entry(a, s) == [a |-> a.k, i |-> a.i, v |-> a.v, o |-> s.outs, d |-> s.done, s |-> Snap(s)]

Init == /\ ci \in 1..Len(Configs)
        /\ st = Start(C)
        /\ h = << Entry([k |-> "sub", i |-> 0, v |-> 0], st) >>
        /\ dead = 0
Ended == Cardinality({i \in 1..Len(h) : h[i].d})
\* values a source emits: c.vals[src+1]
ValsOf(src) == IF src + 1 <= Len(C.vals) THEN C.vals[src + 1] ELSE {src * 10 + 1}
\* a source that ended by itself and whose replacement is running must not emit any more (contract of sources)
Closed(j) == st.done \/ C.op \notin {"oern", "retry_when"} \/ st.subs[j].role # "src"
Acts == UNION { {[k |-> "n", i |-> i, v |-> v] : v \in ValsOf(st.subs[i].src)}
                \cup {[k |-> "e", i |-> i, v |-> "E"], [k |-> "c", i |-> i, v |-> 0]} :
                   i \in {j \in 1..Len(st.subs) : st.subs[j].live \/ Closed(j)} }
        \cup {[k |-> "d", i |-> 0, v |-> 0]}
        \cup (IF Timed(C) THEN {[k |-> "t", i |-> 0, v |-> 0]} ELSE {})
IsDead(a) == a.i # 0 /\ ~st.subs[a.i].live
More == Len(h) <= MaxLen /\ Ended <= After /\ Len(st.subs) <= MaxSubs
Step(a) == /\ dead' = IF IsDead(a) THEN dead + 1 ELSE dead
           /\ dead' <= Dead
           /\ st' = Do(C, st, a)
           /\ h' = Append(h, Entry(a, st'))
Next == More /\ \E a \in Acts : Step(a) /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
AllOut == LET RECURSIVE F(_)
              F(i) == IF i = 0 THEN <<>> ELSE F(i-1) \o h[i].o
          IN F(Len(h))
Grammar == \A i \in 1..Len(AllOut) : AllOut[i].k # "n" => i = Len(AllOut)
Silence == \A i \in 1..Len(h) : h[i].d => \A j \in (i+1)..Len(h) : h[j].o = <<>> /\ h[j].d
\* once ended, every source subscription has been released
Released == st.done => \A i \in 1..Len(st.subs) : ~st.subs[i].live
\* a released subscription is never revived
NoRevival == [][\A i \in 1..Len(st.subs) : ~st.subs[i].live => ~st'.subs[i].live]_vars
Emit_ == ~More => PrintT(ToJson([c |-> ci, h |-> h]))
=============================================================================
