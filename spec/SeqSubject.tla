---------------------------- MODULE SeqSubject ----------------------------
(* Subjects: who receives what.  An emission reaches the observers present  *)
(* when it is made, in order of subscription; a behavior subject hands its  *)
(* latest value and a replay subject its retained values to a newcomer; the *)
(* terminal event is repeated to newcomers.  Observers may react inside a   *)
(* callback by unsubscribing anybody, subscribing somebody new or disposing *)
(* the subject.                                                             *)
(* kind "sig": the observable of an object's signal: n the signal is emitted *)
(* c the object is destroyed.                                                *)
(* Config: kind "pub"|"beh"|"rep"|"sig", lim (0 = none), dur (0 = none), pre =     *)
(* observers subscribed at the start, max = bound on observers, len, and re *)
(* = reactions [o: observer, n: its n-th callback, k: "unsub"|"sub"|"dis",  *)
(* i: whom].  nt = 1: no terminal events (a behavior subject gives its      *)
(* latest value or not to somebody subscribing while its terminal event is  *)
(* being delivered: both are accepted).                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs
VARIABLES ci, st, h
vars == <<ci, st, h>>
C == Configs[ci]
Seed == 50

Out(s, k, i, v) == [s EXCEPT !.outs = Append(@, [k |-> k, i |-> i, v |-> v])]
Retain(c, q, now) == IF c.dur = 0 THEN q ELSE SelectSeq(q, LAMBDA x : now - x.at <= c.dur)
Remember(c, s, v) ==
  IF c.kind = "beh" THEN [s EXCEPT !.val = v]
  ELSE IF c.kind = "rep" THEN
    LET q0 == IF c.lim > 0 /\ Len(s.buf) >= c.lim THEN SubSeq(s.buf, Len(s.buf) - c.lim + 2, Len(s.buf)) ELSE s.buf
    IN [s EXCEPT !.buf = Append(Retain(c, q0, s.now), [v |-> v, at |-> s.now])]
  ELSE s
Drop(q, i) == SelectSeq(q, LAMBDA x : x # i)

RECURSIVE Give(_, _, _, _, _), GiveAll(_, _, _, _, _), React(_, _, _, _), Sub(_, _), GiveSeq(_, _, _, _)
\* one callback of observer i, with its reaction
Give(c, s, i, k, v) ==
  IF s.open[i] = 0 THEN s
  ELSE LET s1 == Out([s EXCEPT !.cnt[i] = @ + 1, !.open[i] = IF k = "n" THEN 1 ELSE 0, !.obs = IF k = "n" THEN @ ELSE Drop(@, i)], k, i, v)
       IN React(c, s1, i, 1)
GiveAll(c, s, q, k, v) == IF q = <<>> THEN s ELSE GiveAll(c, Give(c, s, Head(q), k, v), Tail(q), k, v)
GiveSeq(c, s, i, q) == IF q = <<>> THEN s ELSE GiveSeq(c, Give(c, s, i, "n", Head(q)), i, Tail(q))
Unsub(s, i) == IF i > Len(s.open) THEN s ELSE [s EXCEPT !.open[i] = 0, !.obs = Drop(@, i)]
Dispose(s) == IF s.term = "" THEN [s EXCEPT !.term = "d", !.obs = <<>>] ELSE s
React(c, s, i, j) ==
  IF j > Len(c.re) THEN s
  ELSE LET r == c.re[j]
           s1 == IF r.o = i /\ r.n = s.cnt[i]
                 THEN CASE r.k = "unsub" -> Unsub(s, r.i) [] r.k = "sub" -> (IF Len(s.open) < c.max THEN Sub(c, s) ELSE s) [] r.k = "dis" -> Dispose(s)
                 ELSE s
       IN React(c, s1, i, j + 1)
Sub(c, s) ==
  LET i  == Len(s.open) + 1
      s0 == [s EXCEPT !.open = Append(@, 1), !.cnt = Append(@, 0)]
      s1 == IF c.kind = "beh" /\ s.term = "" THEN Give(c, s0, i, "n", s.val)
            ELSE IF c.kind = "rep" THEN LET q == Retain(c, s.buf, s.now) IN GiveSeq(c, s0, i, [x \in 1..Len(q) |-> q[x].v])
            ELSE s0
  IN IF s1.term = "" THEN IF s1.open[i] = 1 THEN [s1 EXCEPT !.obs = Append(@, i)] ELSE s1
     ELSE IF s1.term = "d" THEN s1 ELSE Give(c, s1, i, s1.term, 0)

RECURSIVE Pre(_, _, _)
Pre(c, s, n) == IF n = 0 THEN s ELSE Pre(c, Sub(c, s), n - 1)
Start(c) == Pre(c, [term |-> "", obs |-> <<>>, open |-> <<>>, cnt |-> <<>>, val |-> Seed, buf |-> <<>>, now |-> 0, outs |-> <<>>], c.pre)
Do(c, s0, a) ==
  LET s == [s0 EXCEPT !.outs = <<>>]
  IN CASE a.k = "sub" -> Sub(c, s)
       [] a.k = "unsub" -> Unsub(s, a.i)
       [] a.k = "n" -> IF s.term # "" THEN s ELSE LET s1 == Remember(c, s, a.v) IN GiveAll(c, s1, s1.obs, "n", a.v)
       [] a.k \in {"e", "c"} -> IF s.term # "" THEN s ELSE GiveAll(c, [s EXCEPT !.term = a.k, !.obs = <<>>], s.obs, a.k, 0)
       [] a.k = "dis" -> Dispose(s)
       [] a.k = "t" -> [s EXCEPT !.now = @ + 1]
Act(k, i, v) == [k |-> k, i |-> i, v |-> v]
Acts(c, s) ==
  (IF Len(s.open) < c.max /\ ~(c.kind = "rep" /\ s.term = "d") THEN {Act("sub", 0, 0)} ELSE {})
  \cup {Act("unsub", i, 0) : i \in {j \in 1..Len(s.open) : c.pre < 10 \/ j \in {1, 2, c.pre, c.pre + 1}}}
  \cup {Act("n", 0, v) : v \in 1..(IF c.kind = "pub" THEN 1 ELSE 2)} \cup (IF c.kind = "sig" THEN {} ELSE {Act("dis", 0, 0)})
  \cup (IF c.nt = 1 THEN {} ELSE IF c.kind = "sig" THEN {Act("c", 0, 0)} ELSE {Act("e", 0, 0), Act("c", 0, 0)})
  \cup (IF c.kind = "rep" /\ c.dur > 0 THEN {Act("t", 0, 0)} ELSE {})
\* what can be read from outside: latest value, is the subject over, which observers are released
Flags(c, s) == <<IF c.kind = "beh" THEN s.val ELSE 0, IF s.term = "" THEN 0 ELSE 1>> \o [i \in 1..Len(s.open) |-> 1 - s.open[i]]
Entry(a, s) == [a |-> a, o |-> s.outs, f |-> Flags(C, s)]
Init == ci \in 1..Len(Configs) /\ st = Start(C) /\ h = << Entry(Act("start", 0, 0), st) >>
More == Len(h) <= C.len
Next == More /\ \E a \in Acts(C, st) : st' = Do(C, st, a) /\ h' = Append(h, Entry(a, st')) /\ UNCHANGED ci
-----------------------------------------------------------------------------
AllOut == LET RECURSIVE F(_)
              F(i) == IF i = 0 THEN <<>> ELSE F(i-1) \o h[i].o
          IN F(Len(h))
\* per observer: nothing after its terminal event
Grammar == \A i, j \in 1..Len(AllOut) : i < j /\ AllOut[i].i = AllOut[j].i => AllOut[i].k = "n"
\* an emission reaches nobody twice
Once == \A x \in 2..Len(h) : h[x].a.k = "n" => \A i, j \in 1..Len(h[x].o) : i < j /\ h[x].o[i].i = h[x].o[j].i => h[x].o[i].i > Len(h[x-1].f) - 2
\* present observers are open; once the subject is over nobody is present
Present == (\A i \in 1..Len(st.obs) : st.open[st.obs[i]] = 1) /\ (st.term # "" => st.obs = <<>>)
InOrder == \A i, j \in 1..Len(st.obs) : i < j => st.obs[i] # st.obs[j]
Bounded == C.lim > 0 => Len(st.buf) <= C.lim
Emit == ~More => PrintT(ToJson([c |-> ci, h |-> h]))
=============================================================================
