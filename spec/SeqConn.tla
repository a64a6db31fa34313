------------------------------ MODULE SeqConn ------------------------------
(* Connectable observables and ref_count over a publish subject.             *)
(* A connection is one subscription to the source (an attempt).  mode        *)
(* "conn": connect / disconnect are explicit.  mode "ref": the source is     *)
(* connected for the first subscriber and released with the last one.        *)
(* Config: mode, sc = events each attempt emits while being subscribed       *)
(* (attempts beyond the list: as the last entry), max observers, maxa        *)
(* attempts, len, re = reactions [o, n, k, i]: observer o's n-th callback    *)
(* does k in unsub i | sub | conn | disc.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs
VARIABLES ci, st, h
vars == <<ci, st, h>>
C == Configs[ci]
Out(s, k, i, v) == [s EXCEPT !.outs = Append(@, [k |-> k, i |-> i, v |-> v])]
Drop(q, i) == SelectSeq(q, LAMBDA x : x # i)
Cur(s) == IF s.cur = 0 THEN 0 ELSE s.att[s.cur]
Close(s) == IF Cur(s) = 1 THEN [s EXCEPT !.att[s.cur] = 0] ELSE s
RECURSIVE Give(_, _, _, _, _), GiveAll(_, _, _, _, _), React(_, _, _, _), Sub(_, _), Connect(_, _), Emit1(_, _, _, _), Script(_, _, _, _)
\* ref mode: one reference less; the last one takes the connection with it
Unref(c, s, i) == IF c.mode = "conn" \/ i \notin s.refs THEN s
                  ELSE LET s1 == [s EXCEPT !.refs = @ \ {i}] IN IF s1.refs = {} THEN [Close(s1) EXCEPT !.rc = 0] ELSE s1
Unsub(c, s, i) == IF i > Len(s.open) \/ s.open[i] = 0 THEN s ELSE Unref(c, [s EXCEPT !.open[i] = 0, !.obs = Drop(@, i)], i)
Give(c, s, i, k, v) ==
  IF s.open[i] = 0 THEN s
  ELSE IF k = "n" THEN React(c, Out([s EXCEPT !.cnt[i] = @ + 1], k, i, v), i, 1)
  ELSE Unref(c, React(c, Out([s EXCEPT !.cnt[i] = @ + 1, !.open[i] = 0, !.obs = Drop(@, i)], k, i, v), i, 1), i)
GiveAll(c, s, q, k, v) == IF q = <<>> THEN s ELSE GiveAll(c, Give(c, s, Head(q), k, v), Tail(q), k, v)
\* attempt a of the source emits
Emit1(c, s, a, e) ==
  IF s.att[a] = 0 THEN s
  ELSE IF e.k = "n" THEN (IF s.term = "" THEN GiveAll(c, s, s.obs, "n", e.v) ELSE s)
  ELSE LET s1 == IF s.term = "" THEN GiveAll(c, [s EXCEPT !.term = e.k, !.obs = <<>>], s.obs, e.k, 0) ELSE s IN [s1 EXCEPT !.att[a] = 0]
Script(c, s, a, q) == IF q = <<>> THEN s ELSE Script(c, Emit1(c, s, a, Head(q)), a, Tail(q))
ScriptOf(c, a) == IF c.sc = <<>> THEN <<>> ELSE c.sc[IF a > Len(c.sc) THEN Len(c.sc) ELSE a]
Connect(c, s) ==
  IF s.term # "" \/ Cur(s) = 1 THEN s
  ELSE LET a == Len(s.att) + 1
       IN Script(c, [s EXCEPT !.att = Append(@, 1), !.cur = a], a, ScriptOf(c, a))
React(c, s, i, j) ==
  IF j > Len(c.re) THEN s
  ELSE LET r == c.re[j]
           s1 == IF r.o = i /\ r.n = s.cnt[i] /\ (r.k \in {"conn", "disc"} => s.term = "")
                 THEN CASE r.k = "unsub" -> Unsub(c, s, r.i) [] r.k = "sub" -> (IF Len(s.open) < c.max THEN Sub(c, s) ELSE s)
                        [] r.k = "conn" -> (IF Len(s.att) < c.maxa THEN Connect(c, s) ELSE s) [] r.k = "disc" -> Close(s)
                 ELSE s
       IN React(c, s1, i, j + 1)
Sub(c, s) ==
  LET i  == Len(s.open) + 1
      s0 == [s EXCEPT !.open = Append(@, 1), !.cnt = Append(@, 0)]
      new == c.mode = "ref" /\ s.rc = 0
      s1 == IF c.mode = "ref" THEN [s0 EXCEPT !.refs = @ \cup {i}, !.rc = 1] ELSE s0
      s2 == IF s1.term # "" THEN Give(c, s1, i, s1.term, 0) ELSE [s1 EXCEPT !.obs = Append(@, i)]
  IN IF new /\ s2.rc = 1 THEN Connect(c, s2) ELSE s2
Start(c) == [term |-> "", obs |-> <<>>, open |-> <<>>, cnt |-> <<>>, att |-> <<>>, cur |-> 0, refs |-> {}, rc |-> 0, outs |-> <<>>]
Do(c, s0, a) ==
  LET s == [s0 EXCEPT !.outs = <<>>]
  IN CASE a.k = "sub" -> Sub(c, s)
       [] a.k = "unsub" -> Unsub(c, s, a.i)
       [] a.k = "conn" -> Connect(c, s)
       [] a.k = "disc" -> Close(s)
       [] a.k \in {"n", "e", "c"} -> Emit1(c, s, a.i, [k |-> a.k, v |-> a.v])
Act(k, i, v) == [k |-> k, i |-> i, v |-> v]
Acts(c, s) ==
  (IF Len(s.open) < c.max /\ Len(s.att) < c.maxa THEN {Act("sub", 0, 0)} ELSE {})
  \cup {Act("unsub", i, 0) : i \in {j \in 1..Len(s.open) : s.open[j] = 1}}
  \cup (IF c.mode = "conn" THEN (IF Len(s.att) < c.maxa THEN {Act("conn", 0, 0)} ELSE {}) \cup (IF s.cur > 0 THEN {Act("disc", 0, 0)} ELSE {}) ELSE {})
  \cup {Act(k, a, IF k = "n" THEN a ELSE 0) : k \in {"n", "e", "c"}, a \in {x \in 1..Len(s.att) : x >= Len(s.att) - 1}}
\* attempts released, observers done
Flags(s) == <<Len(s.att)>> \o [a \in 1..Len(s.att) |-> 1 - s.att[a]] \o [i \in 1..Len(s.open) |-> 1 - s.open[i]]
Entry(a, s) == [a |-> a, o |-> s.outs, f |-> Flags(s)]
Init == ci \in 1..Len(Configs) /\ st = Start(C) /\ h = << Entry(Act("start", 0, 0), st) >>
More == Len(h) <= C.len /\ Acts(C, st) # {}
Next == More /\ \E a \in Acts(C, st) : st' = Do(C, st, a) /\ h' = Append(h, Entry(a, st')) /\ UNCHANGED ci
-----------------------------------------------------------------------------
\* one subscription to the source at a time
OneLive == Cardinality({a \in 1..Len(st.att) : st.att[a] = 1}) <= 1
\* ref_count: connected exactly while somebody is there
Follows == C.mode = "ref" => (OneLive /\ ((st.refs # {}) <=> (st.rc = 1)) /\ (Cur(st) = 1 => st.refs # {}) /\ (\A i \in st.refs : st.open[i] = 1)
                              /\ (st.term = "" /\ st.refs # {} => Cur(st) = 1))
\* nothing of the source before a connection, nothing after its end
Present == (\A j \in 1..Len(st.obs) : st.open[st.obs[j]] = 1) /\ (st.term # "" => st.obs = <<>>)
Emit == ~More => PrintT(ToJson([c |-> ci, h |-> h]))
=============================================================================
