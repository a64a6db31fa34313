----------------------------- MODULE SeqGroup ------------------------------
(* group_by, window and window_toggle: a main observer is given windows      *)
(* (groups), and each window has observers of its own.                       *)
(* The source is held by references: one of the main observer, one of every  *)
(* observer of a window.  When the last reference goes, the source (and the  *)
(* openings, the closings) are released and everything falls silent.         *)
(* Config: mode "group" (key of v = v % p, value 10 * v, thr = value whose   *)
(* selector fails: at ("key" | "val"), desc = keys in descending order)      *)
(* "window" (p values each) "toggle" (openings = source 1, closing of window *)
(* w = source 10 + w; sc[w] = what it emits while being subscribed);         *)
(* auto = observers subscribed to a window while it is handed out; late = also *)
(* afterwards; vals;     *)
(* max observers; maxw windows; len; re = reactions [o, n, k, i] : callback  *)
(* n of o (0 = main) does k in unsub i (0 = main) | sub (own window) | throw *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs
VARIABLES ci, st, h
vars == <<ci, st, h>>
C == Configs[ci]
Out(s, k, i, v) == [s EXCEPT !.outs = Append(@, [k |-> k, i |-> i, v |-> v])]
Drop(q, i) == SelectSeq(q, LAMBDA x : x # i)
\* the last reference is gone
Free(s) == [s EXCEPT !.live = 0, !.opn = 0, !.ws = [w \in 1..Len(@) |-> [@[w] EXCEPT !.open = 0, !.cl = 0]]]
Unref(s, i) == IF i \notin s.refs THEN s ELSE LET s1 == [s EXCEPT !.refs = @ \ {i}] IN IF s1.refs = {} THEN Free(s1) ELSE s1
Gone(s, i) == IF i = 0 THEN s.main = 0 ELSE i > Len(s.open) \/ s.open[i] = 0
Shut(s, i) == IF i = 0 THEN [s EXCEPT !.main = 0] ELSE [s EXCEPT !.open[i] = 0]
Unsub(s, i) == IF Gone(s, i) THEN s ELSE Unref(Shut(s, i), i)
Cnt(s, i) == IF i = 0 THEN s.mcnt ELSE s.cnt[i]
Up(s, i) == IF i = 0 THEN [s EXCEPT !.mcnt = @ + 1] ELSE [s EXCEPT !.cnt[i] = @ + 1]
Sub(c, s, w) == IF Len(s.open) >= c.max \/ s.live = 0 THEN s
                ELSE LET i == Len(s.open) + 1
                     IN [s EXCEPT !.open = Append(@, 1), !.cnt = Append(@, 0), !.refs = @ \cup {i}, !.at = Append(@, w)]
RECURSIVE React(_, _, _, _, _), GiveAll(_, _, _, _, _), Autos(_, _, _, _), EndAll(_, _, _, _), Fill(_, _, _, _), Closing(_, _, _, _)
Term(c, s, i, k) == IF Gone(s, i) THEN s ELSE Unref(React(c, Out(Up(Shut(s, i), i), k, i, 0), i, 1, 0), i)
\* reactions of observer i in its current callback (w = its window; 0 in terminal callbacks)
React(c, s, i, j, w) ==
  IF j > Len(c.re) THEN s
  ELSE LET r == c.re[j]
           s1 == IF r.o = i /\ r.n = Cnt(s, i)
                 THEN CASE r.k = "unsub" -> Unsub(s, r.i) [] r.k = "sub" -> (IF w > 0 THEN Sub(c, s, w) ELSE s)
                        [] r.k = "throw" -> (IF w > 0 THEN Term(c, s, i, "x") ELSE s)
                 ELSE s
       IN React(c, s1, i, j + 1, w)
Give(c, s, i, v) == IF Gone(s, i) THEN s ELSE React(c, Out(Up(s, i), "n", i, v), i, 1, s.at[i])
GiveAll(c, s, q, k, v) == IF q = <<>> THEN s ELSE GiveAll(c, IF k = "n" THEN Give(c, s, Head(q), v) ELSE Term(c, s, Head(q), k), Tail(q), k, v)
ObsOf(s, w) == SelectSeq([i \in 1..Len(s.open) |-> i], LAMBDA i : s.at[i] = w /\ s.open[i] = 1)
ToWin(c, s, w, k, v) ==
  IF s.ws[w].open = 0 THEN s
  ELSE IF k = "n" THEN GiveAll(c, s, ObsOf(s, w), k, v)
  ELSE GiveAll(c, [s EXCEPT !.ws[w].open = 0, !.ws[w].cl = 0], ObsOf(s, w), k, 0)
\* windows in order of their keys / of their opening
RECURSIVE Order(_, _)
Order(S, s) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : s.ws[x].rank <= s.ws[y].rank IN <<m>> \o Order(S \ {m}, s)
EndAll(c, s, q, k) == IF q = <<>> THEN Term(c, s, 0, k) ELSE EndAll(c, ToWin(c, s, Head(q), k, 0), Tail(q), k)
\* the source's (or, toggle, anybody's) end: windows first, then the main observer; then nobody is left
End(c, s, k) == IF s.live = 0 THEN s ELSE Free(EndAll(c, s, Order({w \in 1..Len(s.ws) : s.ws[w].open = 1}, s), k))
Autos(c, s, w, n) == IF n = 0 THEN s ELSE Autos(c, Sub(c, s, w), w, n - 1)
\* a new window is handed to the main observer, if he is still there
Open(c, s, key, rank) ==
  LET w == Len(s.ws) + 1
      s1 == [s EXCEPT !.ws = Append(@, [key |-> key, rank |-> rank, open |-> 1, cl |-> 0, vis |-> s.main])]
  IN IF s1.main = 0 THEN s1 ELSE React(c, Autos(c, Out([s1 EXCEPT !.mcnt = @ + 1], "w", w, key), w, c.auto), 0, 1, w)
\* ---- one value into window w (window mode: the p-th one closes it)
Fill(c, s, w, v) ==
  LET s1 == ToWin(c, [s EXCEPT !.fill = @ + 1], w, "n", v)
  IN IF s1.fill = c.p THEN [ToWin(c, s1, w, "c", 0) EXCEPT !.fill = 0] ELSE s1
Find(s, key) == {w \in 1..Len(s.ws) : s.ws[w].key = key}
RECURSIVE Each(_, _, _, _)
Each(c, s, q, v) == IF q = <<>> THEN s ELSE Each(c, ToWin(c, s, Head(q), "n", v), Tail(q), v)
Value(c, s, v) ==
  CASE c.mode = "group" ->
         (IF c.at = "key" /\ v = c.thr THEN End(c, s, "x")
          ELSE LET key == v % c.p
                   s1 == IF Find(s, key) = {} /\ s.main = 1 THEN Open(c, s, key, IF c.desc = 1 THEN -key ELSE key) ELSE s
                   f == Find(s1, key)
               IN IF f = {} \/ s1.live = 0 THEN s1
                  ELSE LET w == CHOOSE x \in f : TRUE IN IF c.at = "val" /\ v = c.thr THEN End(c, s1, "x") ELSE ToWin(c, s1, w, "n", 10 * v))
    [] c.mode = "window" ->
         LET s1 == IF s.fill = 0 THEN Open(c, s, 0, Len(s.ws) + 1) ELSE s
         IN IF s1.live = 0 THEN s1 ELSE Fill(c, s1, Len(s1.ws), v)
    [] OTHER -> Each(c, s, Order({w \in 1..Len(s.ws) : s.ws[w].open = 1}, s), v)
\* an event of the closing of window w
Close(c, s, w, k) ==
  IF s.live = 0 \/ s.ws[w].cl = 0 THEN s
  ELSE IF k = "e" THEN End(c, s, "e") ELSE ToWin(c, s, w, "c", 0)
Closing(c, s, w, q) == IF q = <<>> THEN s ELSE Closing(c, Close(c, s, w, Head(q)), w, Tail(q))
Opening(c, s) ==
  LET s1 == Open(c, s, 0, Len(s.ws) + 1)
      w == Len(s1.ws)
  IN IF s1.live = 0 THEN s1
     ELSE IF c.thr = w THEN End(c, s1, "x")
     ELSE Closing(c, [s1 EXCEPT !.ws[w].cl = 1], w, IF w > Len(c.sc) THEN <<>> ELSE c.sc[w])
Start(c) == [live |-> 1, opn |-> IF c.mode = "toggle" THEN 1 ELSE 0, main |-> 1, mcnt |-> 0, ws |-> <<>>, fill |-> 0, open |-> <<>>, cnt |-> <<>>, at |-> <<>>, refs |-> {0}, outs |-> <<>>]
Do(c, s0, a) ==
  LET s == [s0 EXCEPT !.outs = <<>>]
  IN CASE a.k = "sub" -> Sub(c, s, a.i)
       [] a.k = "unsub" -> Unsub(s, a.i)
       [] OTHER -> CASE a.i = 0 -> (IF s.live = 0 THEN s ELSE IF a.k = "n" THEN Value(c, s, a.v) ELSE End(c, s, a.k))
                     [] a.i = 1 -> (IF s.opn = 0 THEN s ELSE IF a.k = "n" THEN Opening(c, s) ELSE IF a.k = "c" THEN [s EXCEPT !.opn = 0] ELSE End(c, s, a.k))
                     [] OTHER -> Close(c, s, a.i - 10, a.k)
Act(k, i, v) == [k |-> k, i |-> i, v |-> v]
Acts(c, s) ==
  (IF s.live = 1 THEN {Act("n", 0, v) : v \in (IF c.mode = "window" /\ s.fill = 0 /\ Len(s.ws) >= c.maxw THEN {} ELSE c.vals)} \cup {Act("e", 0, 0), Act("c", 0, 0)} ELSE {Act("n", 0, CHOOSE v \in c.vals : TRUE)})
  \cup (IF s.opn = 1 THEN (IF Len(s.ws) < c.maxw THEN {Act("n", 1, 0)} ELSE {}) \cup {Act("e", 1, 0), Act("c", 1, 0)} ELSE {})
  \cup {Act(k, 10 + w, 0) : k \in {"n", "c", "e"}, w \in {x \in 1..Len(s.ws) : s.ws[x].cl = 1}}
  \cup (IF c.late = 1 /\ Len(s.open) < c.max /\ s.live = 1 THEN {Act("sub", w, 0) : w \in {x \in 1..Len(s.ws) : s.ws[x].open = 1 /\ s.ws[x].vis = 1}} ELSE {})
  \cup {Act("unsub", i, 0) : i \in {j \in 0..Len(s.open) : ~Gone(s, j)}}
Flags(c, s) == <<1 - s.live, 1 - s.opn, 1 - s.main>> \o [w \in 1..c.maxw |-> IF w <= Len(s.ws) THEN s.ws[w].cl ELSE 0] \o [i \in 1..Len(s.open) |-> 1 - s.open[i]]
Entry(a, s) == [a |-> a, o |-> s.outs, f |-> Flags(C, s)]
Init == ci \in 1..Len(Configs) /\ st = Start(C) /\ h = << Entry(Act("start", 0, 0), st) >>
More == Len(h) <= C.len /\ Acts(C, st) # {} /\ Len(SelectSeq(h, LAMBDA e : e.f[1] = 1)) < 2
Next == More /\ \E a \in Acts(C, st) : st' = Do(C, st, a) /\ h' = Append(h, Entry(a, st')) /\ UNCHANGED ci
-----------------------------------------------------------------------------
\* the source is held exactly as long as somebody is there
Held == (st.live = 1 <=> st.refs # {}) /\ (st.live = 0 => st.main = 0 /\ st.opn = 0 /\ \A i \in 1..Len(st.open) : st.open[i] = 0) /\ \A i \in st.refs : ~Gone(st, i)
\* no two groups of one key; at most one open window without overlap
Keys == C.mode = "group" => \A v, w \in 1..Len(st.ws) : st.ws[v].key = st.ws[w].key => v = w
OneWin == C.mode = "window" => Cardinality({w \in 1..Len(st.ws) : st.ws[w].open = 1}) <= 1
Emit == ~More => PrintT(ToJson([c |-> ci, h |-> h]))
=============================================================================
