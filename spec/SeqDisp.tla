------------------------------ MODULE SeqDisp ------------------------------
(* Disposables: callback leaves, composites, reference-counted composites    *)
(* and the references taken from them, with ownership: an item nobody owns   *)
(* is destroyed and thereby disposed.                                        *)
(* Config: kinds = kinds of the initial items ("leaf" | "comp" | "ref"),     *)
(* acts = allowed kinds of actions, max = bound on items, len, and           *)
(* re = reactions [o: leaf, k, i, v]: done inside o's callback.              *)
(* Actions: add / addw (v is added to i, strongly / weakly), rem (v from i), *)
(* clr i, dis i, drop i (the user gives up its handle), ref / refw (a        *)
(* reference is taken from i: it owns i / i owns it).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs
VARIABLES ci, st, h
vars == <<ci, st, h>>
C == Configs[ci]
IsComp(s, i) == s.kind[i] # "leaf"
N(s) == Len(s.kind)

Owned(s, i) == \/ s.hold[i] \/ \E j \in 1..Len(s.tmp) : s.tmp[j] = i
               \/ \E c \in 1..N(s) : \E j \in 1..Len(s.kids[c]) : s.kids[c][j].i = i /\ ~s.kids[c][j].w
               \/ \E c \in 1..N(s) : s.src[c] = i /\ s.strong[c]
Without(q, x) == SelectSeq(q, LAMBDA e : e.i # x)
Ids(q) == [j \in 1..Len(q) |-> q[j].i]
RECURSIVE Dispose(_, _, _, _), DisposeAll(_, _, _), Collect(_, _), React(_, _, _, _), Op(_, _, _)
DisposeAll(c, s, q) == IF q = <<>> THEN s ELSE DisposeAll(c, Dispose(c, s, Head(q), FALSE), Tail(q))
\* destroys what nobody owns
Collect(c, s) ==
  LET dead == {i \in 1..N(s) : s.alive[i] /\ ~Owned(s, i)}
  IN IF dead = {} THEN s
     ELSE LET i == CHOOSE x \in dead : \A y \in dead : x <= y
          IN Collect(c, Dispose(c, [s EXCEPT !.alive[i] = FALSE], i, TRUE))
Kids(c, s, i) == LET s1 == DisposeAll(c, s, Ids(s.kids[i])) IN Collect(c, [s1 EXCEPT !.kids[i] = <<>>])
Release(c, s, r) ==
  IF s.cnt[r] = -1 THEN s
  ELSE IF s.cnt[r] = 1 THEN Dispose(c, [s EXCEPT !.cnt[r] = -1], r, FALSE)
  ELSE [s EXCEPT !.cnt[r] = @ - 1]
Dispose(c, s, i, destr) ==
  IF s.disp[i] \/ (~destr /\ ~s.alive[i]) THEN s
  ELSE LET s1 == [s EXCEPT !.disp[i] = TRUE]
       IN CASE s.kind[i] = "leaf" -> React(c, [s1 EXCEPT !.outs = Append(@, [k |-> "d", i |-> i, v |-> 0])], i, 1)
            [] s.kind[i] = "comp" -> Kids(c, s1, i)
            [] s.kind[i] = "ref"  -> Kids(c, [s1 EXCEPT !.cnt[i] = -1], i)
            [] s.kind[i] = "in"   ->
                 LET r  == s.src[i]
                     s2 == IF ~destr /\ s1.alive[r] /\ ~s1.disp[r] THEN [s1 EXCEPT !.kids[r] = Without(@, i)] ELSE s1
                     s3 == IF s2.alive[r] THEN Release(c, s2, r) ELSE s2
                 IN Kids(c, Collect(c, [s3 EXCEPT !.src[i] = 0]), i)
React(c, s, o, j) ==
  IF j > Len(c.re) THEN s
  ELSE React(c, IF c.re[j].o = o THEN Op(c, s, c.re[j]) ELSE s, o, j + 1)
Op(c, s, a) ==
  LET i == a.i
      usable == s.alive[i] /\ ~s.disp[i]
  IN CASE i > N(s) \/ a.v > N(s) -> s
       [] a.k \in {"add", "addw"} ->
            IF (a.k = "add" /\ ~s.hold[a.v]) \/ s.disp[a.v] \/ ~s.alive[a.v] \/ (i = a.v /\ s.alive[i]) THEN s
            ELSE IF usable THEN [s EXCEPT !.kids[i] = Append(@, [i |-> a.v, w |-> a.k = "addw"])]
            ELSE Dispose(c, s, a.v, FALSE)
       [] a.k = "rem" -> IF usable /\ s.alive[a.v] THEN Collect(c, [s EXCEPT !.kids[i] = Without(@, a.v)]) ELSE s
       [] a.k = "clr" -> IF ~usable THEN s
                         ELSE LET q == s.kids[i]
                                  n == Len(s.tmp)
                                  s1 == [s EXCEPT !.kids[i] = <<>>, !.tmp = @ \o Ids(SelectSeq(q, LAMBDA e : ~e.w))]
                                  s2 == DisposeAll(c, s1, Ids(q))
                              IN Collect(c, [s2 EXCEPT !.tmp = SubSeq(@, 1, n)])
       [] a.k = "dis" -> Dispose(c, s, i, FALSE)
       [] a.k = "drop" -> IF s.hold[i] THEN Collect(c, [s EXCEPT !.hold[i] = FALSE]) ELSE s
       [] a.k \in {"ref", "refw"} ->
            IF N(s) >= c.max THEN s
            ELSE LET j == N(s) + 1
                     e == s.cnt[i] = -1 \/ ~s.alive[i]
                     s1 == [s EXCEPT !.kind = Append(@, "in"), !.disp = Append(@, e), !.alive = Append(@, ~e), !.hold = Append(@, ~e), !.kids = Append(@, <<>>),
                                     !.cnt = Append(@, 0), !.src = Append(@, IF e THEN 0 ELSE i), !.strong = Append(@, a.k = "ref")]
                 IN IF e THEN s1 ELSE [s1 EXCEPT !.cnt[i] = @ + 1, !.kids[i] = Append(@, [i |-> j, w |-> a.k = "ref"])]
       [] OTHER -> s
Start(c) ==
  LET n == Len(c.kinds)
  IN [kind |-> c.kinds, disp |-> [i \in 1..n |-> FALSE], alive |-> [i \in 1..n |-> TRUE], hold |-> [i \in 1..n |-> TRUE], kids |-> [i \in 1..n |-> <<>>],
      cnt |-> [i \in 1..n |-> 0], src |-> [i \in 1..n |-> 0], strong |-> [i \in 1..n |-> FALSE], tmp |-> <<>>, outs |-> <<>>]
Act(k, i, v) == [k |-> k, i |-> i, v |-> v]
Acts(c, s) ==
  LET comps == {i \in 1..N(s) : IsComp(s, i)}
  IN {a \in {Act(k, i, v) : k \in c.acts \cap {"add", "addw", "rem"}, i \in comps, v \in 1..N(s)}
            \cup {Act(k, i, 0) : k \in c.acts \cap {"clr"}, i \in comps}
            \cup {Act(k, i, 0) : k \in c.acts \cap {"dis", "drop"}, i \in 1..N(s)}
            \cup {Act(k, i, 0) : k \in c.acts \cap {"ref", "refw"}, i \in {j \in 1..N(s) : s.kind[j] = "ref"}} :
       /\ a.k = "drop" => s.hold[a.i]
       /\ a.k \in {"add", "addw"} => (a.k = "add" => s.hold[a.v]) /\ (c.nest = 1 \/ s.kind[a.v] = "leaf")
       /\ a.k = "rem" => \E j \in 1..Len(s.kids[a.i]) : s.kids[a.i][j].i = a.v
       /\ a.k = "clr" => Len(s.kids[a.i]) > 0
       /\ a.k \in {"ref", "refw"} => N(s) < c.max /\ s.alive[a.i]}
Flags(s) == [i \in 1..N(s) |-> (IF s.disp[i] \/ ~s.alive[i] THEN 1 ELSE 0) + (IF s.alive[i] THEN 2 ELSE 0)]
Entry(a, s) == [a |-> a, o |-> s.outs, f |-> Flags(s)]
Init == ci \in 1..Len(Configs) /\ st = Start(C) /\ h = << Entry(Act("start", 0, 0), st) >>
More == Len(h) <= C.len /\ Acts(C, st) # {}
Next == More /\ \E a \in Acts(C, st) : st' = Op(C, [st EXCEPT !.outs = <<>>], a) /\ h' = Append(h, Entry(a, st')) /\ UNCHANGED ci
-----------------------------------------------------------------------------
Count(i) == Cardinality({<<x, y>> \in (1..Len(h)) \X (1..20) : y <= Len(h[x].o) /\ h[x].o[y].i = i})
\* a leaf's callback runs exactly once, exactly when it is disposed or destroyed
Once == \A i \in 1..N(st) : st.kind[i] = "leaf" => Count(i) = IF st.disp[i] THEN 1 ELSE 0
Dead == \A i \in 1..N(st) : ~st.alive[i] => st.disp[i]
\* a disposed composite holds nothing; its resources went with it
Empty == \A i \in 1..N(st) : IsComp(st, i) /\ st.disp[i] => st.kids[i] = <<>>
\* the count of a reference-counted disposable is the number of its undisposed references; over once it drops to zero
Counted == \A r \in 1..N(st) : st.kind[r] = "ref" =>
              LET live == {i \in 1..N(st) : st.kind[i] = "in" /\ st.src[i] = r /\ ~st.disp[i]}
              IN IF st.disp[r] THEN st.cnt[r] = -1 ELSE st.cnt[r] = Cardinality(live)
NoTmp == st.tmp = <<>>
Emit == ~More => PrintT(ToJson([c |-> ci, h |-> h]))
=============================================================================
