----------------------------- MODULE SeqSource -----------------------------
(* The creating sources: just, from_iterable, from_callable, create, defer,  *)
(* concat, empty, never, error; subscribed several times, from outside and   *)
(* from inside a delivery; values given one per task of the scheduler.       *)
(*  c.kind, c.vs (values), c.ls (lists of concat), c.ev (script of create),  *)
(*  c.md = "imm" | "cur" | "loop"                                            *)
(*  c.re : <<[o, n, k, i]>> subscriber o does k at its n-th value            *)
(* State: sub : per subscriber [ch : tasks left of the present list,         *)
(*   rest : lists of concat still to come, on, got, top : it subscribed from *)
(*   outside the trampoline], q : tasks waiting, tr : trampoline is active   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs
VARIABLES ci, st, h
vars == <<ci, st, h>>

O(k, i, v) == [k |-> k, i |-> i, v |-> v]
E(k, v) == [k |-> k, v |-> v]
Tasks(l) == IF l = <<>> THEN << <<E("c", 0)>> >>
            ELSE [j \in 1..Len(l) |-> IF j = Len(l) THEN <<E("n", l[j]), E("c", 0)>> ELSE <<E("n", l[j])>>]
Sync(c) == c.kind \in {"create", "empty", "never", "error"}
Own(c) == CASE c.kind \in {"just", "iter", "defer"} -> Tasks(c.vs)
            [] c.kind = "call"  -> << <<E("f", 0), E("n", c.vs[1]), E("c", 0)>> >>
            [] c.kind = "callv" -> << <<E("f", 0), E("n", 0), E("c", 0)>> >>
            [] c.kind = "callx" -> << <<E("f", 0), E("e", 1)>> >>
            [] c.kind = "create" -> << c.ev >>
            [] c.kind = "empty" -> << <<E("c", 0)>> >>
            [] c.kind = "error" -> << <<E("e", 2)>> >>
            [] c.kind = "never" -> << >>
            [] c.kind = "concat" -> IF c.ls = <<>> THEN << <<E("c", 0)>> >> ELSE Tasks(c.ls[1])

RECURSIVE Deliver(_, _, _, _), Acts(_, _, _, _), Begin(_, _, _), Task(_, _, _), Drain(_, _), Imm(_, _, _), Launch(_, _, _), Feed(_, _, _, _)
Off(s, i) == [s EXCEPT !.sub[i].on = FALSE]
\* the reactions of subscriber o at its n-th value
Acts(c, s, o, j) ==
  IF j > Len(c.re) THEN s
  ELSE LET r == c.re[j]
           hit == r.o = o /\ r.n = s.sub[o].got
           t == IF ~hit THEN s
                ELSE IF r.k = "dis" THEN (IF r.i <= Len(s.sub) THEN Off(s, r.i) ELSE s)
                ELSE IF r.k = "throw" THEN (IF s.sub[o].on THEN Off([s EXCEPT !.outs = Append(@, O("e", o, 3))], o) ELSE s)
                ELSE Begin(c, s, TRUE)
       IN Acts(c, t, o, j + 1)
\* one event of subscriber i's source; lst: more lists of concat follow
Deliver(c, s, i, e) ==
  IF e.k = "f" THEN [s EXCEPT !.outs = Append(@, O("f", 0, 0))]
  ELSE IF ~s.sub[i].on THEN s
  ELSE IF e.k = "n" THEN Acts(c, [s EXCEPT !.outs = Append(@, O("n", i, e.v)), !.sub[i].got = @ + 1], i, 1)
  ELSE IF e.k = "c" /\ s.sub[i].rest # <<>> THEN
       \* the present list is over: the next one, at once or when the subscribing call regains control
       (IF s.sub[i].top THEN [s EXCEPT !.sub[i].wait = TRUE]
        ELSE Launch(c, [s EXCEPT !.sub[i].ch = Tasks(Head(s.sub[i].rest)), !.sub[i].rest = Tail(@)], i))
  ELSE Off([s EXCEPT !.outs = Append(@, O(e.k, i, e.v))], i)
Feed(c, s, i, evs) == IF evs = <<>> THEN s ELSE Feed(c, Deliver(c, s, i, Head(evs)), i, Tail(evs))
\* one task of subscriber i; it goes to the end of the queue if it has more to do
Task(c, s, i) ==
  IF ~s.sub[i].on THEN s
  ELSE LET evs == Head(s.sub[i].ch)
           left == Tail(s.sub[i].ch)
           s1 == Feed(c, [s EXCEPT !.sub[i].ch = left], i, evs)
       IN IF s1.sub[i].on /\ left # <<>> /\ evs[Len(evs)].k = "n" THEN [s1 EXCEPT !.q = Append(@, i)] ELSE s1
Drain(c, s) == IF s.q = <<>> THEN s ELSE Drain(c, Task(c, [s EXCEPT !.q = Tail(@)], Head(s.q)))
Imm(c, s, i) ==
  IF ~s.sub[i].on \/ s.sub[i].ch = <<>> THEN s
  ELSE LET evs == Head(s.sub[i].ch) IN Imm(c, Feed(c, [s EXCEPT !.sub[i].ch = Tail(@)], i, evs), i)
\* a list of subscriber i starts
Launch(c, s, i) ==
  IF ~s.sub[i].on \/ s.sub[i].ch = <<>> THEN s
  ELSE IF c.md = "imm" \/ Sync(c) \/ (c.kind = "concat" /\ c.ls = <<>>) THEN Imm(c, s, i)
  ELSE IF c.md = "loop" THEN [s EXCEPT !.q = Append(@, i)]
  ELSE IF s.tr THEN [s EXCEPT !.q = Append(@, i)]
  ELSE LET s1 == [Drain(c, [s EXCEPT !.tr = TRUE, !.q = Append(@, i)]) EXCEPT !.tr = FALSE]
       IN IF s1.sub[i].on /\ s1.sub[i].wait
          THEN Launch(c, [s1 EXCEPT !.sub[i].wait = FALSE, !.sub[i].ch = Tasks(Head(s1.sub[i].rest)), !.sub[i].rest = Tail(@)], i)
          ELSE s1
\* a new subscriber (live: its disposable is not disposed)
Begin(c, s, live) ==
  LET i  == Len(s.sub) + 1
      s1 == [s EXCEPT !.sub = Append(@, [ch |-> Own(c), rest |-> IF c.kind = "concat" /\ c.ls # <<>> THEN Tail(c.ls) ELSE <<>>,
                                         on |-> live, got |-> 0, top |-> c.md = "cur" /\ ~s.tr, wait |-> FALSE])]
  IN IF ~live THEN s1
     ELSE Launch(c, IF c.kind = "defer" THEN Deliver(c, s1, i, E("f", 0)) ELSE s1, i)
RECURSIVE Until(_, _)
\* dispatch until something is seen
Until(c, s) == IF s.q = <<>> \/ s.outs # <<>> THEN s ELSE Until(c, Task(c, [s EXCEPT !.q = Tail(@)], Head(s.q)))

Do(c, s, a) ==
  CASE a.k = "sub"  -> Begin(c, s, TRUE)
    [] a.k = "subd" -> Begin(c, s, FALSE)
    [] a.k = "dis"  -> Off(s, a.i)
    [] a.k = "run"  -> Until(c, s)
    [] a.k = "all"  -> Drain(c, s)
C == Configs[ci]
Flags(s) == [i \in 1..Len(s.sub) |-> IF s.sub[i].on THEN 0 ELSE 1]
Init == /\ ci \in 1..Len(Configs)
        /\ st = [sub |-> <<>>, q |-> <<>>, tr |-> FALSE, outs |-> <<>>]
        /\ h = <<>>
Actions == {O("sub", Len(st.sub) + 1, 0), O("subd", Len(st.sub) + 1, 0)}
           \cup {O("dis", i, 0) : i \in {j \in 1..Len(st.sub) : st.sub[j].on}}
           \cup (IF C.md = "loop" /\ st.q # <<>> THEN {O("run", 0, 0), O("all", 0, 0)} ELSE {})
More == Len(h) < C.len
Step(a) == LET s == Do(C, [st EXCEPT !.outs = <<>>], a)
           IN /\ st' = s
              /\ h' = Append(h, [a |-> a, o |-> s.outs, f |-> Flags(s)])
Next == More /\ \E a \in Actions : (a.k \in {"sub", "subd"} => Len(st.sub) < C.max) /\ Step(a) /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Log == LET RECURSIVE F(_)
           F(j) == IF j = 0 THEN <<>> ELSE F(j - 1) \o h[j].o
       IN F(Len(h))
Of(i) == SelectSeq(Log, LAMBDA o : o.i = i)
Ids == 1..Len(st.sub)
Grammar == \A i \in Ids : LET l == Of(i) IN \A j \in 1..Len(l) : l[j].k # "n" => j = Len(l)
RECURSIVE Flat(_)
Flat(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o Flat(Tail(ls))
Doc == CASE C.kind \in {"just", "iter", "defer", "call"} -> C.vs [] C.kind = "callv" -> <<0>> [] C.kind = "concat" -> Flat(C.ls)
         [] C.kind = "create" -> LET p == SelectSeq(C.ev, LAMBDA e : TRUE)
                                     RECURSIVE T(_)
                                     T(j) == IF j > Len(p) \/ p[j].k # "n" THEN <<>> ELSE <<p[j].v>> \o T(j + 1)
                                 IN T(1)
         [] OTHER -> <<>>
Vals(l) == LET n == SelectSeq(l, LAMBDA o : o.k = "n") IN [j \in 1..Len(n) |-> n[j].v]
\* every subscriber sees a prefix of the documented sequence, all of it if it completes
Documented == \A i \in Ids : LET v == Vals(Of(i)) IN
                /\ Len(v) <= Len(Doc) /\ v = SubSeq(Doc, 1, Len(v))
                /\ (Of(i) # <<>> /\ Of(i)[Len(Of(i))].k = "c") => v = Doc
\* functions are called once per (accepted) subscription at most
Calls == Len(SelectSeq(Log, LAMBDA o : o.k = "f")) <= Len(st.sub)
\* nothing is left to do once everything has run
Finished == st.q = <<>> /\ C.kind \notin {"never", "create"} => \A i \in Ids : ~st.sub[i].on
Emit == ~More => PrintT(ToJson([c |-> ci, h |-> h]))
=============================================================================
