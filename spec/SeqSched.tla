------------------------------ MODULE SeqSched ------------------------------
(* Schedulers driven from one thread, in virtual time (ms).                  *)
(* kind "imm": a task runs inside of the call that schedules it.             *)
(* kind "cur": tasks are queued; the outermost call (or who owns the queue)  *)
(* runs them, one after another, until none is left.                         *)
(* kind "test": due tasks run inside of schedule() and time_advance().       *)
(* kind "loop": a task runs only when dispatched.                            *)
(* What a task does when it is run is chosen by the model from c.menu:       *)
(* [op, x, res, d]  op: - | work x | sched (a new task, after x) | disp x    *)
(* (dispose task x, if anything: also one not scheduled yet); res: none |    *)
(* again d | throw.  kinds[id]: how "again" is meant: now | this | to.       *)
(* Config: kind, menu, kinds, delays, max tasks, ex = executions per task,   *)
(* len outer calls.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs
VARIABLES ci, st, h, scr
vars == <<ci, st, h, scr>>
C == Configs[ci]
Out(s, k, i, v) == [s EXCEPT !.outs = Append(@, [k |-> k, i |-> i, v |-> v])]
Max(a, b) == IF a > b THEN a ELSE b
\* due time first, then submission
Ins(q, x) == LET n == Cardinality({j \in 1..Len(q) : q[j].tp <= x.tp}) IN SubSeq(q, 1, n) \o <<x>> \o SubSeq(q, n + 1, Len(q))
Pop(s) == [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
Top(s) == s.stack[Len(s.stack)]
SetTop(s, f) == [s EXCEPT !.stack[Len(s.stack)] = f]
Push(s, f) == [s EXCEPT !.stack = Append(@, f)]
Frame(ph, id, tp) == [ph |-> ph, id |-> id, tp |-> tp, res |-> "none", d |-> 0]
\* a task's execution begins
Begin(s, id, tp) == Push(Out([s EXCEPT !.cnt[id] = @ + 1], "r", id, s.now), Frame("start", id, tp))
NextTp(c, s, f) == LET k == c.kinds[f.id] IN IF k = "now" THEN s.now + f.d ELSE IF k = "this" THEN f.tp + f.d ELSE s.now + f.d - 1
RECURSIVE Run(_, _)
\* until a task's behaviour has to be chosen or the outer call returns
Run(c, s) ==
  IF s.stack = <<>> THEN s
  ELSE LET f == Top(s) IN
  CASE f.ph = "start" -> s
    [] f.ph = "drain" ->
         IF s.q = <<>> THEN Run(c, Pop(s))
         ELSE LET x == Head(s.q)  s1 == [s EXCEPT !.q = Tail(@)]
              IN IF c.kind = "test" /\ x.tp > s.now THEN Run(c, IF f.id = 0 THEN Pop(s) ELSE SetTop(s, [f EXCEPT !.ph = "ret"]))
                 ELSE IF x.id \in s.dis THEN Run(c, s1)
                 ELSE IF c.kind = "test" THEN Begin(s1, x.id, x.tp)
                 ELSE LET t == Max(s.now, x.tp) IN Begin([s1 EXCEPT !.now = t], x.id, x.tp)
    [] f.ph = "one" ->
         LET x == Head(s.q)  s1 == [Pop(s) EXCEPT !.q = Tail(@)]
         IN IF x.id \in s.dis THEN s1 ELSE Begin([s1 EXCEPT !.now = Max(@, x.tp)], x.id, x.tp)
    [] f.ph = "ret" ->
         IF f.res = "throw" THEN Run(c, Out(Pop(s), "x", f.id, 0))
         ELSE IF f.res = "none" \/ (f.id \in s.dis /\ c.kind # "loop") THEN Run(c, Pop(s))
         ELSE LET tp == NextTp(c, s, f) IN
              IF c.kind = "imm" THEN Begin([Pop(s) EXCEPT !.now = Max(@, tp)], f.id, tp)
              ELSE Run(c, [Pop(s) EXCEPT !.q = Ins(@, [id |-> f.id, tp |-> IF c.kind = "test" THEN Max(s.now, tp) ELSE tp])])
RunDrain(c, s) == IF Top(s).ph = "drain" /\ s.q = <<>> /\ Top(s).id > 0 THEN Run(c, SetTop(s, [Top(s) EXCEPT !.ph = "ret"])) ELSE Run(c, s)
\* a new task (its handler may have been disposed already)
Sched(c, s, d, inside) ==
  LET id == s.nid + 1
      s1 == [s EXCEPT !.nid = id]
      e  == [id |-> id, tp |-> s.now + d]
  IN CASE c.kind = "imm" -> (IF id \in s.dis THEN s1 ELSE Begin([s1 EXCEPT !.now = s.now + d], id, e.tp))
       [] c.kind = "cur" -> (IF id \in s.dis THEN s1
                             ELSE IF inside \/ s.own = 1 THEN [s1 EXCEPT !.q = Ins(@, e)]
                             ELSE Run(c, Push([s1 EXCEPT !.q = Ins(@, e)], Frame("drain", 0, 0))))
       [] c.kind = "test" -> (IF inside THEN RunDrain(c, SetTop([s1 EXCEPT !.q = Ins(@, e)], [Top(s) EXCEPT !.ph = "drain"]))
                              ELSE Run(c, Push([s1 EXCEPT !.q = Ins(@, e)], Frame("drain", 0, 0))))
       [] c.kind = "loop" -> [s1 EXCEPT !.q = Ins(@, e)]
\* the top task behaves like menu item m
Choice(c, s, m) ==
  LET f == [Top(s) EXCEPT !.res = m.res, !.d = m.d, !.ph = "ret"]
      s1 == SetTop(s, f)
  IN CASE m.op = "-" -> Run(c, s1)
       [] m.op = "work" -> Run(c, [s1 EXCEPT !.now = @ + m.x])
       [] m.op = "disp" -> Run(c, [s1 EXCEPT !.dis = @ \cup {m.x}])
       [] m.op = "sched" -> IF c.kind = "test" THEN Sched(c, s1, m.x, TRUE) ELSE Run(c, Sched(c, s1, m.x, TRUE))
Start(c) == [now |-> 0, q |-> <<>>, stack |-> <<>>, dis |-> {}, cnt |-> [i \in 1..c.max |-> 0], nid |-> 0, own |-> 0, outs |-> <<>>]
Do(c, s0, a) ==
  LET s == [s0 EXCEPT !.outs = <<>>]
  IN CASE a.k = "sched" -> Sched(c, s, a.v, FALSE)
       [] a.k = "dis" -> [s EXCEPT !.dis = @ \cup {a.i}]
       [] a.k = "adv" -> (IF c.kind = "test" THEN Run(c, Push([s EXCEPT !.now = @ + a.v], Frame("drain", 0, 0))) ELSE [s EXCEPT !.now = @ + a.v])
       [] a.k = "own" -> [s EXCEPT !.own = 1]
       [] a.k = "end" -> Run(c, Push([s EXCEPT !.own = 0], Frame("drain", 0, 0)))
       [] a.k = "go" -> Run(c, Push(s, Frame("one", 0, 0)))
       [] a.k = "try" -> (IF s.q # <<>> /\ (Head(s.q).tp <= s.now \/ Head(s.q).id \in s.dis) THEN Run(c, Push(s, Frame("one", 0, 0))) ELSE s)
Act(k, i, v) == [k |-> k, i |-> i, v |-> v]
Acts(c, s) ==
  (IF s.nid < c.max THEN {Act("sched", 0, d) : d \in c.delays} ELSE {})
  \cup {Act("dis", s.q[j].id, 0) : j \in {x \in 1..Len(s.q) : s.q[x].id \notin s.dis}}
  \cup (IF c.kind = "cur" THEN (IF s.own = 0 THEN {Act("own", 0, 0)} ELSE {Act("end", 0, 0)}) ELSE {})
  \cup (IF c.kind \in {"test", "loop"} THEN {Act("adv", 0, 1)} ELSE {})
  \cup (IF c.kind = "loop" THEN {Act("try", 0, 0)} \cup (IF s.q # <<>> THEN {Act("go", 0, 0)} ELSE {}) ELSE {})
\* loop: is it empty, is anything ready
Flags(c, s) == <<s.now>> \o (IF c.kind = "loop" THEN <<IF s.q = <<>> THEN 1 ELSE 0, IF s.q # <<>> /\ (Head(s.q).tp <= s.now \/ Head(s.q).id \in s.dis) THEN 1 ELSE 0>> ELSE <<>>)
Entry(a, s) == [a |-> a, o |-> s.outs, f |-> Flags(C, s)]
Init == ci \in 1..Len(Configs) /\ st = Start(C) /\ scr = <<>> /\ h = << Entry(Act("start", 0, 0), st) >>
Idle == st.stack = <<>>
More == (~Idle) \/ (Len(h) <= C.len /\ Acts(C, st) # {})
Outer == /\ Idle /\ More
         /\ \E a \in Acts(C, st) : st' = Do(C, st, a) /\ h' = Append(h, Entry(a, st')) /\ UNCHANGED <<ci, scr>>
Last(n) == IF n = C.ex THEN {j \in 1..Len(C.menu) : C.menu[j].res # "again"} ELSE 1..Len(C.menu)
Can(j) == C.menu[j].op = "sched" => st.nid < C.max
Inner == /\ ~Idle
         /\ \E j \in Last(st.cnt[Top(st).id]) : /\ Can(j)
              /\ st' = Choice(C, st, C.menu[j])
              /\ scr' = Append(scr, Act("p", Top(st).id * 10 + st.cnt[Top(st).id], j))
              /\ h' = [h EXCEPT ![Len(h)].o = st'.outs, ![Len(h)].f = Flags(C, st')]
         /\ UNCHANGED ci
Next == Outer \/ Inner
-----------------------------------------------------------------------------
\* waiting tasks are in order of their due times; nothing waits while the outermost call has returned
Sorted == \A i, j \in 1..Len(st.q) : i < j => st.q[i].tp <= st.q[j].tp
Drained == Idle /\ C.kind = "cur" /\ st.own = 0 => st.q = <<>>
NotNested == C.kind # "imm" /\ C.kind # "test" => Cardinality({j \in 1..Len(st.stack) : st.stack[j].ph \in {"start", "ret"}}) <= 1
DueRan == Idle /\ C.kind = "test" /\ st.q # <<>> => Head(st.q).tp > st.now
Emit == ~More => PrintT(ToJson([c |-> ci, h |-> [j \in 1..Len(scr) |-> [a |-> scr[j], o |-> <<>>, f |-> <<>>]] \o h]))
=============================================================================
