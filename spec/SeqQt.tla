------------------------------- MODULE SeqQt --------------------------------
(* The Qt main-thread scheduler, driven through an event dispatcher with     *)
(* virtual time; a tick is half of a millisecond (Qt's timers know ms only). *)
(* A task given without a delay becomes an event of the application object,  *)
(* one with a delay a timer of the application's thread; from another thread *)
(* first an event that starts the timer.  "run" processes events: all posted *)
(* ones, then the timers which are due, until there is nothing left to do.   *)
(* What a task does when it is run is chosen by the model from c.menu:       *)
(* [op, x, res, d]  op: - | work x | sched (a new task, after x) | disp x;   *)
(* res: none | again d.  kinds[id]: how "again" is meant: now | this | to.   *)
(* Config: menu, kinds, delays, advs, max tasks, ex executions per task,     *)
(* len, app (0: there is no application: tasks fail).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs
VARIABLES ci, st, h, scr
vars == <<ci, st, h, scr>>
C == Configs[ci]
Out(s, k, i, v) == [s EXCEPT !.outs = Append(@, [k |-> k, i |-> i, v |-> v])]
Max(a, b) == IF a > b THEN a ELSE b
Ceil(n) == 2 * ((n + 1) \div 2)
Ins(q, x) == LET n == Cardinality({j \in 1..Len(q) : q[j].due <= x.due}) IN SubSeq(q, 1, n) \o <<x>> \o SubSeq(q, n + 1, Len(q))
\* tp: when the task may begin
Timer(s, id, tp) == IF tp <= s.now THEN [s EXCEPT !.posted = Append(@, [id |-> id, st |-> 0, tp |-> tp])]
                    ELSE [s EXCEPT !.timers = Ins(@, [id |-> id, tp |-> tp, due |-> s.now + Ceil(tp - s.now)])]
Begin(s, id, tp) == LET s1 == Out([s EXCEPT !.cnt[id] = @ + 1, !.cur = id, !.begun = s.now], "r", id, s.now)
                    IN IF s.now < tp THEN [s1 EXCEPT !.early = 1] ELSE s1
RECURSIVE Run(_)
Run(s) ==
  IF s.batch # <<>> THEN LET x == Head(s.batch)  s1 == [s EXCEPT !.batch = Tail(@)] IN IF x.id \in s.dis THEN Run(s1) ELSE Begin(s1, x.id, x.tp)
  ELSE IF s.posted # <<>> THEN
         LET x == Head(s.posted)  s1 == [s EXCEPT !.posted = Tail(@)]
         IN IF x.id \in s.dis THEN Run(s1) ELSE IF x.st = 1 THEN Run(Timer(s1, x.id, x.tp)) ELSE Begin(s1, x.id, x.tp)
  ELSE LET due == {j \in 1..Len(s.timers) : s.timers[j].due <= s.now}  n == Cardinality(due)
       IN IF n = 0 THEN [s EXCEPT !.on = 0]
          ELSE Run([s EXCEPT !.batch = SubSeq(s.timers, 1, n), !.timers = SubSeq(@, n + 1, Len(@))])
Sched(c, s, d, other) ==
  LET id == s.nid + 1  s1 == [s EXCEPT !.nid = id]
  IN IF c.app = 0 THEN Out(s1, "x", id, 0)
     ELSE IF other = 1 /\ d > 0 THEN [s1 EXCEPT !.posted = Append(@, [id |-> id, st |-> 1, tp |-> s.now + d])]
     ELSE Timer(s1, id, s.now + d)
NextTp(c, s, m) == LET k == c.kinds[s.cur] IN IF k = "now" THEN s.now + m.d ELSE IF k = "this" THEN s.begun + m.d ELSE s.now + m.d - 1
Choice(c, s, m) ==
  LET s1 == CASE m.op = "-" -> s
              [] m.op = "work" -> [s EXCEPT !.now = @ + m.x]
              [] m.op = "disp" -> [s EXCEPT !.dis = @ \cup {m.x}]
              [] m.op = "sched" -> Sched(c, s, m.x, 0)
      s2 == IF m.res = "again" THEN Timer(s1, s1.cur, NextTp(c, s1, m)) ELSE s1
  IN Run([s2 EXCEPT !.cur = 0])
Start(c) == [now |-> 0, posted |-> <<>>, timers |-> <<>>, batch |-> <<>>, dis |-> {}, cnt |-> [i \in 1..c.max |-> 0], nid |-> 0, on |-> 0, cur |-> 0, begun |-> 0, early |-> 0, outs |-> <<>>]
Do(c, s0, a) ==
  LET s == [s0 EXCEPT !.outs = <<>>]
  IN CASE a.k = "sched" -> Sched(c, s, a.v, a.i)
       [] a.k = "dis" -> [s EXCEPT !.dis = @ \cup {a.i}]
       [] a.k = "adv" -> [s EXCEPT !.now = @ + a.v]
       [] a.k = "run" -> Run([s EXCEPT !.on = 1])
Act(k, i, v) == [k |-> k, i |-> i, v |-> v]
Waiting(s) == {s.posted[j].id : j \in 1..Len(s.posted)} \cup {s.timers[j].id : j \in 1..Len(s.timers)}
DueNow(s) == s.posted # <<>> \/ \E j \in 1..Len(s.timers) : s.timers[j].due <= s.now
Acts(c, s) ==
  (IF s.nid < c.max THEN {Act("sched", o, d) : o \in {0, 1}, d \in c.delays} ELSE {})
  \cup {Act("dis", i, 0) : i \in Waiting(s) \ s.dis}
  \cup (IF s.posted = <<>> /\ s.timers # <<>> THEN {Act("adv", 0, v) : v \in c.advs} ELSE {})
  \cup (IF DueNow(s) THEN {Act("run", 0, 0)} ELSE {})
Entry(a, s) == [a |-> a, o |-> s.outs, f |-> <<s.now>>]
Init == ci \in 1..Len(Configs) /\ st = Start(C) /\ scr = <<>> /\ h = << Entry(Act("start", 0, 0), st) >>
Idle == st.on = 0
More == (~Idle) \/ (Len(h) <= C.len /\ Acts(C, st) # {})
Outer == /\ Idle /\ More
         /\ \E a \in Acts(C, st) : st' = Do(C, st, a) /\ h' = Append(h, Entry(a, st')) /\ UNCHANGED <<ci, scr>>
Last(n) == IF n = C.ex THEN {j \in 1..Len(C.menu) : C.menu[j].res # "again"} ELSE 1..Len(C.menu)
Can(j) == C.menu[j].op = "sched" => st.nid < C.max
Inner == /\ ~Idle
         /\ \E j \in Last(st.cnt[st.cur]) : /\ Can(j)
              /\ st' = Choice(C, st, C.menu[j])
              /\ scr' = Append(scr, Act("p", st.cur * 10 + st.cnt[st.cur], j))
              /\ h' = [h EXCEPT ![Len(h)].o = st'.outs, ![Len(h)].f = <<st'.now>>]
         /\ UNCHANGED ci
Next == Outer \/ Inner
-----------------------------------------------------------------------------
NotEarly == st.early = 0
Sorted == \A i, j \in 1..Len(st.timers) : i < j => st.timers[i].due <= st.timers[j].due
DueRan == Idle /\ h[Len(h)].a.k = "run" => ~DueNow(st)
Emit == ~More => PrintT(ToJson([c |-> ci, h |-> [j \in 1..Len(scr) |-> [a |-> scr[j], o |-> <<>>, f |-> <<>>]] \o h]))
=============================================================================
