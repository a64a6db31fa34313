------------------------------ MODULE RxMulti ------------------------------
(* Operators with several sources, resubscription or time, as state machines.*)
(*                                                                           *)
(* State record:                                                             *)
(*   subs : sequence of source subscriptions [src, role, live, upto]         *)
(*   done : the observer has got its terminal event or disposed              *)
(*   n    : number of values delivered                                       *)
(*   now  : virtual time                                                     *)
(*   o    : operator specific                                                *)
(*   outs : outputs of the current step (cleared by Begin)                   *)
(* Configuration record c:                                                   *)
(*   op, p (ints), thr (value making the user callback throw, -1 never),     *)
(*   sc : per source (index src+1) the sequence of attempts, each a sequence *)
(*        of events emitted synchronously while being subscribed,            *)
(*   re : reaction of the observer [k, n] to its n-th value; "slow": every    *)
(*        value takes it n units of time                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ev(k, v) == [k |-> k, v |-> v]
Out(k, v) == [k |-> k, v |-> v]

CloseAll(st) == [st EXCEPT !.done = TRUE,
                           !.subs = [i \in 1..Len(st.subs) |-> [st.subs[i] EXCEPT !.live = FALSE]]]
Kill(st, i) == [st EXCEPT !.subs[i].live = FALSE]
KillRole(st, r) == [st EXCEPT !.subs = [i \in 1..Len(st.subs) |->
                      IF st.subs[i].role = r THEN [st.subs[i] EXCEPT !.live = FALSE] ELSE st.subs[i]]]
LiveRole(st, r) == \E i \in 1..Len(st.subs) : st.subs[i].live /\ st.subs[i].role = r
AnyLive(st) == \E i \in 1..Len(st.subs) : st.subs[i].live

Term(st, k, v) == IF st.done THEN st
                  ELSE CloseAll([st EXCEPT !.outs = Append(@, Out(k, v))])
TermC(st) == Term(st, "c", 0)
TermE(st, e) == Term(st, "e", e)
Emit(c, st, v) ==
  IF st.done THEN st
  ELSE LET s1 == [st EXCEPT !.outs = Append(@, Out("n", v)), !.n = @ + 1]
       IN IF c.re.n = s1.n /\ c.re.k = "dispose" THEN CloseAll(s1)
          ELSE IF c.re.n = s1.n /\ c.re.k = "throw" THEN TermE(s1, "XO")
          ELSE IF c.re.k = "slow" THEN [s1 EXCEPT !.now = @ + c.re.n]
          ELSE s1

Throws(c, v) == c.thr # -1 /\ v = c.thr
NSub(st, src) == Cardinality({i \in 1..Len(st.subs) : st.subs[i].src = src})

\* configurations of trace validation: timed actions are steps of their own
Lazy(c) == "lazy" \in DOMAIN c
\* the synchronous script of the k-th subscription (1-based) of source src
Script(c, src, k) ==
  IF src + 1 > Len(c.sc) \/ c.sc[src + 1] = <<>> THEN <<>>
  ELSE LET a == c.sc[src + 1] IN IF k <= Len(a) THEN a[k] ELSE a[Len(a)]

ReplaceAt(q, i, v) == [q EXCEPT ![i] = v]
AllNonEmpty(q) == \A i \in 1..Len(q) : q[i] # <<>>

RECURSIVE Due(_, _), OnEv(_, _, _, _), OpEv(_, _, _, _), SubTo(_, _, _, _), RunScript(_, _, _, _, _), ConcatNext(_, _), SubList(_, _, _, _)

OnEv(c, st, i, e) ==
  IF st.done \/ ~st.subs[i].live THEN st
  ELSE LET s1 == OpEv(c, IF e.k = "n" THEN st ELSE Kill(st, i), i, e)
       IN IF (c.op \in {"delay", "observe_on"} \/ (c.op = "debounce" /\ c.p[1] = 0)) /\ ~Lazy(c) THEN Due(c, s1) ELSE s1   \* due at once: delivered at once

RunScript(c, st, i, evs, j) ==
  IF j > Len(evs) THEN st
  ELSE RunScript(c, OnEv(c, st, i, evs[j]), i, evs, j + 1)

SubTo(c, st, src, role) ==
  IF st.done THEN st
  ELSE LET k  == NSub(st, src) + 1
           s1 == [st EXCEPT !.subs = Append(@, [src |-> src, role |-> role, live |-> TRUE])]
       IN RunScript(c, s1, Len(s1.subs), Script(c, src, k), 1)

\* subscribe to sources a..b with roles = source numbers
SubList(c, st, a, b) == IF a > b THEN st ELSE SubList(c, SubTo(c, st, a, a), a + 1, b)

\* concat: next pending inner, or finish
ConcatNext(c, st) ==
  IF st.done THEN st
  ELSE IF st.o.q # <<>> THEN
     SubTo(c, [st EXCEPT !.o.q = Tail(@)], Head(st.o.q), "inner")
  ELSE IF ~LiveRole(st, "outer") THEN TermC(st) ELSE st

\* ---- one event of the subscription with role r (terminal events: the subscription is already closed)
OpEv(c, st, i, e) ==
  LET r == st.subs[i].role IN
  CASE c.op \in {"merge", "flat_map"} ->
         IF e.k = "e" THEN TermE(st, e.v)
         ELSE IF e.k = "c" THEN (IF AnyLive(st) THEN st ELSE TermC(st))
         ELSE IF r = "outer" THEN (IF Throws(c, e.v) THEN TermE(st, "X") ELSE SubTo(c, st, e.v, "inner"))
         ELSE Emit(c, st, e.v)
    [] c.op = "merge_with" ->
         IF e.k = "e" THEN TermE(st, e.v)
         ELSE IF e.k = "c" THEN (IF AnyLive(st) \/ st.o.open THEN st ELSE TermC(st))
         ELSE Emit(c, st, e.v)
    [] c.op = "concat" ->
         IF e.k = "e" THEN TermE(st, e.v)
         ELSE IF r = "outer" THEN
            IF e.k = "c" THEN (IF LiveRole(st, "inner") \/ st.o.q # <<>> THEN st ELSE TermC(st))
            ELSE IF LiveRole(st, "inner") THEN [st EXCEPT !.o.q = Append(@, e.v)]
            ELSE SubTo(c, st, e.v, "inner")
         ELSE IF e.k = "c" THEN ConcatNext(c, st)
         ELSE Emit(c, st, e.v)
    [] c.op \in {"concat_src", "repeat", "repeat_inf", "start_with_obs"} ->
         IF e.k = "e" THEN TermE(st, e.v)
         ELSE IF e.k = "n" THEN Emit(c, st, e.v)
         ELSE IF c.op = "repeat_inf" THEN SubTo(c, st, 0, "src")
         ELSE IF st.o.q = <<>> THEN TermC(st)
         ELSE SubTo(c, [st EXCEPT !.o.q = Tail(@)], Head(st.o.q), "src")
    [] c.op = "switch" ->
         IF e.k = "e" THEN TermE(st, e.v)
         ELSE IF e.k = "c" THEN (IF AnyLive(st) THEN st ELSE TermC(st))
         ELSE IF r = "outer" THEN SubTo(c, KillRole(st, "inner"), e.v, "inner")
         ELSE Emit(c, st, e.v)
    [] c.op = "zip" ->
         IF e.k = "e" THEN TermE(st, e.v)
         ELSE IF e.k = "c" THEN (IF AnyLive(st) \/ Len(st.subs) < Len(st.o.q) THEN st ELSE TermC(st))
         ELSE LET q == ReplaceAt(st.o.q, r + 1, Append(st.o.q[r + 1], e.v))
              IN IF AllNonEmpty(q) THEN
                    LET tup == [k \in 1..Len(q) |-> Head(q[k])]
                        s1  == [st EXCEPT !.o.q = [k \in 1..Len(q) |-> Tail(q[k])]]
                    IN IF Throws(c, tup[1]) THEN TermE(s1, "X") ELSE Emit(c, s1, tup)
                 ELSE [st EXCEPT !.o.q = q]
    [] c.op = "combine_latest" ->
         IF e.k = "e" THEN TermE(st, e.v)
         ELSE IF e.k = "c" THEN (IF AnyLive(st) \/ Len(st.subs) < Len(st.o.q) THEN st ELSE TermC(st))
         ELSE LET q == ReplaceAt(st.o.q, r + 1, <<e.v>>)
                  s1 == [st EXCEPT !.o.q = q]
              IN IF AllNonEmpty(q) THEN
                    LET tup == [k \in 1..Len(q) |-> q[k][1]]
                    IN IF Throws(c, tup[1]) THEN TermE(s1, "X") ELSE Emit(c, s1, tup)
                 ELSE s1
    [] c.op = "with_latest_from" ->
         IF e.k = "e" THEN TermE(st, e.v)
         ELSE IF r # 0 THEN (IF e.k = "n" THEN [st EXCEPT !.o.q = ReplaceAt(@, r + 1, <<e.v>>)] ELSE st)
         ELSE IF e.k = "c" THEN TermC(st)
         ELSE LET q == ReplaceAt(st.o.q, 1, <<e.v>>)
              IN IF AllNonEmpty(q) THEN
                    LET tup == [k \in 1..Len(q) |-> q[k][1]]
                    IN IF Throws(c, tup[1]) THEN TermE(st, "X") ELSE Emit(c, st, tup)
                 ELSE st
    [] c.op = "take_until" ->
         IF e.k = "e" THEN TermE(st, e.v)
         ELSE IF e.k = "c" \/ r = "trig" THEN TermC(st)
         ELSE Emit(c, st, e.v)
    [] c.op \in {"retry", "retry_inf"} ->
         IF e.k = "n" THEN Emit(c, st, e.v)
         ELSE IF e.k = "c" THEN TermC(st)
         ELSE IF c.op = "retry" /\ st.o.left = 0 THEN TermE(st, e.v)
         ELSE SubTo(c, [st EXCEPT !.o.left = @ - 1], 0, "src")
    [] c.op = "retry_when" ->
         IF r = "src" THEN
            IF e.k = "n" THEN Emit(c, st, e.v)
            ELSE IF e.k = "c" THEN TermC(st)
            ELSE IF c.thr = 0 THEN TermE(st, "X")
            ELSE SubTo(c, st, 1, "notif")
         ELSE IF e.k = "e" THEN TermE(st, e.v)
         ELSE IF e.k = "c" THEN TermC(st)
         ELSE SubTo(c, Kill(st, i), 0, "src")
    [] c.op = "oern" ->
         IF e.k = "n" THEN Emit(c, st, e.v)
         ELSE IF e.k = "c" THEN TermC(st)
         ELSE IF r = "res" THEN TermE(st, e.v)
         ELSE IF c.thr = 0 THEN TermE(st, "X")
         ELSE SubTo(c, st, 1, "res")
    \* ---- time based (single source 0; period c.p[1])
    [] c.op \in {"delay", "observe_on"} ->
         IF e.k = "e" /\ c.op = "observe_on" THEN TermE(st, e.v)
         ELSE [st EXCEPT !.o.q = Append(@, [e |-> e, at |-> st.now + c.p[1]])]
    [] c.op = "debounce" ->
         IF e.k = "e" THEN TermE(st, e.v)
         ELSE IF e.k = "c" THEN
            (IF st.o.q = <<>> THEN TermC(st) ELSE TermC(Emit(c, [st EXCEPT !.o.q = <<>>], st.o.q[1].e.v)))
         ELSE [st EXCEPT !.o.q = <<[e |-> e, at |-> st.now + c.p[1]]>>]
    [] c.op = "throttle" ->
         IF e.k = "e" THEN TermE(st, e.v)
         ELSE IF e.k = "c" THEN TermC(st)
         ELSE IF st.o.last # -1 /\ st.now < st.o.last + c.p[1] THEN st
         ELSE [Emit(c, st, e.v) EXCEPT !.o.last = st.now]
    [] c.op \in {"timeout", "timeout_fb"} ->
         IF e.k = "e" THEN TermE(st, e.v)
         ELSE IF e.k = "c" THEN TermC(st)
         ELSE IF r = "fb" THEN Emit(c, st, e.v)
         ELSE [Emit(c, st, e.v) EXCEPT !.o.dl = st.now + c.p[1]]
    [] OTHER -> \* plain pass-through: subscribe_on, finally, sources
         IF e.k = "e" THEN TermE(st, e.v)
         ELSE IF e.k = "c" THEN TermC(st)
         ELSE Emit(c, st, e.v)

\* ---- time: when the next timed action is due (-1: none), and that action alone
DueAt(c, st) ==
  IF st.done THEN -1
  ELSE CASE c.op \in {"delay", "observe_on", "debounce"} -> IF st.o.q = <<>> THEN -1 ELSE Head(st.o.q).at
    [] c.op \in {"timeout", "timeout_fb"} -> st.o.dl
    [] c.op \in {"interval", "timer", "subscribe_on"} -> st.o.at
    [] OTHER -> -1
Due1(c, st) ==
  CASE c.op \in {"delay", "observe_on"} ->
         LET it == Head(st.o.q).e
             s1 == [st EXCEPT !.o.q = Tail(@)]
         IN CASE it.k = "n" -> Emit(c, s1, it.v)
              [] it.k = "e" -> TermE(s1, it.v)
              [] OTHER -> TermC(s1)
    [] c.op = "debounce" -> Emit(c, [st EXCEPT !.o.q = <<>>], st.o.q[1].e.v)
    [] c.op \in {"timeout", "timeout_fb"} ->
         LET s1 == [KillRole(st, "src") EXCEPT !.o.dl = -1]
         IN IF c.op = "timeout" THEN TermE(s1, "TMO") ELSE SubTo(c, s1, 1, "fb")
    [] c.op = "interval" -> \* p = <<initial, period>>; o.at = next due, o.v = next value
         [Emit(c, st, st.o.v) EXCEPT !.o.at = @ + c.p[2], !.o.v = @ + 1]
    [] c.op = "timer" -> TermC(Emit(c, st, 0))
    [] c.op = "subscribe_on" -> \* the source is subscribed by the worker
         SubTo(c, [st EXCEPT !.o.at = -1], 0, "src")
    [] OTHER -> st
\* everything due at st.now
Due(c, st) == IF DueAt(c, st) = -1 \/ DueAt(c, st) > st.now THEN st ELSE Due(c, Due1(c, st))
DueNow(c, st) == IF Lazy(c) THEN st ELSE Due(c, st)

State0(o) == [subs |-> <<>>, done |-> FALSE, n |-> 0, now |-> 0, o |-> o, outs |-> <<>>]
Queues(k) == [i \in 1..k |-> <<>>]

\* ---- subscription
Start(c) ==
  CASE c.op \in {"merge", "flat_map", "switch"} -> SubTo(c, State0([x |-> 0]), 0, "outer")
    [] c.op = "merge_with" ->
         LET s1 == SubList(c, State0([open |-> TRUE]), 0, c.p[1] - 1)
         IN IF ~s1.done /\ ~AnyLive(s1) THEN TermC(s1) ELSE [s1 EXCEPT !.o.open = FALSE]
    [] c.op = "concat" -> SubTo(c, State0([q |-> <<>>]), 0, "outer")
    [] c.op \in {"concat_src", "start_with_obs"} ->
         SubTo(c, State0([q |-> Tail(c.p)]), Head(c.p), "src")
    [] c.op = "repeat" ->
         IF c.p[1] = 0 THEN TermC(State0([q |-> <<>>]))
         ELSE SubTo(c, State0([q |-> [i \in 1..(c.p[1] - 1) |-> 0]]), 0, "src")
    [] c.op = "repeat_inf" -> SubTo(c, State0([q |-> <<>>]), 0, "src")
    [] c.op \in {"zip", "combine_latest", "with_latest_from"} ->
         SubTo(c, SubList(c, State0([q |-> Queues(c.p[1])]), 1, c.p[1] - 1), 0, 0)
    [] c.op = "take_until" -> SubTo(c, SubTo(c, State0([x |-> 0]), 1, "trig"), 0, "src")
    [] c.op = "retry" -> SubTo(c, State0([left |-> c.p[1]]), 0, "src")
    [] c.op = "retry_inf" -> SubTo(c, State0([left |-> 0]), 0, "src")
    [] c.op \in {"retry_when", "oern"} -> SubTo(c, State0([x |-> 0]), 0, "src")
    [] c.op \in {"delay", "observe_on", "debounce"} -> DueNow(c, SubTo(c, State0([q |-> <<>>]), 0, "src"))
    [] c.op = "throttle" -> SubTo(c, State0([last |-> -1]), 0, "src")
    [] c.op \in {"timeout", "timeout_fb"} ->
         DueNow(c, SubTo(c, State0([dl |-> c.p[1]]), 0, "src"))
    [] c.op = "interval" -> DueNow(c, State0([at |-> c.p[1], v |-> 0]))
    [] c.op = "timer" -> DueNow(c, State0([at |-> c.p[1]]))
    [] c.op = "subscribe_on" -> DueNow(c, State0([at |-> 0]))
    [] OTHER -> SubTo(c, State0([x |-> 0]), 0, "src")

Begin(st) == [st EXCEPT !.outs = <<>>]
\* one step of a history: a = [k |-> "n"|"e"|"c", i, v] event of subscription i; "d" dispose; "t" one unit of time
Do(c, st, a) ==
  LET s0 == Begin(st) IN
  CASE a.k = "d" -> CloseAll(s0)
    [] a.k = "t" -> Due(c, [s0 EXCEPT !.now = @ + 1])
    [] OTHER -> DueNow(c, OnEv(c, s0, a.i, Ev(a.k, a.v)))
Timed(c) == c.op \in {"delay", "observe_on", "debounce", "throttle", "timeout", "timeout_fb", "interval", "timer", "subscribe_on"}
=============================================================================
