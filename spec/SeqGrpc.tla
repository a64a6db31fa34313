------------------------------ MODULE SeqGrpc ------------------------------
(* gRPC stream adapters: an observer whose messages are written to the       *)
(* stream and an observable of the messages read from it, for the client     *)
(* (cbidi, cwrite, cread) and the server (sbidi, swrite, sread) side.        *)
(* The environment is gRPC as documented: completes outstanding operations   *)
(* in any order, fails them, cancels (server), ends the call.                *)
(* Outputs: call / meta, w v (write started), wd (no more writes), r (read   *)
(* started), f code (finished with status), and n / e / c of observers.      *)
(* Config: kind, len, sub = observers subscribed at the beginning, max, re = *)
(* reactions [o, n, k, i]: observer o's n-th callback does k in push | comp  *)
(* | err | unsub i | sub.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs
VARIABLES ci, st, h
vars == <<ci, st, h>>
C == Configs[ci]
Client(c) == c.kind \in {"cbidi", "cwrite", "cread"}
Reads(c) == c.kind \in {"cbidi", "cread", "sbidi", "sread"}
Writes(c) == c.kind \in {"cbidi", "cwrite", "sbidi", "swrite"}
Out(s, k, i, v) == [s EXCEPT !.outs = Append(@, [k |-> k, i |-> i, v |-> v])]
\* calls made on the stream; a server's wait until the stream is there
Call(s, k, v) == IF s.up = 1 THEN Out(s, k, 0, v) ELSE s
Finish(c, s, code) == IF s.fs # -1 THEN s ELSE Call([s EXCEPT !.fs = code], IF Client(c) THEN "wd" ELSE "f", IF Client(c) THEN 0 ELSE code)
StartWrite(s) == Call([s EXCEPT !.wr = 1, !.ws = Append(@, Head(s.q))], "w", Head(s.q))
StartRead(c, s) == IF Reads(c) THEN Call([s EXCEPT !.rd = 1], "r", 0) ELSE s
Accepts(s) == s.fin = -1 /\ s.dead = 0
Push(s, v) == IF ~Accepts(s) \/ s.fs # -1 THEN s
              ELSE LET s1 == [s EXCEPT !.q = Append(@, v), !.acc = Append(@, v)] IN IF Len(s1.q) = 1 THEN StartWrite(s1) ELSE s1
End(c, s, code) == IF ~Accepts(s) THEN s
                   ELSE LET s1 == [s EXCEPT !.fin = code] IN IF s1.q = <<>> THEN Finish(c, s1, code) ELSE s1
RECURSIVE React(_, _, _, _), Give(_, _, _, _, _)
Drop(q, i) == SelectSeq(q, LAMBDA x : x # i)
Sub(s) == LET i == Len(s.open) + 1
              s1 == [s EXCEPT !.open = Append(@, 1), !.cnt = Append(@, 0)]
          IN IF s.term = "" THEN [s1 EXCEPT !.obs = Append(@, i)] ELSE Out([s1 EXCEPT !.open[i] = 0], s.term, i, s.tv)
Give(c, s, q, k, v) ==
  IF q = <<>> THEN s
  ELSE LET i == Head(q)
           s1 == IF s.open[i] = 0 THEN s
                 ELSE React(c, Out([s EXCEPT !.cnt[i] = @ + 1, !.open[i] = IF k = "n" THEN 1 ELSE 0, !.obs = IF k = "n" THEN @ ELSE Drop(@, i)], k, i, v), i, 1)
       IN Give(c, s1, Tail(q), k, v)
React(c, s, i, j) ==
  IF j > Len(c.re) THEN s
  ELSE LET r == c.re[j]
           s1 == IF r.o = i /\ r.n = s.cnt[i]
                 THEN CASE r.k = "push" -> (IF Writes(c) THEN Push(s, 50 + r.i) ELSE s) [] r.k = "comp" -> (IF Writes(c) THEN End(c, s, 0) ELSE s)
                        [] r.k = "err" -> (IF Writes(c) THEN End(c, s, 13) ELSE s)
                        [] r.k = "unsub" -> (IF r.i <= Len(s.open) THEN [s EXCEPT !.open[r.i] = 0, !.obs = Drop(@, r.i)] ELSE s)
                 ELSE s
       IN React(c, s1, i, j + 1)
Terminal(c, s, k, v) == IF s.term # "" THEN s ELSE Give(c, [s EXCEPT !.term = k, !.tv = v], s.obs, k, v)
\* the adapter takes part in the call
Init_(c, s) ==
  IF Client(c) THEN Out(StartRead(c, [s EXCEPT !.up = 1, !.on = 1]), "call", 0, 0)
  ELSE LET s1 == Out([s EXCEPT !.up = 1, !.on = 1], "meta", 0, 0)
           s2 == StartRead(c, s1)
           s3 == IF s.wr = 1 THEN Out(s2, "w", 0, Head(s.q)) ELSE s2
       IN IF s.fs # -1 THEN Out(s3, "f", 0, s.fs) ELSE s3
Do(c, s0, a) ==
  LET s == [s0 EXCEPT !.outs = <<>>]
  IN CASE a.k = "push" -> Push([s EXCEPT !.np = @ + 1], a.v)
       [] a.k = "comp" -> End(c, s, 0)
       [] a.k = "err" -> End(c, s, 13)
       [] a.k = "sub" -> Sub(s)
       [] a.k = "unsub" -> [s EXCEPT !.open[a.i] = 0, !.obs = Drop(@, a.i)]
       [] a.k = "init" -> Init_(c, s)
       [] a.k = "rok" -> StartRead(c, Give(c, [s EXCEPT !.rd = 0, !.nr = @ + 1], s.obs, "n", a.v))
       [] a.k = "rno" -> (LET s1 == [s EXCEPT !.rd = 0] IN IF c.kind = "sread" THEN Finish(c, s1, 0) ELSE s1)
       [] a.k = "wok" -> (LET s1 == [s EXCEPT !.wr = 0, !.q = Tail(@)]
                          IN IF s1.fs # -1 THEN s1 ELSE IF s1.q # <<>> THEN StartWrite(s1) ELSE IF s1.fin # -1 THEN Finish(c, s1, s1.fin) ELSE s1)
       [] a.k = "wno" -> (LET s1 == [s EXCEPT !.wr = 0] IN IF c.kind = "swrite" THEN Finish(c, s1, 0) ELSE s1)
       [] a.k = "cancel" -> (LET s1 == Terminal(c, [s EXCEPT !.can = 1, !.dead = IF Writes(c) THEN 1 ELSE @], "e", 99) IN IF Writes(c) THEN Finish(c, s1, 1) ELSE s1)
       [] a.k = "done" -> (LET s1 == [s EXCEPT !.dead = 1, !.done = 1]
                               s2 == Terminal(c, s1, IF a.v = 0 THEN "c" ELSE "e", a.v) IN [s2 EXCEPT !.q = <<>>])
Act(k, i, v) == [k |-> k, i |-> i, v |-> v]
Acts(c, s) ==
  (IF Writes(c) /\ (s.done = 0 \/ s.post = 0) /\ s.np < c.maxp THEN {Act("push", 0, s.np + 1), Act("comp", 0, 0), Act("err", 0, 0)} ELSE {})
  \cup (IF Len(s.open) < c.max /\ s.done = 0 THEN {Act("sub", 0, 0)} ELSE {})
  \cup {Act("unsub", i, 0) : i \in {j \in 1..Len(s.open) : s.open[j] = 1}}
  \cup (IF s.on = 0 THEN {Act("init", 0, 0)}
        ELSE IF s.done = 1 THEN {}
        ELSE (IF s.rd = 1 THEN {Act("rok", 0, s.nr + 21), Act("rno", 0, 0)} ELSE {})
             \cup (IF s.wr = 1 THEN {Act("wok", 0, 0), Act("wno", 0, 0)} ELSE {})
             \cup (IF ~Client(c) /\ s.can = 0 THEN {Act("cancel", 0, 0)} ELSE {})
             \cup (IF s.rd = 0 /\ s.wr = 0 THEN (IF Client(c) THEN {Act("done", 0, 0), Act("done", 0, 5)} ELSE IF s.fs # -1 THEN {Act("done", 0, 0)} ELSE {}) ELSE {}))
\* messages that are kept: those not written yet; observers that are done
Flags(s) == <<Len(s.q), s.done>> \o [i \in 1..Len(s.open) |-> 1 - s.open[i]]
Entry(a, s) == [a |-> a, o |-> s.outs, f |-> Flags(s)]
Start0(c) == [q |-> <<>>, wr |-> 0, rd |-> 0, fin |-> -1, fs |-> -1, can |-> 0, dead |-> 0, done |-> 0, up |-> IF Client(c) THEN 1 ELSE 0, on |-> 0, np |-> 0, nr |-> 0, post |-> 0,
              obs |-> <<>>, open |-> <<>>, cnt |-> <<>>, term |-> "", tv |-> 0, acc |-> <<>>, ws |-> <<>>, outs |-> <<>>]
RECURSIVE Many(_, _)
Many(s, n) == IF n = 0 THEN s ELSE Many(Sub(s), n - 1)
Init == ci \in 1..Len(Configs) /\ st = Many(Start0(C), C.sub) /\ h = << Entry(Act("start", 0, 0), st) >>
More == Len(h) <= C.len /\ Acts(C, st) # {}
Next == More /\ \E a \in Acts(C, st) : /\ st' = (LET s == Do(C, st, a) IN IF st.done = 1 THEN [s EXCEPT !.post = 1] ELSE s)
                                        /\ h' = Append(h, Entry(a, st')) /\ UNCHANGED ci
-----------------------------------------------------------------------------
All == [j \in 1..Len(h) |-> h[j].o]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Ks(k) == SelectSeq(Flat(All), LAMBDA x : x.k = k)
\* what was accepted is written in this order, each once
InOrder == Len(st.ws) <= Len(st.acc) /\ st.ws = SubSeq(st.acc, 1, Len(st.ws))
\* the stream is finished at most once, and nothing is written afterwards
FinishOnce == /\ Len(Ks("f")) + Len(Ks("wd")) <= 1
              /\ \A j, k \in 1..Len(Flat(All)) : Flat(All)[j].k \in {"f", "wd"} /\ j < k => Flat(All)[k].k # "w"
\* a regular end comes after everything that was accepted; an error is not forgotten
Complete == (st.fs \in {0, 13} /\ st.fin = st.fs /\ st.can = 0 /\ st.wr = 0 /\ C.kind # "swrite") => (st.ws = st.acc)
Grammar == \A i \in 1..Len(st.open) : LET q == SelectSeq(Flat(All), LAMBDA x : x.i = i /\ x.k \in {"n", "e", "c"}) IN \A j \in 1..Len(q) : q[j].k \in {"e", "c"} => j = Len(q)
Emit == ~More => PrintT(ToJson([c |-> ci, h |-> h]))
=============================================================================
