------------------------------ MODULE RxUnary ------------------------------
(* Unary operators of ReactivePlusPlus as pure transducers.                 *)
(* Event      [k |-> "n"|"e"|"c", v |-> value or error name]                *)
(* Transducer U(c, s, e) = [s |-> new state, o |-> outputs, t |-> terminal] *)
(*   outputs: sequence of [k |-> "n"|"log", v |-> ...]; "log" = side effect *)
(*   terminal: "" or "c" or "e" with x = error name                         *)
(* c is a record [op, p, thr]: parameters p (sequence of Int), thr = value  *)
(* (or 0-based call for which) the user callback throws, -1 = never.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

N(v) == [k |-> "n", v |-> v]
Log(w, v) == [k |-> w, v |-> v]
Go(s, o) == [s |-> s, o |-> o, t |-> "", x |-> ""]
Done(s, o) == [s |-> s, o |-> o, t |-> "c", x |-> ""]
Fail(s, o, e) == [s |-> s, o |-> o, t |-> "e", x |-> e]
Pass(s, e) == IF e.k = "e" THEN Fail(s, <<>>, e.v) ELSE Done(s, <<>>)

Odd(v) == v % 2 = 1
NotMul3(v) == v % 3 # 0
Acc(a, v) == (a * 3 + v) % 50
SeqSum(q) == LET RECURSIVE F(_)
                 F(i) == IF i = 0 THEN 0 ELSE F(i-1) + q[i]
             IN F(Len(q)) % 50

\* initial state and outputs emitted at subscription, before anything upstream
UInit(c) ==
  CASE c.op \in {"take", "skip", "element_at"} -> c.p[1]
    [] c.op \in {"scan", "reduce"}             -> c.p[1]
    [] c.op \in {"scan_ns", "reduce_ns", "last", "duc", "duc_par"} -> <<>>
    [] c.op = "distinct"                       -> {}
    [] c.op \in {"buffer", "bufsum", "take_last"} -> <<>>
    [] OTHER                                   -> 0
UStart(c) ==
  CASE c.op = "scan"       -> << c.p[1] >>
    [] c.op = "start_with" -> c.p
    [] OTHER               -> << >>

Throws(c, v) == c.thr # -1 /\ v = c.thr

U(c, s, e) ==
  CASE c.op = "id" -> IF e.k = "n" THEN Go(s, <<N(e.v)>>) ELSE Pass(s, e)
    [] c.op = "map" ->
         IF e.k = "n" THEN (IF Throws(c, e.v) THEN Fail(s, <<>>, "X") ELSE Go(s, <<N(e.v + 10)>>))
         ELSE Pass(s, e)
    [] c.op = "filter" ->
         IF e.k = "n" THEN (IF Throws(c, e.v) THEN Fail(s, <<>>, "X")
                            ELSE Go(s, IF Odd(e.v) THEN <<N(e.v)>> ELSE <<>>))
         ELSE Pass(s, e)
    [] c.op = "take" ->
         IF e.k = "n" THEN
            LET left == IF s > 0 THEN s - 1 ELSE 0
                out  == IF s > 0 THEN <<N(e.v)>> ELSE <<>>
            IN IF left = 0 THEN Done(left, out) ELSE Go(left, out)
         ELSE Pass(s, e)
    [] c.op = "skip" ->
         IF e.k = "n" THEN (IF s = 0 THEN Go(0, <<N(e.v)>>) ELSE Go(s - 1, <<>>))
         ELSE Pass(s, e)
    [] c.op = "take_while" ->
         IF e.k = "n" THEN (IF Throws(c, e.v) THEN Fail(s, <<>>, "X")
                            ELSE IF NotMul3(e.v) THEN Go(s, <<N(e.v)>>) ELSE Done(s, <<>>))
         ELSE Pass(s, e)
    [] c.op = "first" ->
         IF e.k = "n" THEN Done(s, <<N(e.v)>>)
         ELSE IF e.k = "c" THEN Fail(s, <<>>, "NEE") ELSE Pass(s, e)
    [] c.op = "element_at" ->
         IF e.k = "n" THEN (IF s = 0 THEN Done(0, <<N(e.v)>>) ELSE Go(s - 1, <<>>))
         ELSE IF e.k = "c" THEN Fail(s, <<>>, "OOR") ELSE Pass(s, e)
    [] c.op = "last" ->
         IF e.k = "n" THEN Go(<<e.v>>, <<>>)
         ELSE IF e.k = "c" THEN (IF s = <<>> THEN Fail(s, <<>>, "NEE") ELSE Done(s, <<N(s[1])>>))
         ELSE Pass(s, e)
    [] c.op = "distinct" ->
         IF e.k = "n" THEN (IF e.v \in s THEN Go(s, <<>>) ELSE Go(s \cup {e.v}, <<N(e.v)>>))
         ELSE Pass(s, e)
    [] c.op = "duc" ->
         IF e.k = "n" THEN (IF s # <<>> /\ s[1] = e.v THEN Go(s, <<>>) ELSE Go(<<e.v>>, <<N(e.v)>>))
         ELSE Pass(s, e)
    [] c.op = "duc_par" ->   \* comparator: same parity; throws when the new value is thr
         IF e.k = "n" THEN
            (IF s # <<>> /\ Throws(c, e.v) THEN Fail(s, <<>>, "X")
             ELSE IF s # <<>> /\ Odd(s[1]) = Odd(e.v) THEN Go(s, <<>>) ELSE Go(<<e.v>>, <<N(e.v)>>))
         ELSE Pass(s, e)
    [] c.op = "tap" ->
         IF e.k = "n" THEN (IF Throws(c, e.v) THEN Fail(s, <<Log("tn", e.v), Log("te", "X")>>, "X")
                            ELSE Go(s, <<Log("tn", e.v), N(e.v)>>))
         ELSE IF e.k = "e" THEN Fail(s, <<Log("te", e.v)>>, e.v)
         ELSE Done(s, <<Log("tc", "")>>)
    [] c.op = "tapm" -> \* callbacks for some of the events only: p[1] = 1 values + 2 errors + 4 completion
         LET has(b) == (c.p[1] \div b) % 2 = 1
         IN CASE e.k = "n" -> Go(s, (IF has(1) THEN <<Log("tn", e.v)>> ELSE <<>>) \o <<N(e.v)>>)
              [] e.k = "e" -> Fail(s, IF has(2) THEN <<Log("te", e.v)>> ELSE <<>>, e.v)
              [] OTHER -> Done(s, IF has(4) THEN <<Log("tc", "")>> ELSE <<>>)
    [] c.op = "finally" -> IF e.k = "n" THEN Go(s, <<N(e.v)>>) ELSE Pass(s, e)   \* its action: see Fins
    [] c.op = "scan" ->
         IF e.k = "n" THEN (IF Throws(c, e.v) THEN Fail(s, <<>>, "X")
                            ELSE LET a == Acc(s, e.v) IN Go(a, <<N(a)>>))
         ELSE Pass(s, e)
    [] c.op = "scan_ns" ->
         IF e.k = "n" THEN
            IF s = <<>> THEN Go(<<e.v>>, <<N(e.v)>>)
            ELSE IF Throws(c, e.v) THEN Fail(s, <<>>, "X")
            ELSE LET a == Acc(s[1], e.v) IN Go(<<a>>, <<N(a)>>)
         ELSE Pass(s, e)
    [] c.op = "reduce" ->
         IF e.k = "n" THEN (IF Throws(c, e.v) THEN Fail(s, <<>>, "X") ELSE Go(Acc(s, e.v), <<>>))
         ELSE IF e.k = "c" THEN Done(s, <<N(s)>>) ELSE Pass(s, e)
    [] c.op = "reduce_ns" ->
         IF e.k = "n" THEN
            IF s = <<>> THEN Go(<<e.v>>, <<>>)
            ELSE IF Throws(c, e.v) THEN Fail(s, <<>>, "X")
            ELSE Go(<<Acc(s[1], e.v)>>, <<>>)
         ELSE IF e.k = "c" THEN Done(s, IF s = <<>> THEN <<>> ELSE <<N(s[1])>>)
         ELSE Pass(s, e)
    [] c.op \in {"buffer", "bufsum"} ->
         LET cap == IF c.p[1] < 1 THEN 1 ELSE c.p[1]
             out(q) == IF c.op = "buffer" THEN N(q) ELSE N(SeqSum(q))
         IN IF e.k = "n" THEN
               LET q == Append(s, e.v)
               IN IF Len(q) = cap THEN Go(<<>>, <<out(q)>>) ELSE Go(q, <<>>)
            ELSE IF e.k = "c" THEN Done(<<>>, IF s = <<>> THEN <<>> ELSE <<out(s)>>)
            ELSE Pass(s, e)
    [] c.op = "take_last" ->
         IF e.k = "n" THEN
            LET q == Append(s, e.v)
            IN Go(IF Len(q) > c.p[1] THEN SubSeq(q, Len(q) - c.p[1] + 1, Len(q)) ELSE q, <<>>)
         ELSE IF e.k = "c" THEN Done(<<>>, [i \in 1..Len(s) |-> N(s[i])])
         ELSE Pass(s, e)
    [] c.op = "start_with" -> IF e.k = "n" THEN Go(s, <<N(e.v)>>) ELSE Pass(s, e)

--------------------------------------------------------------------------------
(* Composition: a pipeline is a sequence of stages; its state is the sequence   *)
(* of stage states.  Result of feeding: [ss, o, t, x] with o the observable     *)
(* outputs at the end of the pipeline (and logs), t the terminal delivered.     *)
RECURSIVE Feed(_, _, _, _), FeedAll(_, _, _, _, _)

\* feed event e into stage i
Feed(cs, ss, i, e) ==
  IF i > Len(cs) THEN
     [ss |-> ss, o |-> IF e.k = "n" THEN <<N(e.v)>> ELSE <<>>,
      t |-> IF e.k = "n" THEN "" ELSE e.k, x |-> IF e.k = "e" THEN e.v ELSE ""]
  ELSE LET r == U(cs[i], ss[i], e)
           q == r.o \o (CASE r.t = "e" -> << [k |-> "e", v |-> r.x] >>
                          [] r.t = "c" -> << [k |-> "c", v |-> 0] >>
                          [] OTHER -> << >>)
       IN FeedAll(cs, [ss EXCEPT ![i] = r.s], i + 1, q, 1)

\* feed the j-th.. events of q (some of which may be logs) into stage i
FeedAll(cs, ss, i, q, j) ==
  IF j > Len(q) THEN [ss |-> ss, o |-> <<>>, t |-> "", x |-> ""]
  ELSE IF q[j].k \notin {"n", "e", "c"} THEN
     LET rest == FeedAll(cs, ss, i, q, j + 1)
     IN [rest EXCEPT !.o = <<q[j]>> \o @]
  ELSE LET r == Feed(cs, ss, i, q[j])
       IN IF r.t # "" THEN r      \* the end has terminated: the rest is dropped
          ELSE LET rest == FeedAll(cs, r.ss, i, q, j + 1)
               IN [rest EXCEPT !.o = r.o \o @]

\* subscription: from the last stage up to the first
RECURSIVE StartFrom(_, _, _)
StartFrom(cs, ss, i) ==
  IF i = 0 THEN [ss |-> ss, o |-> <<>>, t |-> "", x |-> ""]
  ELSE LET us == UStart(cs[i])
           q == [j \in 1..Len(us) |-> N(us[j])]
           r == FeedAll(cs, ss, i + 1, q, 1)
       IN IF r.t # "" THEN r
          ELSE LET rest == StartFrom(cs, r.ss, i - 1)
               IN [rest EXCEPT !.o = r.o \o @]
\* the actions of the finally stages, run when the subscription has ended (any order)
Fins(cs) == LET RECURSIVE F(_)
                F(i) == IF i = 0 THEN <<>> ELSE F(i - 1) \o (IF cs[i].op = "finally" THEN <<Log("fin", cs[i].p[1])>> ELSE <<>>)
            IN F(Len(cs))
PipeStart(cs) == StartFrom(cs, [i \in 1..Len(cs) |-> UInit(cs[i])], Len(cs))
================================================================================
