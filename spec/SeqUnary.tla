----------------------------- MODULE SeqUnary -----------------------------
(* One manual source -> pipeline of unary operators -> one observer.        *)
(* Enumerates every bounded history of source events and disposals and      *)
(* prints each maximal one with the observations it must produce.           *)
EXTENDS RxUnary, Json
CONSTANTS Configs,   \* sequence of [st |-> sequence of stage records, re |-> reaction]
          MaxLen,    \* events per history
          After,     \* events still tried after the end
          Vals       \* set of values
VARIABLES ci, ss, done, subd, nout, h
vars == <<ci, ss, done, subd, nout, h>>

Cfg == Configs[ci]
\* re = [k |-> "none"] | [k |-> "dispose", n] | [k |-> "throw", n]: what the observer does
\* when it receives its n-th value
RECURSIVE React(_, _, _, _)
\* walks the outputs, applying the reaction; result [o, t, x, n]
React(o, t, x, n) ==
  IF o = <<>> THEN [o |-> IF t = "" THEN <<>> ELSE <<[k |-> t, v |-> x]>>, d |-> t # "", n |-> n]
  ELSE IF o[1].k # "n" THEN
     LET r == React(Tail(o), t, x, n) IN [r EXCEPT !.o = <<o[1]>> \o @]
  ELSE LET m == n + 1 IN
     IF Cfg.re.k = "dispose" /\ Cfg.re.n = m THEN [o |-> <<o[1]>>, d |-> TRUE, n |-> m]
     ELSE IF Cfg.re.k = "throw" /\ Cfg.re.n = m
          THEN [o |-> <<o[1], [k |-> "e", v |-> "XO"]>>, d |-> TRUE, n |-> m]
     ELSE LET r == React(Tail(o), t, x, m) IN [r EXCEPT !.o = <<o[1]>> \o @]

Obs(o, d, s) == [o |-> o, d |-> d, s |-> s]   \* outputs, ended, source subscribed

End(cs, q) == IF q.d THEN q.o \o Fins(cs) ELSE q.o

Init == /\ ci \in 1..Len(Configs)
        /\ LET r == PipeStart(Configs[ci].st)
               q == React(r.o, r.t, r.x, 0)
           IN /\ ss = r.ss
              /\ done = q.d
              /\ nout = q.n
              /\ subd = ~q.d
              /\ h = << [a |-> "sub", v |-> 0, o |-> End(Configs[ci].st, q), d |-> q.d] >>

Ended == Cardinality({i \in 1..Len(h) : h[i].d})
Step(a) ==
  IF done THEN /\ UNCHANGED <<ss, done, nout>>
               /\ h' = Append(h, [a |-> a.k, v |-> a.v, o |-> <<>>, d |-> TRUE])
  ELSE IF a.k = "d" THEN /\ done' = TRUE
               /\ UNCHANGED <<ss, nout>>
               /\ h' = Append(h, [a |-> "d", v |-> 0, o |-> Fins(Cfg.st), d |-> TRUE])
  ELSE LET r == Feed(Cfg.st, ss, 1, a)
           q == React(r.o, r.t, r.x, nout)
       IN /\ ss' = r.ss
          /\ done' = q.d
          /\ nout' = q.n
          /\ h' = Append(h, [a |-> a.k, v |-> a.v, o |-> End(Cfg.st, q), d |-> q.d])

Acts == {[k |-> "n", v |-> v] : v \in Vals} \cup {[k |-> "e", v |-> "E"], [k |-> "c", v |-> 0], [k |-> "d", v |-> 0]}
More == Len(h) <= MaxLen /\ Ended <= After /\ subd
Next == More /\ \E a \in Acts : Step(a) /\ UNCHANGED <<ci, subd>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
AllOut == LET RECURSIVE F(_)
              F(i) == IF i = 0 THEN <<>> ELSE F(i-1) \o SelectSeq(h[i].o, LAMBDA z : z.k \in {"n", "e", "c"})
          IN F(Len(h))
\* at most one terminal event, and nothing after it
Grammar == \A i \in 1..Len(AllOut) : AllOut[i].k # "n" => i = Len(AllOut)
\* once ended, nothing more
Silence == \A i \in 1..Len(h) : h[i].d => \A j \in (i+1)..Len(h) : h[j].o = <<>> /\ h[j].d
\* a terminal event of the source always reaches the end in the same step
Propagates == \A i \in 2..Len(h) : h[i].a \in {"e", "c"} => h[i].d
\* every finally action runs exactly once: in the step that ends the subscription, after everything delivered
Finals == LET all == LET RECURSIVE F(_)
                        F(i) == IF i = 0 THEN <<>> ELSE F(i-1) \o h[i].o
                    IN F(Len(h))
              fs  == SelectSeq(all, LAMBDA z : z.k = "fin")
          IN IF \E i \in 1..Len(h) : h[i].d THEN fs = Fins(Cfg.st) /\ SubSeq(all, Len(all) - Len(fs) + 1, Len(all)) = fs
             ELSE fs = <<>>
Emit == ~More => PrintT(ToJson([c |-> ci, h |-> h]))
=============================================================================
