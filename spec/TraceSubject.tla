--------------------------- MODULE TraceSubject ---------------------------
(* Validates executions of subjects used from several threads.              *)
(* Recorded: call/ret of n (emit), e, c, s (subscribe i), u (unsubscribe i), *)
(* x (dispose the subject); cb/cbe around every callback; fin.              *)
(* Inferred: when an emission takes its snapshot of the observers, when it  *)
(* gets its turn (deliveries of a serialized subject exclude each other),   *)
(* when an observer joins or leaves.                                        *)
(* Relaxed = TRUE additionally allows the recorded deviation: the stored     *)
(* value (behavior, replay) changes before the emission gets its turn (even  *)
(* of one that comes while the terminal event is being delivered), and       *)
(* a newcomer reads the store before it joins, so that it may miss or        *)
(* repeat a value emitted meanwhile.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs, File, Relaxed
VARIABLES tr, l, term, joined, open, pend, turn, val, buf, busy
vars == <<tr, l, term, joined, open, pend, turn, val, buf, busy>>
Traces == ndJsonDeserialize(File)
C == Configs[Traces[tr].c]
E == Traces[tr].ev[l]
MaxO == 6
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ term = ""
        /\ joined = [i \in 1..C.pre |-> i]
        /\ open = [i \in 1..MaxO |-> IF i <= C.pre THEN 1 ELSE 0]
        /\ pend = {} /\ turn = -1 /\ val = 50 /\ buf = <<>> /\ busy = {}
Is(k) == l <= Len(Traces[tr].ev) /\ E.k = k
More == l <= Len(Traces[tr].ev)
Adv == l' = l + 1 /\ UNCHANGED tr
Stay == UNCHANGED <<tr, l>>
Drop(q, i) == SelectSeq(q, LAMBDA x : x # i)
Upd(p, q) == pend' = (pend \ {p}) \cup {q}

Call == /\ Is("call") /\ Adv /\ ~\E p \in pend : p.t = E.t
        /\ pend' = pend \cup {[t |-> E.t, a |-> E.a, i |-> E.i, v |-> E.v, ph |-> 0, rcp |-> <<>>, cur |-> 0,
                                 ok |-> term = "" \/ \E q \in pend : q.a \in {"e", "c", "x"}]}
        /\ UNCHANGED <<term, joined, open, turn, val, buf, busy>>
Ret == /\ Is("ret") /\ Adv
       /\ \E p \in pend : p.t = E.t /\ p.ph = 9 /\ pend' = pend \ {p}
       /\ UNCHANGED <<term, joined, open, turn, val, buf, busy>>
\* ---- emissions.  phases: 0 called, 1 stored, 2 has its snapshot, 3 delivering, 9 done
\* rcp: sequence of <<observer, event, value>>
Keep(v) == /\ val' = IF C.kind = "beh" THEN v ELSE val
           /\ buf' = IF C.kind = "rep" THEN (IF C.lim > 0 /\ Len(buf) >= C.lim THEN Append(SubSeq(buf, Len(buf) - C.lim + 2, Len(buf)), v) ELSE Append(buf, v)) ELSE buf
Store == /\ More /\ Relaxed /\ C.kind # "pub"
         /\ \E p \in pend : p.a = "n" /\ p.ph = 0 /\ (\/ p.ok /\ Keep(p.v) /\ Upd(p, [p EXCEPT !.ph = 1])
                                                      \/ term # "" /\ UNCHANGED <<val, buf>> /\ Upd(p, [p EXCEPT !.ph = 9]))
         /\ Stay /\ UNCHANGED <<term, joined, open, turn, busy>>
Snap == /\ More
        /\ \E p \in pend : /\ p.a = "n" /\ p.ph = (IF Relaxed /\ C.kind # "pub" THEN 1 ELSE 0)
             /\ IF term # "" THEN Upd(p, [p EXCEPT !.ph = 9]) /\ UNCHANGED <<val, buf, turn>>
                ELSE /\ Upd(p, [p EXCEPT !.ph = IF C.kind = "pub" \/ Relaxed THEN 2 ELSE 3, !.rcp = [j \in 1..Len(joined) |-> <<joined[j], "n", p.v>>]])
                     /\ IF C.kind # "pub" /\ ~Relaxed THEN (C.ser = 1 => turn = -1) /\ turn' = (IF C.ser = 1 THEN p.t ELSE -1) /\ Keep(p.v)
                        ELSE UNCHANGED <<turn, val, buf>>
        /\ Stay /\ UNCHANGED <<term, joined, open, busy>>
Begin == /\ More
         /\ \E p \in pend : /\ p.a = "n" /\ p.ph = 2 /\ (C.ser = 1 => turn = -1)
              /\ Upd(p, [p EXCEPT !.ph = 3]) /\ turn' = IF C.ser = 1 THEN p.t ELSE -1
         /\ Stay /\ UNCHANGED <<term, joined, open, val, buf, busy>>
Final == /\ More
         /\ \E p \in pend : /\ p.a \in {"e", "c"} /\ p.ph = 0 /\ (C.ser = 1 /\ term = "" => turn = -1)
              /\ IF term # "" THEN Upd(p, [p EXCEPT !.ph = 9]) /\ UNCHANGED <<term, joined, turn>>
                 ELSE /\ term' = p.a /\ joined' = <<>>
                      /\ Upd(p, [p EXCEPT !.ph = 3, !.rcp = [j \in 1..Len(joined) |-> <<joined[j], p.a, 0>>]])
                      /\ turn' = IF C.ser = 1 THEN p.t ELSE -1
         /\ Stay /\ UNCHANGED <<open, val, buf, busy>>
\* the observer's own check, then its callback
Decide == /\ More
          /\ \E p \in pend : /\ p.ph = 3 /\ p.cur = 0 /\ p.rcp # <<>>
               \* a newcomer gets what is retained first
               /\ (p.a # "s" => ~\E q \in pend : q.a = "s" /\ q.i = Head(p.rcp)[1] /\ q.rcp # <<>>)
               /\ LET o == Head(p.rcp)[1] IN
                  IF open[o] # 1 THEN Upd(p, [p EXCEPT !.rcp = Tail(@)]) /\ UNCHANGED open
                  ELSE /\ Upd(p, [p EXCEPT !.cur = o])
                       /\ open' = IF Head(p.rcp)[2] = "n" THEN open ELSE [open EXCEPT ![o] = 2]
          /\ Stay /\ UNCHANGED <<term, joined, turn, val, buf, busy>>
Cb == /\ Is("cb") /\ Adv
      /\ \E p \in pend : p.t = E.t /\ p.ph = 3 /\ p.cur = E.o /\ Head(p.rcp)[2] = E.x /\ Head(p.rcp)[3] = E.v
      /\ E.o \notin busy /\ busy' = busy \cup {E.o}
      /\ UNCHANGED <<term, joined, open, pend, turn, val, buf>>
Cbe == /\ Is("cbe") /\ Adv
       /\ E.o \in busy /\ busy' = busy \ {E.o}
       /\ \E p \in pend : p.t = E.t /\ p.cur = E.o /\ Upd(p, [p EXCEPT !.cur = 0, !.rcp = Tail(@)])
       /\ UNCHANGED <<term, joined, open, turn, val, buf>>
\* an emission that has delivered everything; a newcomer that got its values joins
End == /\ More
       /\ \E p \in pend : /\ p.ph = 3 /\ p.rcp = <<>> /\ p.cur = 0
            /\ IF p.a # "s" THEN Upd(p, [p EXCEPT !.ph = 9]) /\ turn' = (IF turn = p.t THEN -1 ELSE turn) /\ UNCHANGED joined
               ELSE IF p.v = 1 \/ open[p.i] # 1 THEN Upd(p, [p EXCEPT !.ph = 9]) /\ UNCHANGED <<turn, joined>>
               ELSE IF term = "" THEN Upd(p, [p EXCEPT !.ph = 9]) /\ joined' = Append(joined, p.i) /\ UNCHANGED turn
               ELSE IF term = "d" THEN Upd(p, [p EXCEPT !.ph = 9]) /\ UNCHANGED <<turn, joined>>
               ELSE Upd(p, [p EXCEPT !.rcp = << <<p.i, term, 0>> >>]) /\ UNCHANGED <<turn, joined>>
       /\ Stay /\ UNCHANGED <<term, open, val, buf, busy>>
\* ---- subscribing.  p.v = 1: has joined already when it reads the store (the two are one step)
\* while the terminal event is being delivered a behavior subject may still hand out its value (followed by that event)
Histories == IF C.kind = "beh" THEN (IF term = "" THEN {<<val>>} \cup (IF \E q \in pend : q.a = "x" THEN {<<>>} ELSE {}) ELSE {<<>>} \cup (IF \E q \in pend : q.a \in {"e", "c", "x"} THEN {<<val>>} ELSE {})) ELSE IF C.kind = "rep" THEN {buf} ELSE {<<>>}
Read == /\ More
        /\ \E p \in pend, hist \in Histories : /\ p.a = "s" /\ p.ph = 0
             /\ IF open[p.i] = 2 THEN Upd(p, [p EXCEPT !.ph = 9]) /\ UNCHANGED <<open, joined>>
                ELSE /\ open' = [open EXCEPT ![p.i] = 1]
                     /\ LET now == ~Relaxed /\ term = "" IN
                        /\ joined' = IF now THEN Append(joined, p.i) ELSE joined
                        /\ Upd(p, [p EXCEPT !.ph = 3, !.v = IF now THEN 1 ELSE 0, !.rcp = [j \in 1..Len(hist) |-> <<p.i, "n", hist[j]>>]])
        /\ Stay /\ UNCHANGED <<term, turn, val, buf, busy>>
Leave == /\ More
         /\ \E p \in pend : /\ p.a = "u" /\ p.ph = 0 /\ Upd(p, [p EXCEPT !.ph = 9])
              /\ open' = [open EXCEPT ![p.i] = 2] /\ joined' = Drop(joined, p.i)
         /\ Stay /\ UNCHANGED <<term, turn, val, buf, busy>>
Kill == /\ More
        /\ \E p \in pend : /\ p.a = "x" /\ p.ph = 0 /\ Upd(p, [p EXCEPT !.ph = 9])
             /\ IF term = "" THEN term' = "d" /\ joined' = <<>> ELSE UNCHANGED <<term, joined>>
        /\ Stay /\ UNCHANGED <<open, turn, val, buf, busy>>
Fin == /\ Is("fin") /\ Adv /\ pend = {} /\ busy = {}
       /\ E.over = (IF term = "" THEN 0 ELSE 1) /\ E.rel = E.over
       /\ \A i \in 1..Len(E.obs) : E.obs[i] = (IF open[i] = 2 THEN 1 ELSE 0)
       /\ C.kind = "beh" => E.val = val
       /\ UNCHANGED <<term, joined, open, pend, turn, val, buf, busy>>
Next == Call \/ Ret \/ Store \/ Snap \/ Begin \/ Final \/ Decide \/ Cb \/ Cbe \/ End \/ Read \/ Leave \/ Kill \/ Fin
-----------------------------------------------------------------------------
Accepted == l = Len(Traces[tr].ev) + 1 => PrintT(ToJson([acc |-> tr]))
\* nobody present once over; the present are open
Present == (term # "" => joined = <<>>) /\ \A j \in 1..Len(joined) : open[joined[j]] = 1
OneTurn == C.ser = 1 => Cardinality({p \in pend : p.ph = 3 /\ p.a # "s"}) <= 1
=============================================================================
