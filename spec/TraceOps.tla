------------------------------ MODULE TraceOps ------------------------------
(* Validates executions recorded from the real operators, with sources       *)
(* emitting from their own threads, against RxMulti.                         *)
(*                                                                           *)
(* Recorded events: call/ret of every source emission and of dispose, cb/cbe *)
(* around every callback of the observer, fin with what each source saw.     *)
(* Not recorded, hence inferred by TLC: at which moment between its call and *)
(* its return an emission takes effect (Lin), and when a timed action fires  *)
(* (Fire).  Outputs of those steps have to be delivered in that order, one   *)
(* callback at a time.                                                       *)
EXTENDS RxMulti, Json
CONSTANTS Configs, File
VARIABLES tr, l, st, pend, out, cb, cut
vars == <<tr, l, st, pend, out, cb, cut>>
Traces == ndJsonDeserialize(File)
C == Configs[Traces[tr].c]
E == Traces[tr].ev[l]
\* outputs with the thread whose call they are part of (-1: of a timed action) and the time they are due
Tagged(q, t, d) == [i \in 1..Len(q) |-> [k |-> q[i].k, v |-> q[i].v, t |-> t, d |-> d]]
\* since when the observer is not busy
Free == LET S == {k \in 1..(l - 1) : Traces[tr].ev[k].k = "cbe"} IN IF S = {} THEN 0 ELSE Traces[tr].ev[CHOOSE k \in S : \A m \in S : m <= k].at
\* what is due is delivered then, or as soon as the observer is free: time does not pass by otherwise
Prompt == Timed(C) /\ C.op \notin {"throttle", "subscribe_on"}
Clean(s) == [s EXCEPT !.outs = <<>>]

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ LET s == Start(C) IN st = Clean(s) /\ out = Tagged(s.outs, 0, 0)
        /\ pend = {} /\ cb = -1 /\ cut = FALSE
Is(k) == l <= Len(Traces[tr].ev) /\ E.k = k
Adv == l' = l + 1 /\ UNCHANGED tr

Call == /\ Is("call") /\ Adv
        /\ ~\E p \in pend : p.t = E.t
        /\ pend' = pend \cup {[t |-> E.t, a |-> E.a, s |-> E.s, i |-> E.i, v |-> E.v, lin |-> FALSE, at |-> E.at]}
        /\ UNCHANGED <<st, out, cb, cut>>
\* does an emission have to be delivered before the emitting call returns?
Direct == ~Timed(C)
\* while the subscribing call or another emission is still running, a completion may be left to that thread
Subscribing == \E k \in l..Len(Traces[tr].ev) : Traces[tr].ev[k].k = "subd"
Ret == /\ Is("ret") /\ Adv
       /\ \E p \in pend : /\ p.t = E.t /\ p.lin
                          /\ pend' = pend \ {p}
       /\ Direct => cut \/ \A i \in 1..Len(out) : out[i].t # E.t \/ (out[i].k = "c" /\ (Subscribing \/ \E p \in pend : p.t # E.t /\ p.a # "d"))
       /\ UNCHANGED <<st, out, cb, cut>>
Cb == /\ Is("cb") /\ Adv
      /\ cb = -1
      /\ out # <<>> /\ Head(out).k = E.x /\ (E.x # "c" => Head(out).v = E.v)
      /\ Prompt => E.at = (IF Head(out).d > Free THEN Head(out).d ELSE Free)
      /\ out' = Tail(out)
      /\ cb' = E.t
      /\ UNCHANGED <<st, pend, cut>>
Cbe == /\ Is("cbe") /\ Adv /\ cb = E.t /\ cb' = -1
       /\ UNCHANGED <<st, pend, out, cut>>
HasFin == C.op = "finally" \/ "fin" \in DOMAIN C
\* the action of finally: once, after everything was delivered, unless disposed
Fint == /\ Is("fint") /\ Adv /\ HasFin
        /\ \A k \in 1..(l - 1) : Traces[tr].ev[k].k # "fint"
        /\ st.done
        /\ cut \/ (out = <<>> /\ cb = -1)
        /\ UNCHANGED <<st, pend, out, cb, cut>>
Subd == Is("subd") /\ Adv /\ UNCHANGED <<st, pend, out, cb, cut>>

\* index of the i-th subscription of source s in the specification's state (0: there is none)
Find(s, i) == LET S == {j \in 1..Len(st.subs) : st.subs[j].src = s /\ Cardinality({k \in 1..j : st.subs[k].src = s}) = i}
              IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE
More == l <= Len(Traces[tr].ev)
Lin == /\ More
       /\ \E p \in pend :
            /\ ~p.lin
            /\ LET j == Find(p.s, p.i) IN
               /\ p.a # "d" => (j # 0 \/ st.done)
               /\ \E now \in (IF Timed(C) THEN {p.at, E.at} ELSE {0}) :
                  LET s0 == [st EXCEPT !.now = now]
                      s1 == IF p.a = "d" THEN Do(C, s0, [k |-> "d", i |-> 0, v |-> 0])
                            ELSE IF j = 0 THEN s0 ELSE Do(C, s0, [k |-> p.a, i |-> j, v |-> p.v])
                  IN /\ st' = Clean(s1)
                     /\ out' = out \o Tagged(s1.outs, p.t, now)
            /\ pend' = (pend \ {p}) \cup {[p EXCEPT !.lin = TRUE]}
            /\ cut' = (cut \/ p.a = "d")
       /\ UNCHANGED <<tr, l, cb>>
Fire == /\ More /\ Timed(C)
        /\ DueAt(C, st) # -1 /\ DueAt(C, st) <= E.at
        /\ LET s1 == Due1(C, Clean([st EXCEPT !.now = E.at])) IN st' = Clean(s1) /\ out' = out \o Tagged(s1.outs, -1, DueAt(C, st))
        /\ UNCHANGED <<tr, l, pend, cb, cut>>
\* what a disposal finds undelivered may be dropped
Drop == More /\ cut /\ (\E i \in 1..Len(out) : out' = SubSeq(out, 1, i - 1) \o SubSeq(out, i + 1, Len(out))) /\ UNCHANGED <<tr, l, st, pend, cb, cut>>
Lax(j) == ~st.done /\ C.op \in {"oern", "retry_when"} /\ st.subs[j].role = "src"
Fin == /\ Is("fin") /\ Adv
       /\ HasFin =>
            LET ran == \E k \in 1..(l - 1) : Traces[tr].ev[k].k = "fint"
            IN /\ ran => st.done
               /\ st.done /\ (\E x \in 1..Len(E.subs) : E.subs[x][5] = 0) => ran
       /\ pend = {} /\ cb = -1 /\ (cut \/ out = <<>>)
       /\ Timed(C) /\ C.op # "interval" => DueAt(C, st) = -1 \/ DueAt(C, st) > E.at
       /\ \A x \in 1..Len(E.subs) :
            LET r == E.subs[x] IN
            IF r[5] = 1 THEN r[3] = 1
            ELSE LET j == Find(r[1], r[2]) IN
                 IF j = 0 THEN st.done /\ r[3] = 1 /\ r[4] = 1
                 ELSE IF st.subs[j].live THEN r[3] = 0 /\ r[4] = 0
                 ELSE Lax(j) \/ (r[3] = 1 /\ r[4] = 1)
       /\ \A j \in 1..Len(st.subs) : st.subs[j].live =>
            \E x \in 1..Len(E.subs) : E.subs[x][5] = 0 /\ Find(E.subs[x][1], E.subs[x][2]) = j
       /\ UNCHANGED <<st, pend, out, cb, cut>>
Next == Call \/ Ret \/ Cb \/ Cbe \/ Fint \/ Subd \/ Lin \/ Fire \/ Drop \/ Fin
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Accepted == l = Len(Traces[tr].ev) + 1 => PrintT(ToJson([acc |-> tr]))
\* the specification's own guarantees, on every state of every trace
Released == st.done => \A i \in 1..Len(st.subs) : ~st.subs[i].live
=============================================================================
