----------------------------- MODULE TraceBlock ----------------------------
(* Validates executions of blocking subscriptions.  Recorded: call/ret of    *)
(* subscribe (s) and dispose (u) of subscription i; cb/cbe of its observer;  *)
(* fin with which subscriptions have returned when nothing moves any more.   *)
(* Config: scripts[i] what source i emits: n v | c | e; skip: an error does not *)
(* wait for the values before it.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs, File
VARIABLES tr, l, st, pos, busy, un
vars == <<tr, l, st, pos, busy, un>>
Traces == ndJsonDeserialize(File)
C == Configs[Traces[tr].c]
E == Traces[tr].ev[l]
N == Len(C.scripts)
I == E.i + 1
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ st = [i \in 1..N |-> "no"] /\ pos = [i \in 1..N |-> 0] /\ busy = [i \in 1..N |-> 0] /\ un = [i \in 1..N |-> 0]
Is(k) == l <= Len(Traces[tr].ev) /\ E.k = k
Adv == l' = l + 1 /\ UNCHANGED tr
\* the last event has been delivered and its callback has returned
Ended(i) == busy[i] = 0 /\ pos[i] = Len(C.scripts[i]) /\ pos[i] > 0 /\ C.scripts[i][pos[i]].x \in {"c", "e"}
Sub == /\ Is("call") /\ E.a = "s" /\ Adv /\ st[I] = "no" /\ st' = [st EXCEPT ![I] = "in"] /\ UNCHANGED <<pos, busy, un>>
Back == /\ Is("ret") /\ E.a = "s" /\ Adv /\ st[I] = "in" /\ (Ended(I) \/ un[I] > 0) /\ st' = [st EXCEPT ![I] = "done"] /\ UNCHANGED <<pos, busy, un>>
Un == /\ Is("call") /\ E.a = "u" /\ Adv /\ un' = [un EXCEPT ![I] = 1] /\ UNCHANGED <<st, pos, busy>>
UnRet == /\ Is("ret") /\ E.a = "u" /\ Adv /\ un[I] = 1 /\ un' = [un EXCEPT ![I] = 2] /\ UNCHANGED <<st, pos, busy>>
Cb == /\ Is("cb") /\ Adv /\ busy[I] = 0 /\ pos[I] < Len(C.scripts[I]) /\ st[I] # "no"
      /\ (st[I] = "in" \/ un[I] > 0)
      /\ \E n \in (pos[I] + 1)..Len(C.scripts[I]) :
           /\ LET x == C.scripts[I][n] IN E.x = x.x /\ E.v = x.v /\ (n > pos[I] + 1 => C.skip /\ x.x = "e")
           /\ pos' = [pos EXCEPT ![I] = n]
      /\ busy' = [busy EXCEPT ![I] = E.t] /\ UNCHANGED <<st, un>>
Cbe == /\ Is("cbe") /\ Adv /\ busy[I] = E.t /\ busy' = [busy EXCEPT ![I] = 0] /\ UNCHANGED <<st, pos, un>>
Fin == /\ Is("fin") /\ Adv
       /\ \A i \in 1..N : /\ busy[i] = 0
                          /\ (un[i] = 0 => pos[i] = Len(C.scripts[i]))
                          /\ E.ret[i] = (IF Ended(i) \/ un[i] > 0 THEN 1 ELSE 0)
       /\ UNCHANGED <<st, pos, busy, un>>
Next == Sub \/ Back \/ Un \/ UnRet \/ Cb \/ Cbe \/ Fin
-----------------------------------------------------------------------------
Accepted == l = Len(Traces[tr].ev) + 1 => PrintT(ToJson([acc |-> tr]))
\* nobody returns early
NotEarly == \A i \in 1..N : st[i] = "done" => Ended(i) \/ un[i] > 0
=============================================================================
