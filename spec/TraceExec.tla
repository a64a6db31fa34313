----------------------------- MODULE TraceExec -----------------------------
(* Validates executions of schedulers which hand their tasks to an execution *)
(* context run by threads of the user (asio strand), in virtual time (ms).   *)
(* Recorded: call/ret of schedule (task id, worker w or -1 for               *)
(* current_thread, delay d, imm 1: no time point given); r/re begin and end  *)
(* of a task's execution with what it asks for (n nothing, a again after d); *)
(* dis: the task's handler is disposed; fin.                                 *)
(* A worker's tasks run one at a time, on threads of the context only: those *)
(* without a delay in the order of arrival, the others not before they are   *)
(* due.  current_thread inside of a task belongs to the task's worker and    *)
(* begins when the task has ended.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs, File
VARIABLES tr, l, clock, imm, tm, running, pend, held, free, dis
vars == <<tr, l, clock, imm, tm, running, pend, held, free, dis>>
Traces == ndJsonDeserialize(File)
C == Configs[Traces[tr].c]
E == Traces[tr].ev[l]
W == 0..3
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ clock = 0 /\ imm = [w \in W |-> <<>>] /\ tm = {} /\ running = {} /\ pend = {} /\ held = {} /\ free = 0 /\ dis = {}
More == l <= Len(Traces[tr].ev)
Is(k) == More /\ E.k = k /\ E.now = clock
Adv == l' = l + 1 /\ UNCHANGED <<tr, clock>>
Stay == More /\ UNCHANGED <<tr, l, clock>>
Max(a, b) == IF a > b THEN a ELSE b
Busy(w) == \E r \in running : r.w = w
\* a task that could be running does not wait for long while the context's threads have nothing else to do
Slack == 2
Ready(x) == Max(Max(x.tp, x.pt), free)
Tick == /\ More /\ E.now > clock /\ clock' = E.now
        /\ running # {} \/ (/\ \A x \in tm : x.id \in dis \/ E.now <= Ready(x) + Slack
                            /\ \A w \in W : \A i \in 1..Len(imm[w]) : imm[w][i].id \in dis \/ E.now <= Ready(imm[w][i]) + Slack)
        /\ UNCHANGED <<tr, l, imm, tm, running, pend, held, free, dis>>
Mine(t) == {r \in running : r.t = t}
Call == /\ Is("call") /\ Adv
        /\ E.w = -1 => Mine(E.t) # {}
        /\ pend' = pend \cup {[id |-> E.id, t |-> E.t, w |-> E.w, d |-> E.d, imm |-> E.imm, at |-> E.now, ph |-> 0]}
        /\ UNCHANGED <<imm, tm, running, held, free, dis>>
Put == /\ Stay
       /\ \E p \in pend : /\ p.ph = 0 /\ p.at = clock /\ pend' = (pend \ {p}) \cup {[p EXCEPT !.ph = 1]}
            /\ LET x == [id |-> p.id, w |-> p.w, tp |-> p.at + p.d, pt |-> clock]
               IN \/ p.id \in dis /\ UNCHANGED <<imm, tm, held>>
                  \/ p.w = -1 /\ (\E r \in Mine(p.t) : held' = held \cup {[x EXCEPT !.w = r.w]}) /\ UNCHANGED <<imm, tm>>
                  \/ p.w # -1 /\ p.imm = 1 /\ imm' = [imm EXCEPT ![p.w] = Append(@, x)] /\ UNCHANGED <<tm, held>>
                  \/ p.w # -1 /\ p.imm = 0 /\ tm' = tm \cup {x} /\ UNCHANGED <<imm, held>>
       /\ UNCHANGED <<running, free, dis>>
Ret == /\ Is("ret") /\ Adv /\ \E p \in pend : p.id = E.id /\ p.t = E.t /\ p.ph = 1 /\ pend' = pend \ {p}
       /\ UNCHANGED <<imm, tm, running, held, free, dis>>
Take(x) == running' = running \cup {[w |-> x.w, id |-> x.id, tp |-> x.tp, t |-> -1, ph |-> "p"]}
Pick == /\ Stay
        /\ \/ \E w \in W : imm[w] # <<>> /\ ~Busy(w) /\ Head(imm[w]).id \notin dis /\ Take(Head(imm[w])) /\ imm' = [imm EXCEPT ![w] = Tail(@)] /\ UNCHANGED tm
           \/ \E x \in tm : /\ ~Busy(x.w) /\ x.id \notin dis /\ x.tp <= clock
                            /\ C.threads = 1 => \A y \in tm : y.w = x.w /\ y.pt < x.pt /\ y.id \notin dis => y.tp >= x.tp \/ y.tp > clock
                            /\ Take(x) /\ tm' = tm \ {x} /\ UNCHANGED imm
        /\ UNCHANGED <<pend, held, free, dis>>
Drop == /\ Stay
        /\ \/ \E w \in W : imm[w] # <<>> /\ Head(imm[w]).id \in dis /\ imm' = [imm EXCEPT ![w] = Tail(@)] /\ UNCHANGED <<tm, running, held>>
           \/ \E x \in tm : x.id \in dis /\ tm' = tm \ {x} /\ UNCHANGED <<imm, running, held>>
           \/ \E x \in held : x.id \in dis /\ held' = held \ {x} /\ UNCHANGED <<imm, tm, running>>
           \/ \E r \in running : r.ph = "p" /\ r.id \in dis /\ running' = running \ {r} /\ UNCHANGED <<imm, tm, held>>
        /\ UNCHANGED <<pend, free, dis>>
Run == /\ Is("r") /\ Adv /\ E.ctx = 1 /\ Mine(E.t) = {}
       /\ \E r \in running : r.id = E.id /\ r.ph = "p" /\ running' = (running \ {r}) \cup {[r EXCEPT !.ph = "r", !.t = E.t]}
       /\ UNCHANGED <<imm, tm, pend, held, free, dis>>
NextTp(r) == LET k == C.kinds[((r.id - 1) % Len(C.kinds)) + 1] IN IF k = "this" THEN r.tp + E.d ELSE E.now + E.d
\* a task asking to be run again "after this time point" gets at least that; it may count from its end
RunEnd == /\ Is("re") /\ Adv
          /\ \E r \in running :
               /\ r.id = E.id /\ r.ph = "r" /\ r.t = E.t
               /\ running' = (running \ {r}) \cup {[r EXCEPT !.ph = "a"]}
               /\ tm' = IF E.res = "a" THEN tm \cup {[id |-> r.id, w |-> r.w, tp |-> NextTp(r), pt |-> E.now + E.d]} ELSE tm
               /\ free' = clock
          /\ UNCHANGED <<imm, pend, held, dis>>
\* what was given to current_thread meanwhile follows
After == /\ Stay
         /\ \E r \in running : /\ r.ph = "a" /\ running' = running \ {r} /\ ~\E p \in pend : p.t = r.t /\ p.w = -1
              /\ LET mine == {x \in held : x.w = r.w} IN held' = held \ mine /\ tm' = tm \cup {[x EXCEPT !.pt = clock] : x \in mine}
         /\ UNCHANGED <<imm, pend, free, dis>>
Dis == /\ Is("dis") /\ Adv /\ dis' = dis \cup {E.id} /\ UNCHANGED <<imm, tm, running, pend, held, free>>
Fin == /\ Is("fin") /\ Adv /\ running = {} /\ pend = {} /\ held = {} /\ tm = {} /\ \A w \in W : imm[w] = <<>>
       /\ E.live = 0
       /\ UNCHANGED <<imm, tm, running, pend, held, free, dis>>
Next == Tick \/ Call \/ Put \/ Ret \/ Pick \/ Drop \/ Run \/ RunEnd \/ After \/ Dis \/ Fin
-----------------------------------------------------------------------------
Accepted == l = Len(Traces[tr].ev) + 1 => PrintT(ToJson([acc |-> tr]))
OneAtATime == \A w \in W : Cardinality({r \in running : r.w = w}) <= 1
=============================================================================
