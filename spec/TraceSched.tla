----------------------------- MODULE TraceSched ----------------------------
(* Validates executions of schedulers used from several threads, in virtual  *)
(* time (ms).  Recorded: call/ret of schedule (task id, worker w or -1 for   *)
(* current_thread, delay d); r/re begin and end of a task's execution with   *)
(* what it asks for (n nothing, a again after d, x it threw); x its handler  *)
(* is told of the error; dis the task's handler is disposed; g/gr a dispatch *)
(* of a run_loop (b 1: blocking); fin.                                       *)
(* Inferred: when a task joins its queue and when it is taken from it, and   *)
(* which queue (= thread) a pool gives to a worker.                          *)
(* Queue q < 100 is a worker thread's or the run_loop's, 100+t belongs to    *)
(* current_thread on thread t and is worked off inside of the outermost call.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs, File
VARIABLES tr, l, clock, qs, running, pend, gs, wq, th, free, dis, users
vars == <<tr, l, clock, qs, running, pend, gs, wq, th, free, dis, users>>
Traces == ndJsonDeserialize(File)
C == Configs[Traces[tr].c]
E == Traces[tr].ev[l]
QQ == (0..7) \cup (100..107)
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ clock = 0 /\ qs = [q \in QQ |-> <<>>] /\ running = {} /\ pend = {} /\ gs = {} /\ wq = [w \in 0..7 |-> -1]
        /\ th = [q \in 0..7 |-> -1] /\ free = [q \in QQ |-> 0] /\ dis = {} /\ users = {}
More == l <= Len(Traces[tr].ev)
Is(k) == More /\ E.k = k /\ E.now = clock
Adv == l' = l + 1 /\ UNCHANGED <<tr, clock>>
Stay == More /\ UNCHANGED <<tr, l, clock>>
Max(a, b) == IF a > b THEN a ELSE b
Max3(a, b, c) == Max(a, Max(b, c))
\* time passes up to the next event
Tick == /\ More /\ E.now > clock /\ clock' = E.now /\ UNCHANGED <<tr, l, qs, running, pend, gs, wq, th, free, dis, users>>
\* due time first, then the order of arrival
Ins(q, x) == LET n == Cardinality({j \in 1..Len(q) : q[j].tp <= x.tp}) IN SubSeq(q, 1, n) \o <<x>> \o SubSeq(q, n + 1, Len(q))
Loop == C.kind = "loop"
Call == /\ Is("call") /\ Adv
        /\ pend' = pend \cup {[id |-> E.id, t |-> E.t, w |-> E.w, d |-> E.d, at |-> E.now, ph |-> 0, out |-> -1]}
        /\ users' = IF \E q \in 0..7 : th[q] = E.t THEN users ELSE users \cup {E.t}
        /\ UNCHANGED <<qs, running, gs, wq, th, free, dis>>
Used == {wq[w] : w \in 0..7} \ {-1}
Fresh == LET S == (0..(C.n - 1)) \ Used IN IF S = {} THEN {} ELSE {CHOOSE x \in S : \A y \in S : x <= y}
QFor(w) == IF C.kind = "loop" THEN {0} ELSE IF wq[w] # -1 THEN {wq[w]} ELSE IF C.kind = "new" THEN {w} ELSE Used \cup Fresh
Own(t) == LET S == {q \in 0..7 : th[q] = t} IN IF S = {} THEN 100 + t ELSE CHOOSE q \in S : TRUE
Put == /\ Stay
       /\ \E p \in pend : /\ p.ph = 0 /\ p.at = clock
            /\ \E q \in IF p.w = -1 THEN {Own(p.t)} ELSE QFor(p.w) :
                 /\ wq' = IF p.w = -1 THEN wq ELSE [wq EXCEPT ![p.w] = q]
                 /\ \/ qs' = [qs EXCEPT ![q] = Ins(@, [id |-> p.id, tp |-> p.at + p.d, pt |-> clock])]
                    \/ p.id \in dis /\ UNCHANGED qs
                 /\ pend' = (pend \ {p}) \cup {[p EXCEPT !.ph = 1, !.out = IF q >= 100 /\ ~\E r \in running : r.q = q THEN q ELSE -1]}
       /\ UNCHANGED <<running, gs, th, free, dis, users>>
Ret == /\ Is("ret") /\ Adv
       /\ \E p \in pend : /\ p.id = E.id /\ p.t = E.t /\ p.ph = 1 /\ pend' = pend \ {p}
                          /\ p.out # -1 => qs[p.out] = <<>> /\ ~\E r \in running : r.q = p.out
       /\ UNCHANGED <<qs, running, gs, wq, th, free, dis, users>>
\* ---- from the queue to the thread
Take(q, t) == LET x == Head(qs[q]) IN running' = running \cup {[q |-> q, id |-> x.id, tp |-> x.tp, t |-> t, ph |-> "p"]} /\ qs' = [qs EXCEPT ![q] = Tail(@)]
Serves(q) == IF q < 100 THEN th[q] ELSE q - 100
\* at once: when it is due, it was there and its thread was free
Pick == /\ Stay
        /\ \E q \in QQ : /\ qs[q] # <<>> /\ ~(Loop /\ q = 0) /\ ~\E r \in running : r.q = q
             /\ LET x == Head(qs[q]) IN x.id \notin dis /\ clock = Max3(x.tp, x.pt, free[q])
             /\ Take(q, Serves(q))
        /\ UNCHANGED <<pend, gs, wq, th, free, dis, users>>
Dispatch == /\ Stay /\ Loop /\ qs[0] # <<>>
            /\ \E g \in gs : /\ g.ph = 0
                 /\ LET x == Head(qs[0]) IN
                    \/ x.id \notin dis /\ (IF g.b = 1 THEN clock = Max3(x.tp, x.pt, g.at) ELSE clock >= x.tp) /\ Take(0, g.t) /\ gs' = (gs \ {g}) \cup {[g EXCEPT !.ph = 1]}
                    \/ x.id \in dis /\ qs' = [qs EXCEPT ![0] = Tail(@)] /\ gs' = (gs \ {g}) \cup {[g EXCEPT !.ph = 1]} /\ UNCHANGED running
            /\ UNCHANGED <<pend, wq, th, free, dis, users>>
Idle == /\ Stay /\ Loop /\ (IF qs[0] = <<>> THEN TRUE ELSE Head(qs[0]).tp > clock)
        /\ \E g \in gs : g.ph = 0 /\ g.b = 0 /\ gs' = (gs \ {g}) \cup {[g EXCEPT !.ph = 1]}
        /\ UNCHANGED <<qs, running, pend, wq, th, free, dis, users>>
\* a disposed task goes away
Drop == /\ Stay
        /\ \/ \E q \in QQ : qs[q] # <<>> /\ Head(qs[q]).id \in dis /\ ~(Loop /\ q = 0) /\ qs' = [qs EXCEPT ![q] = Tail(@)] /\ UNCHANGED running
           \/ \E r \in running : r.ph = "p" /\ r.id \in dis /\ running' = running \ {r} /\ UNCHANGED qs
        /\ UNCHANGED <<pend, gs, wq, th, free, dis, users>>
Run == /\ Is("r") /\ Adv
       /\ \E r \in running :
            /\ r.id = E.id /\ r.ph = "p" /\ r.t \in {-1, E.t}
            /\ r.t = -1 => E.t \notin users /\ E.t # 0 /\ \A q \in 0..7 : th[q] # E.t
            /\ th' = IF r.t = -1 THEN [th EXCEPT ![r.q] = E.t] ELSE th
            /\ running' = (running \ {r}) \cup {[r EXCEPT !.ph = "r", !.t = E.t]}
       /\ UNCHANGED <<qs, pend, gs, wq, free, dis, users>>
NextTp(r) == LET k == C.kinds[((r.id - 1) % Len(C.kinds)) + 1] IN IF k = "this" THEN r.tp + E.d ELSE E.now + E.d
RunEnd == /\ Is("re") /\ Adv
          /\ \E r \in running :
               /\ r.id = E.id /\ r.ph = "r" /\ r.t = E.t
               /\ running' = (running \ {r}) \cup (IF E.res = "n" THEN {} ELSE IF E.res = "x" THEN {[r EXCEPT !.ph = "x"]} ELSE {[r EXCEPT !.ph = "a", !.tp = NextTp(r)]})
               /\ free' = [free EXCEPT ![r.q] = clock]
          /\ UNCHANGED <<qs, pend, gs, wq, th, dis, users>>
Again == /\ Stay
         /\ \E r \in running : /\ r.ph = "a" /\ running' = running \ {r}
              /\ \/ qs' = [qs EXCEPT ![r.q] = Ins(@, [id |-> r.id, tp |-> r.tp, pt |-> clock])]
                 \/ r.id \in dis /\ UNCHANGED qs
         /\ UNCHANGED <<pend, gs, wq, th, free, dis, users>>
Err == /\ Is("x") /\ Adv /\ \E r \in running : r.id = E.id /\ r.ph = "x" /\ r.t = E.t /\ running' = running \ {r}
       /\ UNCHANGED <<qs, pend, gs, wq, th, free, dis, users>>
Dis == /\ Is("dis") /\ Adv /\ dis' = dis \cup {E.id} /\ UNCHANGED <<qs, running, pend, gs, wq, th, free, users>>
Go == /\ Is("g") /\ Adv /\ gs' = gs \cup {[t |-> E.t, b |-> E.b, at |-> E.now, ph |-> 0]} /\ UNCHANGED <<qs, running, pend, wq, th, free, dis, users>>
GoRet == /\ Is("gr") /\ Adv /\ \E g \in gs : g.t = E.t /\ g.ph = 1 /\ gs' = gs \ {g}
         /\ ~\E r \in running : r.q = 0 /\ r.t = E.t
         /\ UNCHANGED <<qs, running, pend, wq, th, free, dis, users>>
Fin == /\ Is("fin") /\ Adv /\ running = {} /\ pend = {}
       /\ IF Loop THEN /\ \A g \in gs : g.ph = 0 /\ g.b = 1
                       /\ gs # {} => qs[0] = <<>>
                       /\ E.blocked = Cardinality(gs)
          ELSE /\ \A q \in QQ : qs[q] = <<>>
               /\ E.live = 0 /\ (C.kind # "comp" => E.blocked = 0)
       /\ UNCHANGED <<qs, running, pend, gs, wq, th, free, dis, users>>
Next == Tick \/ Call \/ Put \/ Ret \/ Pick \/ Dispatch \/ Idle \/ Drop \/ Run \/ RunEnd \/ Again \/ Err \/ Dis \/ Go \/ GoRet \/ Fin
-----------------------------------------------------------------------------
Accepted == l = Len(Traces[tr].ev) + 1 => PrintT(ToJson([acc |-> tr]))
OneAtATime == \A q \in QQ : (Loop /\ q = 0) \/ Cardinality({r \in running : r.q = q}) <= 1
Sorted == \A q \in QQ : \A i, j \in 1..Len(qs[q]) : i < j => qs[q][i].tp <= qs[q][j].tp
=============================================================================
