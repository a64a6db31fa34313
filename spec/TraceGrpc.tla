----------------------------- MODULE TraceGrpc -----------------------------
(* Validates executions of the gRPC stream adapters with the user's          *)
(* emissions and gRPC's reactions on different threads.                      *)
(* Recorded: call/ret of the user's emissions (a in p c e); init, rok v,     *)
(* rno, wok, wno, cancel, done v .. end: gRPC's reactions; w v, wd, f code,  *)
(* r: calls made on the stream; n v, e v, c .. ce: the observer; fin.        *)
(* Inferred: when an emission is accepted, and when a reaction takes effect. *)
(* Writing is decided under one lock: whoever has it (own) owes the stream   *)
(* call he decided on.  The observer is told of one thing at a time (turn).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs, File
VARIABLES tr, l, q, shut, fin, fs, dead, pend, own, turn, term, wr, rd, done
vars == <<tr, l, q, shut, fin, fs, dead, pend, own, turn, term, wr, rd, done>>
Traces == ndJsonDeserialize(File)
C == Configs[Traces[tr].c]
E == Traces[tr].ev[l]
Client == C.kind \in {"cbidi", "cwrite"}
Reads == C.kind \in {"cbidi", "sbidi", "sread"}
Writes == C.kind # "sread"
None == [t |-> -1, k |-> "", v |-> 0]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ q = <<>> /\ shut = 0 /\ fin = -1 /\ fs = -1 /\ dead = 0 /\ pend = {} /\ own = None /\ turn = None /\ term = 0 /\ wr = 0 /\ rd = 0 /\ done = 0
More == l <= Len(Traces[tr].ev)
Is(k) == More /\ E.k = k
Adv == l' = l + 1 /\ UNCHANGED tr
Stay == More /\ UNCHANGED <<tr, l>>
\* what an emission or a reaction has to do: emission of values, decisions about the stream, ending the writer
Todo(k, v) == CASE k = "p" -> {[k |-> "push", v |-> v]} [] k = "c" -> {[k |-> "shut", v |-> 0]} [] k = "e" -> {[k |-> "shut", v |-> 13]}
                [] k = "init" -> {[k |-> "read", v |-> 0]} [] k = "rok" -> {[k |-> "next", v |-> v]}
                [] k = "rno" -> (IF C.kind = "sread" THEN {[k |-> "over", v |-> 0]} ELSE {}) [] k = "wok" -> {[k |-> "more", v |-> 0]}
                [] k = "wno" -> (IF C.kind = "swrite" THEN {[k |-> "over", v |-> 0]} ELSE {})
                [] k = "cancel" -> {[k |-> "term", v |-> 99]} \cup (IF Writes THEN {[k |-> "over", v |-> 1], [k |-> "dead", v |-> 0]} ELSE {})
                [] k = "done" -> {[k |-> "term", v |-> v], [k |-> "dead", v |-> 0]}
Begin == /\ More /\ E.k \in {"call", "init", "rok", "rno", "wok", "wno", "cancel", "done"} /\ Adv /\ ~\E p \in pend : p.t = E.t
         /\ LET k == IF E.k = "call" THEN E.a ELSE E.k
            IN /\ pend' = pend \cup {[t |-> E.t, do |-> Todo(k, E.v)]}
               /\ k \in {"wok", "wno"} => wr = 1
               /\ k \in {"rok", "rno"} => rd = 1
               /\ wr' = IF k \in {"wok", "wno"} THEN 0 ELSE wr
               /\ rd' = IF k \in {"rok", "rno"} THEN 0 ELSE rd
               /\ done' = IF k = "done" THEN 1 ELSE done
         /\ UNCHANGED <<q, shut, fin, fs, dead, own, turn, term>>
End == /\ More /\ E.k \in {"ret", "end"} /\ Adv
       /\ \E p \in pend : p.t = E.t /\ p.do = {} /\ pend' = pend \ {p}
       /\ own.t # E.t /\ turn.t # E.t
       /\ UNCHANGED <<q, shut, fin, fs, dead, own, turn, term, wr, rd, done>>
Done(p, x) == pend' = (pend \ {p}) \cup {[p EXCEPT !.do = @ \ {x}]}
Then(p, x, y) == pend' = (pend \ {p}) \cup {[p EXCEPT !.do = (@ \ {x}) \cup {y}]}
Owe(t, k, v) == own' = [t |-> t, k |-> k, v |-> v]
Accepts == shut = 0 /\ dead = 0
Close(p, code) == IF fs # -1 THEN UNCHANGED <<fs, own>> ELSE fs' = code /\ Owe(p.t, IF Client THEN "wd" ELSE "f", IF Client THEN 0 ELSE code)
\* a decision about the stream
Decide == /\ Stay /\ own = None
          /\ \E p \in pend : \E x \in p.do :
               /\ x.k \in {"put", "finish", "more", "over"} /\ Done(p, x)
               /\ CASE x.k = "put" -> \/ /\ (fs # -1 \/ done = 1 \/ ~Accepts)
                                          /\ UNCHANGED <<q, fin, fs, own>>
                                       \/ /\ fs = -1 /\ done = 0
                                          /\ q' = Append(q, x.v) /\ (IF q = <<>> THEN Owe(p.t, "w", x.v) ELSE UNCHANGED own) /\ UNCHANGED <<fin, fs>>
                    [] x.k = "finish" -> \/ dead = 1 /\ UNCHANGED <<q, fin, fs, own>>
                                         \/ done = 0 /\ fin' = x.v /\ (IF q = <<>> THEN Close(p, x.v) ELSE UNCHANGED <<fs, own>>) /\ UNCHANGED q
                    [] x.k = "more" -> LET r == Tail(q) IN
                                       /\ q' = r /\ UNCHANGED fin
                                       /\ IF fs # -1 THEN UNCHANGED <<fs, own>>
                                          ELSE IF r # <<>> THEN Owe(p.t, "w", Head(r)) /\ UNCHANGED fs
                                          ELSE IF fin # -1 THEN Close(p, fin) ELSE UNCHANGED <<fs, own>>
                    [] x.k = "over" -> Close(p, x.v) /\ UNCHANGED <<q, fin>>
          /\ UNCHANGED <<shut, dead, turn, term, wr, rd, done>>
Write == /\ More /\ E.k \in {"w", "wd", "f"} /\ Adv /\ own = [t |-> E.t, k |-> E.k, v |-> E.v] /\ own' = None
         /\ done = 0 /\ (E.k = "w" => wr = 0) /\ wr' = IF E.k = "w" THEN 1 ELSE wr
         /\ UNCHANGED <<q, shut, fin, fs, dead, pend, turn, term, rd, done>>
\* a value is accepted a little earlier than it is put into the queue
Push == /\ Stay
        /\ \E p \in pend : \E x \in p.do :
             x.k = "push" /\ (IF Accepts THEN Then(p, x, [k |-> "put", v |-> x.v]) ELSE Done(p, x))
        /\ UNCHANGED <<q, shut, fin, fs, dead, own, turn, term, wr, rd, done>>
\* the end of what is accepted comes first, what follows from it a little later
Shut == /\ Stay
        /\ \E p \in pend : \E x \in p.do :
             /\ x.k = "shut"
             /\ IF Accepts THEN shut' = 1 /\ Then(p, x, [k |-> "finish", v |-> x.v]) ELSE UNCHANGED shut /\ Done(p, x)
        /\ UNCHANGED <<q, fin, fs, dead, own, turn, term, wr, rd, done>>
Kill == /\ Stay /\ \E p \in pend : \E x \in p.do : x.k = "dead" /\ Done(p, x)
        /\ dead' = 1 /\ UNCHANGED <<q, shut, fin, fs, own, turn, term, wr, rd, done>>
Read == /\ Is("r") /\ Adv /\ rd = 0 /\ rd' = 1 /\ done = 0
        /\ IF ~Reads THEN FALSE ELSE \E p \in pend : \E x \in p.do : x.k = "read" /\ p.t = E.t /\ Done(p, x)
        /\ UNCHANGED <<q, shut, fin, fs, dead, own, turn, term, wr, done>>
NoRead == /\ Stay /\ ~Reads /\ \E p \in pend : \E x \in p.do : x.k = "read" /\ Done(p, x)
          /\ UNCHANGED <<q, shut, fin, fs, dead, own, turn, term, wr, rd, done>>
\* the observer's turn.  term 1: the end is decided, 2: it has its turn
Turn == /\ Stay
        /\ \E p \in pend : \E x \in p.do :
             \/ x.k = "next" /\ Then(p, x, [k |-> "read", v |-> 0]) /\ UNCHANGED term
                /\ \/ term > 0 /\ UNCHANGED turn
                   \/ term < 2 /\ turn = None /\ turn' = [t |-> p.t, k |-> "n", v |-> x.v]
             \/ x.k = "term" /\ UNCHANGED turn /\ (IF term > 0 THEN Done(p, x) /\ UNCHANGED term ELSE term' = 1 /\ Then(p, x, [k |-> "tell", v |-> x.v]))
             \/ x.k = "tell" /\ turn = None /\ turn' = [t |-> p.t, k |-> IF x.v = 0 THEN "c" ELSE "e", v |-> x.v] /\ term' = 2 /\ Done(p, x)
        /\ UNCHANGED <<q, shut, fin, fs, dead, own, wr, rd, done>>
Tell == /\ More /\ E.k \in {"n", "e", "c"} /\ Adv /\ turn = [t |-> E.t, k |-> E.k, v |-> E.v] /\ turn' = [turn EXCEPT !.k = "told"]
        /\ UNCHANGED <<q, shut, fin, fs, dead, pend, own, term, wr, rd, done>>
Told == /\ Is("ce") /\ Adv /\ turn.t = E.t /\ turn.k = "told" /\ turn' = None
        /\ UNCHANGED <<q, shut, fin, fs, dead, pend, own, term, wr, rd, done>>
Fin == /\ Is("fin") /\ Adv /\ pend = {} /\ own = None /\ turn = None /\ E.done = done
       /\ Client \/ fs # -1 => done = 1
       /\ UNCHANGED <<q, shut, fin, fs, dead, pend, own, turn, term, wr, rd, done>>
Next == Begin \/ End \/ Push \/ Shut \/ Decide \/ Write \/ Kill \/ Read \/ NoRead \/ Turn \/ Tell \/ Told \/ Fin
-----------------------------------------------------------------------------
Accepted == l = Len(Traces[tr].ev) + 1 => PrintT(ToJson([acc |-> tr]))
\* all that was accepted is with the stream before a regular end
Complete == own.k \in {"f", "wd"} /\ fin # -1 /\ fs = fin /\ dead = 0 /\ C.kind # "swrite" => q = <<>>
=============================================================================
