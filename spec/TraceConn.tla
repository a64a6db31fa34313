----------------------------- MODULE TraceConn -----------------------------
(* Validates executions of connectables shared by threads.  A group is one   *)
(* period of being connected; att = its subscription to the source.          *)
(* Recorded: call/ret of s (subscribe i), u (unsubscribe i), k (connect),    *)
(* x (dispose what this thread's connect returned); on / off of source       *)
(* subscriptions; fin: which are live, and who received the value each of    *)
(* them emitted at the end.                                                  *)
(* Inferred: when somebody enters or leaves.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs, File
VARIABLES tr, l, pend, grp, cur, refs, gone, mine
vars == <<tr, l, pend, grp, cur, refs, gone, mine>>
Traces == ndJsonDeserialize(File)
C == Configs[Traces[tr].c]
E == Traces[tr].ev[l]
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ pend = {} /\ grp = <<>> /\ cur = 0 /\ refs = {} /\ gone = {} /\ mine = [t \in 0..9 |-> 0]
Is(k) == l <= Len(Traces[tr].ev) /\ E.k = k
More == l <= Len(Traces[tr].ev)
Adv == l' = l + 1 /\ UNCHANGED tr
Stay == UNCHANGED <<tr, l>>
Upd(p, q) == pend' = (pend \ {p}) \cup {q}
Call == /\ Is("call") /\ Adv /\ ~\E p \in pend : p.t = E.t
        /\ pend' = pend \cup {[t |-> E.t, a |-> E.a, i |-> E.i, ph |-> 0, must |-> 0]}
        /\ UNCHANGED <<grp, cur, refs, gone, mine>>
Ret == /\ Is("ret") /\ Adv
       /\ \E p \in pend : p.t = E.t /\ p.ph = 2 /\ (p.must > 0 => grp[p.must].att > 0 \/ ~grp[p.must].open) /\ pend' = pend \ {p}
       /\ UNCHANGED <<grp, cur, refs, gone, mine>>
New == Append(grp, [open |-> TRUE, att |-> 0, off |-> FALSE])
Enter == /\ More /\ Stay
         /\ \E p \in pend : /\ p.a = "s" /\ p.ph = 0
              /\ \/ /\ p.i \in gone /\ Upd(p, [p EXCEPT !.ph = 2]) /\ UNCHANGED <<grp, cur, refs>>
                 \/ /\ refs' = refs \cup {p.i}
                    /\ IF C.mode = "ref" /\ cur = 0 THEN grp' = New /\ cur' = Len(grp) + 1 /\ Upd(p, [p EXCEPT !.ph = 1, !.must = Len(grp) + 1])
                       ELSE UNCHANGED <<grp, cur>> /\ Upd(p, [p EXCEPT !.ph = 1])
         /\ UNCHANGED <<gone, mine>>
LeaveAs(i) == /\ refs' = refs \ {i}
              /\ IF C.mode = "ref" /\ i \in refs /\ refs = {i} THEN cur' = 0 /\ grp' = [grp EXCEPT ![cur].open = FALSE] ELSE UNCHANGED <<cur, grp>>
Settle == /\ More /\ Stay
          /\ \E p \in pend : /\ p.a = "s" /\ p.ph = 1 /\ Upd(p, [p EXCEPT !.ph = 2])
               /\ \/ p.i \in gone /\ LeaveAs(p.i)
                  \/ (p.i \notin gone \/ \E q \in pend : q.a = "u" /\ q.i = p.i /\ q.ph = 1) /\ UNCHANGED <<refs, cur, grp>>
          /\ UNCHANGED <<gone, mine>>
(* the first u of an observer gives its place up, at some moment before it returns; further ones have no effect *)
Leave == /\ More /\ Stay
         /\ \E p \in pend : /\ p.a = "u" /\ p.ph < 2
              /\ IF p.ph = 0 THEN gone' = gone \cup {p.i} /\ Upd(p, [p EXCEPT !.ph = IF p.i \in gone THEN 2 ELSE 1]) /\ UNCHANGED <<refs, cur, grp>>
                 ELSE LeaveAs(p.i) /\ Upd(p, [p EXCEPT !.ph = 2]) /\ UNCHANGED gone
         /\ UNCHANGED mine
Conn == /\ More /\ Stay
        /\ \E p \in pend : /\ p.a = "k" /\ p.ph = 0
             /\ IF cur > 0 THEN Upd(p, [p EXCEPT !.ph = 2]) /\ mine' = [mine EXCEPT ![p.t] = cur] /\ UNCHANGED <<grp, cur>>
                ELSE grp' = New /\ cur' = Len(grp) + 1 /\ mine' = [mine EXCEPT ![p.t] = Len(grp) + 1] /\ Upd(p, [p EXCEPT !.ph = 2, !.must = Len(grp) + 1])
        /\ UNCHANGED <<refs, gone>>
Disc == /\ More /\ Stay
        /\ \E p \in pend : /\ p.a = "x" /\ p.ph = 0 /\ Upd(p, [p EXCEPT !.ph = 2])
             /\ LET g == mine[p.t] IN IF g = 0 \/ ~grp[g].open THEN UNCHANGED <<grp, cur>> ELSE grp' = [grp EXCEPT ![g].open = FALSE] /\ cur' = IF cur = g THEN 0 ELSE cur
        /\ UNCHANGED <<refs, gone, mine>>
On == /\ Is("on") /\ Adv
      /\ \E p \in pend : p.t = E.t /\ p.must > 0 /\ grp[p.must].att = 0 /\ grp' = [grp EXCEPT ![p.must].att = E.a]
      /\ UNCHANGED <<pend, cur, refs, gone, mine>>
Off == /\ Is("off") /\ Adv
       /\ \E g \in 1..Len(grp) : grp[g].att = E.a /\ ~grp[g].open /\ ~grp[g].off /\ grp' = [grp EXCEPT ![g].off = TRUE]
       /\ UNCHANGED <<pend, cur, refs, gone, mine>>
Fin == /\ Is("fin") /\ Adv /\ pend = {}
       /\ {E.live[j] : j \in 1..Len(E.live)} = {grp[g].att : g \in {x \in 1..Len(grp) : grp[x].open}}
       /\ \A g \in 1..Len(grp) : (grp[g].open => grp[g].att > 0) /\ (grp[g].att > 0 => (grp[g].off <=> ~grp[g].open))
       /\ \A i \in 1..Len(E.got) : E.got[i] = (IF i \in refs /\ cur > 0 THEN 1 ELSE 0)
       /\ UNCHANGED <<pend, grp, cur, refs, gone, mine>>
Next == Call \/ Ret \/ Enter \/ Settle \/ Leave \/ Conn \/ Disc \/ On \/ Off \/ Fin
-----------------------------------------------------------------------------
Accepted == l = Len(Traces[tr].ev) + 1 => PrintT(ToJson([acc |-> tr]))
OneOpen == Cardinality({g \in 1..Len(grp) : grp[g].open}) <= 1
Follows == C.mode = "ref" => (refs # {} <=> cur > 0)
=============================================================================
