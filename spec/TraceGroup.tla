----------------------------- MODULE TraceGroup ----------------------------
(* Validates executions of group_by / window / window_toggle shared by       *)
(* threads.  Recorded: call/ret of emissions (n, e, c of source s: 0 main,   *)
(* 1 openings, 10+k closing asked for with opening value k) and of u         *)
(* (unsubscribe i; 0 = main); cb/cbe of the main observer (w: window v) and  *)
(* of the windows' observers (observer w subscribes to window w while it is  *)
(* handed out); fin with what is still subscribed.                           *)
(* Inferred: when an emission has its turn (they exclude each other), when   *)
(* an observer is checked, joins or leaves.                                  *)
(* A window's key: the group's key, its number, or the opening value.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs, File
VARIABLES tr, l, pend, turn, wo, win, nw, fill, gone, refs, joined, srcs, busy, ended, dead
vars == <<tr, l, pend, turn, wo, win, nw, fill, gone, refs, joined, srcs, busy, ended, dead>>
Traces == ndJsonDeserialize(File)
C == Configs[Traces[tr].c]
E == Traces[tr].ev[l]
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ pend = {} /\ turn = -1 /\ wo = <<>> /\ win = <<>> /\ nw = 0 /\ fill = 0 /\ gone = {} /\ refs = {0} /\ joined = {}
        /\ srcs = {} /\ busy = {} /\ ended = FALSE /\ dead = FALSE
Is(k) == l <= Len(Traces[tr].ev) /\ E.k = k
More == l <= Len(Traces[tr].ev)
Adv == l' = l + 1 /\ UNCHANGED tr
Stay == UNCHANGED <<tr, l>>
Upd(p, q) == pend' = (pend \ {p}) \cup {q}
Live == ~dead /\ ~ended
Call == /\ Is("call") /\ Adv /\ ~\E p \in pend : p.t = E.t
        /\ pend' = pend \cup {[t |-> E.t, a |-> E.a, s |-> E.s, v |-> E.v, ph |-> 0, q |-> <<>>, cur |-> -1]}
        /\ UNCHANGED <<turn, wo, win, nw, fill, gone, refs, joined, srcs, busy, ended, dead>>
Ret == /\ Is("ret") /\ Adv
       /\ \E p \in pend : p.t = E.t /\ p.ph = 9 /\ pend' = pend \ {p}
       /\ UNCHANGED <<turn, wo, win, nw, fill, gone, refs, joined, srcs, busy, ended, dead>>
It(o, key, v) == [o |-> o, key |-> key, v |-> v]
Has(q, k) == \E i \in 1..Len(q) : q[i] = k
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Wins == IF C.mode = "group" THEN Sorted({wo[i] : i \in 1..Len(wo)}) ELSE wo
Ends(k) == [i \in 1..Len(wo) |-> It("t", Wins[i], IF k = "e" THEN 1 ELSE 0)] \o << It("m", 0, IF k = "e" THEN 1 ELSE 0) >>
Key(v) == v % C.p
\* ---- what an emission is going to deliver: W hand a window out, n value to a window, t end a window, m end the main observer
Plan(p) ==
  IF p.a \in {"e", "c"} /\ p.s = 0 THEN Ends(p.a)
  ELSE IF p.s = 1 THEN (IF p.a = "n" THEN << It("W", p.v, 0) >> ELSE IF p.a = "e" THEN Ends("e") ELSE <<>>)
  ELSE IF p.s > 10 THEN (IF p.a = "e" THEN Ends("e") ELSE IF Has(wo, p.s - 10) THEN << It("t", p.s - 10, 0) >> ELSE <<>>)
  ELSE CASE C.mode = "group" -> (IF Has(wo, Key(p.v)) THEN <<>> ELSE << It("W", Key(p.v), 0) >>) \o << It("n", Key(p.v), 10 * p.v) >>
         [] C.mode = "window" -> (IF fill % C.p = 0 THEN << It("W", fill \div C.p, 0) >> ELSE <<>>) \o << It("n", fill \div C.p, p.v) >>
                                 \o (IF (fill + 1) % C.p = 0 THEN << It("t", fill \div C.p, 0) >> ELSE <<>>)
         [] OTHER -> [i \in 1..Len(wo) |-> It("n", wo[i], p.v)]
\* a window that is closed leaves the others at its turn and is told after it
Alone(p) == ~(p.s > 10 /\ p.a \in {"n", "c"})
Turn == /\ More /\ turn = -1
        /\ \E p \in pend : /\ p.a # "u" /\ p.ph = 0 /\ ~(p.a = "c" /\ p.s = 1)
             /\ IF ~Live \/ (p.s # 0 /\ p.s \in srcs) THEN Upd(p, [p EXCEPT !.ph = 9]) /\ UNCHANGED <<turn, fill, srcs, wo>>
                ELSE /\ Upd(p, [p EXCEPT !.ph = 1, !.q = Plan(p)]) /\ turn' = (IF Alone(p) THEN p.t ELSE turn)
                     /\ fill' = IF p.s = 0 /\ p.a = "n" THEN fill + 1 ELSE fill
                     /\ srcs' = IF p.a # "n" \/ p.s > 10 THEN srcs \cup {p.s} ELSE srcs
                     /\ wo' = IF Alone(p) THEN wo ELSE SelectSeq(wo, LAMBDA k : k # p.s - 10)
        /\ Stay /\ UNCHANGED <<win, nw, gone, refs, joined, busy, ended, dead>>
\* who closes a window that has ended already, or comes when all have left, need not wait for a turn
Late == /\ More /\ \E p \in pend : p.a # "u" /\ p.ph = 0 /\ (refs = {} \/ (p.s > 10 /\ ~Has(wo, p.s - 10))) /\ Upd(p, [p EXCEPT !.ph = 9])
        /\ Stay /\ UNCHANGED <<turn, wo, win, nw, fill, gone, refs, joined, srcs, busy, ended, dead>>
\* that no more windows will be opened is noted without a turn
Shut == /\ More /\ \E p \in pend : p.ph = 0 /\ p.a = "c" /\ p.s = 1 /\ Upd(p, [p EXCEPT !.ph = 9])
        /\ srcs' = srcs \cup {1}
        /\ Stay /\ UNCHANGED <<turn, wo, win, nw, fill, gone, refs, joined, busy, ended, dead>>
\* window of a key: 0 if nobody was given it
Win(key) == LET S == {i \in 1..Len(win) : win[i][1] = key} IN IF S = {} THEN 0 ELSE win[CHOOSE i \in S : TRUE][2]
\* who joined after the last reference had gone gets at most what comes before everything is disposed of
Mute(w) == w \notin refs
\* an opening that has handed its window out has yet to make the window part of what is disposed of
Opening(p) == p.s = 1 /\ p.a = "n" /\ p.ph \in {1, 8}
Settle == /\ More /\ \E p \in pend : p.ph = 8 /\ Upd(p, [p EXCEPT !.ph = 9])
          /\ dead' = (dead \/ refs = {})
          /\ Stay /\ UNCHANGED <<turn, wo, win, nw, fill, gone, refs, joined, srcs, busy, ended>>
MaySkip(w) == w \notin joined \/ w \in gone \/ Mute(w)
MayCall(w) == w \in joined /\ w \notin gone /\ ~dead
Decide == /\ More
          /\ \E p \in pend : /\ p.ph = 1 /\ p.cur = -1 /\ p.q # <<>>
               /\ LET x == Head(p.q)
                      skip == Upd(p, [p EXCEPT !.q = Tail(@)])
                  IN CASE x.o = "W" -> /\ wo' = Append(wo, x.key)
                                       /\ (IF 0 \in gone THEN skip /\ UNCHANGED <<win, nw>>
                                           ELSE nw' = nw + 1 /\ win' = Append(win, <<x.key, nw + 1>>) /\ Upd(p, [p EXCEPT !.cur = 0]))
                                       /\ UNCHANGED <<gone, ended>>
                       [] x.o = "n" -> /\ (MaySkip(Win(x.key)) /\ skip) \/ (MayCall(Win(x.key)) /\ Upd(p, [p EXCEPT !.cur = Win(x.key)]))
                                       /\ UNCHANGED <<wo, win, nw, gone, ended>>
                       [] x.o = "t" -> /\ wo' = SelectSeq(wo, LAMBDA k : k # x.key)
                                       /\ (MaySkip(Win(x.key)) /\ skip /\ UNCHANGED gone) \/ (MayCall(Win(x.key)) /\ Upd(p, [p EXCEPT !.cur = Win(x.key)]) /\ gone' = gone \cup {Win(x.key)})
                                       /\ UNCHANGED <<win, nw, ended>>
                       [] OTHER -> /\ ended' = TRUE
                                   /\ (IF 0 \in gone THEN skip /\ UNCHANGED gone ELSE Upd(p, [p EXCEPT !.cur = 0]) /\ gone' = gone \cup {0})
                                   /\ UNCHANGED <<wo, win, nw>>
          /\ Stay /\ UNCHANGED <<turn, fill, refs, joined, srcs, busy, dead>>
End == /\ More /\ \E p \in pend : p.a # "u" /\ p.ph = 1 /\ p.q = <<>> /\ Upd(p, [p EXCEPT !.ph = IF Opening(p) THEN 8 ELSE 9])
       /\ turn' = (IF \E p \in pend : p.t = turn /\ p.ph = 1 /\ p.q = <<>> /\ p \notin pend' THEN -1 ELSE turn) /\ Stay /\ UNCHANGED <<wo, win, nw, fill, gone, refs, joined, srcs, busy, ended, dead>>
Cb == /\ Is("cb") /\ Adv /\ E.o \notin busy /\ busy' = busy \cup {E.o}
      /\ \E p \in pend : p.t = E.t /\ p.cur = E.o /\
           LET x == Head(p.q) IN IF E.x = "w" THEN x.o = "W" /\ E.v = nw ELSE IF E.x = "n" THEN x.o = "n" /\ E.v = x.v ELSE x.o \in {"t", "m"} /\ E.x = (IF x.v = 1 THEN "e" ELSE "c")
      /\ UNCHANGED <<pend, turn, wo, win, nw, fill, gone, refs, joined, srcs, ended, dead>>
\* the main observer subscribes observer w to window w while he is given it
Join == /\ More /\ \E p \in pend : /\ p.cur = 0 /\ 0 \in busy /\ Head(p.q).o = "W" /\ nw \notin joined /\ nw \notin gone /\ Live
             /\ joined' = joined \cup {nw} /\ refs' = IF refs = {} THEN refs ELSE refs \cup {nw}
        /\ Stay /\ UNCHANGED <<pend, turn, wo, win, nw, fill, gone, srcs, busy, ended, dead>>
Cbe == /\ Is("cbe") /\ Adv /\ E.o \in busy /\ busy' = busy \ {E.o}
       /\ \E p \in pend :
            /\ p.t = E.t /\ p.cur = E.o
            /\ (Head(p.q).o = "W" => nw \in joined \/ nw \in gone \/ ~Live)
            /\ refs' = (IF Head(p.q).o \in {"t", "m"} THEN refs \ {E.o} ELSE refs)
            /\ dead' = (dead \/ (refs # {} /\ refs' = {}))
            /\ Upd(p, [p EXCEPT !.cur = -1, !.q = Tail(@)])
       /\ UNCHANGED <<turn, wo, win, nw, fill, gone, joined, srcs, ended>>
\* who gives the last reference back disposes of everything, a moment later
Leave == /\ More
         /\ \E p \in pend :
              /\ p.a = "u" /\ p.ph < 3
              /\ CASE p.ph = 0 -> gone' = gone \cup {p.v} /\ (\E k \in {1} \cup (IF p.v \in gone THEN {9} ELSE {}) : Upd(p, [p EXCEPT !.ph = k])) /\ UNCHANGED <<refs, dead>>
                   [] p.ph = 1 -> refs' = refs \ {p.v} /\ Upd(p, [p EXCEPT !.ph = IF refs # {} /\ refs' = {} THEN 2 ELSE 9]) /\ UNCHANGED <<gone, dead>>
                   [] OTHER -> dead' \in {TRUE, ~\E o \in pend : Opening(o)} /\ Upd(p, [p EXCEPT !.ph = 9]) /\ UNCHANGED <<gone, refs>>
         /\ Stay /\ UNCHANGED <<turn, wo, win, nw, fill, joined, srcs, busy, ended>>
\* sources still subscribed at the end
Want == IF ~Live THEN {} ELSE {0} \cup (IF C.mode = "toggle" THEN ({1} \ srcs) \cup {10 + wo[i] : i \in 1..Len(wo)} ELSE {})
Fin == /\ Is("fin") /\ Adv /\ pend = {} /\ busy = {} /\ {E.live[j] : j \in 1..Len(E.live)} = Want /\ E.blocked = 0
       /\ UNCHANGED <<pend, turn, wo, win, nw, fill, gone, refs, joined, srcs, busy, ended, dead>>
Next == Call \/ Ret \/ Turn \/ Shut \/ Late \/ Settle \/ Decide \/ End \/ Cb \/ Join \/ Cbe \/ Leave \/ Fin
-----------------------------------------------------------------------------
Accepted == l = Len(Traces[tr].ev) + 1 => PrintT(ToJson([acc |-> tr]))
OneTurn == Cardinality({p \in pend : p.ph = 1 /\ p.a # "u" /\ Alone(p)}) <= 1
Held == refs \subseteq joined \cup {0}
=============================================================================
