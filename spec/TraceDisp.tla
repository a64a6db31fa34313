----------------------------- MODULE TraceDisp -----------------------------
(* Validates executions of disposables used from several threads.           *)
(* Recorded: call/ret of add, rem, clr, dis, ref / refw (j = index reserved *)
(* for the new reference), cb/cbe around every leaf's callback, fin.        *)
(* Each call is a stack of small steps, each taken atomically at a moment   *)
(* TLC chooses: marking an item disposed, handing its children over, ...    *)
(* Config: kinds = kinds of all items ("leaf","comp","ref","in" reserved).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs, File
VARIABLES tr, l, disp, kids, cnt, src, pend
vars == <<tr, l, disp, kids, cnt, src, pend>>
Traces == ndJsonDeserialize(File)
C == Configs[Traces[tr].c]
E == Traces[tr].ev[l]
N == Len(C.kinds)
Init == /\ tr \in 1..Len(Traces) /\ l = 1
        /\ disp = [i \in 1..N |-> C.kinds[i] = "in"]
        /\ kids = [i \in 1..N |-> <<>>] /\ cnt = [i \in 1..N |-> 0] /\ src = [i \in 1..N |-> 0] /\ pend = {}
Is(k) == l <= Len(Traces[tr].ev) /\ E.k = k
More == l <= Len(Traces[tr].ev)
Adv == l' = l + 1 /\ UNCHANGED tr
Stay == UNCHANGED <<tr, l>>
S(k, i, v) == [k |-> k, i |-> i, v |-> v]
Without(q, x) == SelectSeq(q, LAMBDA e : e # x)
Put(p, q) == pend' = (pend \ {p}) \cup {[p EXCEPT !.todo = q]}
DisAll(q) == [j \in 1..Len(q) |-> S("dis", q[j], 0)]

Call == /\ Is("call") /\ Adv /\ ~\E p \in pend : p.t = E.t
        /\ pend' = pend \cup {[t |-> E.t, todo |-> << S(E.a, E.i, E.v) >>]}
        /\ UNCHANGED <<disp, kids, cnt, src>>
Ret == /\ Is("ret") /\ Adv
       /\ \E p \in pend : p.t = E.t /\ p.todo = <<>> /\ pend' = pend \ {p}
       /\ UNCHANGED <<disp, kids, cnt, src>>
\* one small step of a call: what is left to do, and the new state
Now == [q |-> <<>>, disp |-> disp, kids |-> kids, cnt |-> cnt, src |-> src]
Mark(i, q) == [Now EXCEPT !.disp[i] = TRUE, !.kids[i] = <<>>, !.q = q]
DoDis(i) ==
  IF disp[i] THEN Now
  ELSE IF C.kinds[i] = "leaf" THEN Mark(i, << S("cb", i, 0), S("cbe", i, 0) >>)
  ELSE IF C.kinds[i] = "comp" THEN Mark(i, DisAll(kids[i]))
  ELSE IF C.kinds[i] = "ref"  THEN Mark(i, << S("over", i, 0) >> \o DisAll(kids[i]))
  ELSE Mark(i, << S("rem", src[i], i), S("rel", src[i], 0) >> \o DisAll(kids[i]))
DoAdd(i, v) ==
  IF disp[i] THEN [Now EXCEPT !.q = << S("dis", v, 0) >>]
  ELSE IF disp[v] \/ i = v THEN Now ELSE [Now EXCEPT !.kids[i] = Append(@, v)]
DoRel(i) ==
  IF cnt[i] = -1 THEN Now
  ELSE IF cnt[i] = 1 THEN [Now EXCEPT !.cnt[i] = -1, !.q = << S("dis", i, 0) >>]
  ELSE [Now EXCEPT !.cnt[i] = @ - 1]
DoRef(i, v) == IF cnt[i] = -1 THEN Now ELSE [Now EXCEPT !.cnt[i] = @ + 1, !.src[v] = i, !.disp[v] = FALSE, !.q = << S("add", i, v) >>]
Do(a) ==
  CASE a.k = "dis" -> DoDis(a.i)
    [] a.k = "add" -> DoAdd(a.i, a.v)
    [] a.k = "rem" -> [Now EXCEPT !.kids[a.i] = Without(@, a.v)]
    [] a.k = "clr" -> [Now EXCEPT !.kids[a.i] = <<>>, !.q = DisAll(kids[a.i])]
    [] a.k = "over" -> [Now EXCEPT !.cnt[a.i] = -1]
    [] a.k = "rel" -> DoRel(a.i)
    [] a.k = "ref" -> DoRef(a.i, a.v)
Step == /\ More /\ Stay
        /\ \E p \in pend : /\ p.todo # <<>> /\ Head(p.todo).k \notin {"cb", "cbe"}
             /\ LET n == Do(Head(p.todo))
                IN Put(p, n.q \o Tail(p.todo)) /\ disp' = n.disp /\ kids' = n.kids /\ cnt' = n.cnt /\ src' = n.src
Cb == /\ Is("cb") /\ Adv
      /\ \E p \in pend : p.t = E.t /\ p.todo # <<>> /\ Head(p.todo) = S("cb", E.i, 0) /\ Put(p, Tail(p.todo))
      /\ UNCHANGED <<disp, kids, cnt, src>>
Cbe == /\ Is("cbe") /\ Adv
       /\ \E p \in pend : p.t = E.t /\ p.todo # <<>> /\ Head(p.todo) = S("cbe", E.i, 0) /\ Put(p, Tail(p.todo))
       /\ UNCHANGED <<disp, kids, cnt, src>>
Fin == /\ Is("fin") /\ Adv /\ pend = {}
       /\ \A i \in 1..N : E.d[i] = (IF disp[i] THEN 1 ELSE 0)
       /\ UNCHANGED <<disp, kids, cnt, src, pend>>
Next == Call \/ Ret \/ Step \/ Cb \/ Cbe \/ Fin
-----------------------------------------------------------------------------
Accepted == l = Len(Traces[tr].ev) + 1 => PrintT(ToJson([acc |-> tr]))
\* a disposed composite holds nothing; the count covers the live references
Empty == \A i \in 1..N : C.kinds[i] # "leaf" /\ disp[i] => kids[i] = <<>>
Covers == \A r \in 1..N : C.kinds[r] = "ref" /\ cnt[r] >= 0 => cnt[r] >= Cardinality({i \in 1..N : src[i] = r /\ ~disp[i]})
\* at rest: disposed exactly when the last reference is gone
AtRest == pend = {} => \A r \in 1..N : C.kinds[r] = "ref" /\ ~disp[r] => cnt[r] = Cardinality({i \in 1..N : src[i] = r /\ ~disp[i]})
=============================================================================
