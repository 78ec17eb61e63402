------------------------------- MODULE Merge -------------------------------
(* P08: merging two description files.                                             *)
(*                                                                                *)
(* A merger holds copies of the two files given to it last, as they were then     *)
(* (nothing for a file that could not be read), and which of them is dominant.    *)
(* Merging leaves all that alone and writes a file: the dominant tree, with       *)
(* every section, detector, material and parameter only the other tree has added, *)
(* and the attributes missing in the dominant tree added to what both have.       *)
(* Things are the same thing if they have the same name, or no name and the same  *)
(* kind; several of the same are paired in order, and two trees that have a       *)
(* different number of them are refused.                                          *)
EXTENDS XmlFile
VARIABLE mr
Named(n) == HasA(n, "name")
Same(x, y) == Named(x) = Named(y) /\ (IF Named(x) THEN x.a.name = y.a.name ELSE x.t = y.t)
Count(x, q) == Cardinality({j \in 1..Len(q) : Same(x, q[j])})
\* the k-th of q that is the same as x, 0 if there is none
RECURSIVE NthFrom(_, _, _, _)
NthFrom(x, q, k, j) == IF j > Len(q) THEN 0 ELSE IF Same(x, q[j]) THEN IF k = 1 THEN j ELSE NthFrom(x, q, k-1, j+1) ELSE NthFrom(x, q, k, j+1)
Nth(x, q, k) == NthFrom(x, q, k, 1)
Union2(r, d) == [k \in DOMAIN r \cup DOMAIN d |-> IF k \in DOMAIN d THEN d[k] ELSE r[k]]
Refusal == [t |-> "", a |-> Empty, c |-> <<>>]
RECURSIVE MergeKids(_, _, _)
\* children j.. of rec merged into dom
MergeKids(rec, j, dom) ==
   IF j > Len(rec.c) THEN dom
   ELSE LET x == rec.c[j]
            nr == Count(x, rec.c)  nd == Count(x, dom.c)
            k == Nth(x, dom.c, Count(x, SubSeq(rec.c, 1, j)))
        IN IF (nr > 1 \/ nd > 1) /\ nr # nd THEN Refusal
           ELSE IF k = 0 THEN MergeKids(rec, j+1, [dom EXCEPT !.c = Append(@, x)])
           ELSE LET y == dom.c[k]
                    z == IF Named(x) THEN MergeKids(x, 1, y) ELSE y
                IN IF z = Refusal THEN Refusal
                   ELSE MergeKids(rec, j+1, [dom EXCEPT !.c[k] = [z EXCEPT !.a = Union2(x.a, y.a)]])
RECURSIVE MergeSections(_, _, _)
MergeSections(rec, j, dom) ==
   IF j > Len(rec.c) THEN dom
   ELSE LET x == rec.c[j] IN
        IF ~HasK(dom, x.t) THEN MergeSections(rec, j+1, [dom EXCEPT !.c = Append(@, x)])
        ELSE IF x.t \notin {"global","detectors","materials"} THEN MergeSections(rec, j+1, dom)
        ELSE LET k == CHOOSE i \in 1..Len(dom.c) : dom.c[i].t = x.t
                 z == MergeKids(x, 1, dom.c[k])
             IN IF z = Refusal THEN Refusal ELSE MergeSections(rec, j+1, [dom EXCEPT !.c[k] = z])
GearFile(t) == t.t = "gear" /\ HasK(t, "detectors")

MrInit == mr = Empty
MrOps == {"newmerge","setfile","dominant","merge"}
MrEnabled(e) == e.op = "newmerge" \/ e.k \in DOMAIN mr
Readable(f) == f \in DOMAIN fx /\ fx[f].k = "xml"
Dom(m) == m.f[m.dom]
Rec(m) == m.f[3 - m.dom]
Mergeable(m) == Dom(m) # <<>> /\ Rec(m) # <<>> /\ GearFile(Dom(m)[1].v) /\ GearFile(Rec(m)[1].v)
Merged(m) == MergeSections(Rec(m)[1].v, 1, Dom(m)[1].v)
MrDo(e) == CASE e.op = "newmerge" -> mr' = Put(mr, e.k, [f |-> << <<>>, <<>> >>, dom |-> 2]) /\ UNCHANGED <<vars, xvars>>
             [] e.op = "setfile" -> mr' = [mr EXCEPT ![e.k].f[e.w] = IF Readable(e.f) THEN <<fx[e.f]>> ELSE <<>>] /\ UNCHANGED <<vars, xvars>>
             [] e.op = "dominant" -> mr' = [mr EXCEPT ![e.k].dom = IF e.w \in {1, 2} THEN e.w ELSE @] /\ UNCHANGED <<vars, xvars>>
             [] e.op = "merge" -> LET m == mr[e.k] IN
                  IF ~Mergeable(m) THEN UNCHANGED <<vars, xvars, mr>>
                  ELSE LET t == Merged(m) IN
                       IF t = Refusal THEN UNCHANGED <<vars, xvars, mr>>
                       ELSE /\ fx' = Put(fx, e.f, [k |-> "xml", v |-> t, mayA |-> Dom(m)[1].mayA \/ Rec(m)[1].mayA, w |-> Union2(Rec(m)[1].w, Dom(m)[1].w)])
                            /\ UNCHANGED <<vars, rdr, reg, mr>>
MrResOK(e) == CASE e.op = "setfile" -> e.r.x = "ok" /\ e.r.v = Readable(e.f)
                [] e.op = "merge" -> LET m == mr[e.k] IN
                     IF ~Mergeable(m) THEN e.r.x = "ok" /\ ~e.r.v
                     ELSE IF Merged(m) = Refusal THEN e.r.x = "Exception" ELSE e.r.x = "ok" /\ e.r.v
                [] OTHER -> e.r.x = "ok"
=============================================================================
