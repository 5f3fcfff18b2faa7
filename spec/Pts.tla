-------------------------------- MODULE Pts --------------------------------
(* Machine of points that are set, emptied and set again, and of segments    *)
(* between them.  Points count as equal if both coordinates differ by less   *)
(* than the tolerance of the code (thr lattice steps).                       *)
EXTENDS Geo
(* state: pts: sequence of [set, emp, x, y], segs: sequence of <<i,j>>, thr. A point with one coordinate missing is
   not valid, but not empty either *)
Co(st,a) == <<st.pts[a].x, st.pts[a].y>>
Same(st,a,b) == /\ st.pts[a].set /\ st.pts[b].set
                /\ Abs(Co(st,a)[1] - Co(st,b)[1]) < st.thr /\ Abs(Co(st,a)[2] - Co(st,b)[2]) < st.thr
(* exactly at the tolerance rounding decides *)
Border(st,a,b) == st.thr > 1 /\ \E e \in {1,2} : Abs(Co(st,a)[e] - Co(st,b)[e]) = st.thr
(* segments are equal if both are valid and start and end are the same *)
SegSame(st,a,b) == \A e \in {1,2} : Same(st, st.segs[a][e], st.segs[b][e])
SegBorder(st,a,b) == \E e \in {1,2} : Border(st, st.segs[a][e], st.segs[b][e])
PtsStep1(st, op) ==
  CASE op.k = "new"   -> [pts |-> [n \in DOMAIN op.h |-> [set |-> TRUE, emp |-> FALSE, x |-> op.h[n][1], y |-> op.h[n][2]]], segs |-> op.s, thr |-> op.thr]
    [] op.k = "set"   -> [st EXCEPT !.pts[op.a] = [set |-> TRUE, emp |-> FALSE, x |-> op.x, y |-> op.y]]
    [] op.k = "empty" -> [st EXCEPT !.pts[op.a].set = FALSE, !.pts[op.a].emp = TRUE]
    [] op.k = "half"  -> [st EXCEPT !.pts[op.a].set = FALSE, !.pts[op.a].emp = FALSE]
    [] OTHER          -> st
PtsView(st) == [n \in DOMAIN st.pts |-> IF st.pts[n].set THEN Co(st,n) ELSE <<>>]
PtsAns(st, q, r) ==
  CASE q.k = "valid"    -> r = st.pts[q.a].set
    [] q.k = "isempty"  -> r = st.pts[q.a].emp
    [] q.k = "segvalid" -> r = (st.pts[st.segs[q.a][1]].set /\ st.pts[st.segs[q.a][2]].set)
    [] q.k = "segeq"    -> SegBorder(st,q.a,q.b) \/ r = SegSame(st,q.a,q.b)
    [] q.k = "segne"    -> SegBorder(st,q.a,q.b) \/ r = ~SegSame(st,q.a,q.b)
    [] q.k = "eq"       -> Border(st,q.a,q.b) \/ r = Same(st,q.a,q.b)
    [] q.k = "ne"       -> Border(st,q.a,q.b) \/ r = ~Same(st,q.a,q.b)
    [] q.k = "hash"     -> Co(st,q.a) = Co(st,q.b) => r
    [] q.k = "null"     -> Border(st, st.segs[q.a][1], st.segs[q.a][2]) \/ r = Same(st, st.segs[q.a][1], st.segs[q.a][2])
    [] q.k = "dist2"    -> r = Dist2(Co(st,q.a), Co(st,q.b))
    [] q.k = "plus"     -> r = Add(Co(st,q.a), Co(st,q.b))
    [] q.k = "minus"    -> r = Sub(Co(st,q.a), Co(st,q.b))
    [] q.k = "bbox"     -> r = <<<<st.pts[q.a].x, st.pts[q.a].x>>, <<st.pts[q.a].y, st.pts[q.a].y>>>>
    [] q.k = "text"     -> r = <<st.pts[q.a].set, Co(st,q.a)>>              \* what is printed builds the point again
    [] q.k = "segtext"  -> r = <<Co(st,st.segs[q.a][1]), Co(st,st.segs[q.a][2])>>
    [] OTHER            -> FALSE
PtsStart(s) == [pts |-> <<>>, segs |-> <<>>, thr |-> 1]
PtsStep(st, ev) == PtsStep1(st, ev.op)
PtsFails(st, s2, ev) == (IF ev.ok /\ ev.obs = PtsView(s2) THEN {} ELSE {"state"})
                        \cup {ev.q[n].k : n \in {m \in DOMAIN ev.q : ~(ev.q[m].ok /\ PtsAns(s2, ev.q[m], ev.q[m].r))}}
PtsSync(s2, ev) == s2
=============================================================================
