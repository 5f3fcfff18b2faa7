------------------------------- MODULE MC_Pts -------------------------------
(* Three points, two segments: emptying and setting in every order.          *)
EXTENDS Pts, Json
CONSTANTS N0, Thr, Depth
VARIABLES st, hist
L == {0, 1, Thr-1, Thr, Thr+1} \cap 0..N0
New(a) == [k |-> "new", h |-> <<<<a,0>>, <<0,0>>, <<0,a>>>>, s |-> <<<<1,2>>,<<2,3>>>>, thr |-> Thr]
Init == \E a \in L : st = PtsStep1([pts |-> <<>>, segs |-> <<>>, thr |-> 1], New(a)) /\ hist = <<New(a)>>
Ops == [k : {"set"}, a : 1..3, x : L, y : {0, Thr}] \cup [k : {"empty"}, a : 1..3] \cup [k : {"half"}, a : 1..3, b : 1..2]
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : st' = PtsStep1(st, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<st, hist>>
Reflexive == \A a \in 1..3 : st.pts[a].set = Same(st,a,a)
Symmetric == \A a, b \in 1..3 : Same(st,a,b) = Same(st,b,a)
Emptied == \A a, b \in 1..3 : ~st.pts[a].set => ~Same(st,a,b)
Follow == \A a \in 1..2 : LET v == st.pts[a].set /\ st.pts[a+1].set IN (st.segs[a] = <<a,a+1>>) /\ (Same(st,a,a+1) => v)
Emit == Len(hist) = Depth => PrintT("BEH " \o ToJson(hist))
=============================================================================
