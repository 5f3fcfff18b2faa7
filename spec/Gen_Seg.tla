------------------------------- MODULE Gen_Seg -------------------------------
(* Behaviours of the segment machine, as action lists, for replay in the code. *)
EXTENDS Seg, Json
CONSTANTS N, Depth
VARIABLES st, hist
L == (0..N) \X (0..N)
Off == {<<0,0>>, <<-N,-1>>, <<-3*N, 2>>}
Init == \E f \in Off : \E a, b, c, d \in L : \E sh \in {<<<<1,2>>,<<3,4>>>>, <<<<1,2>>,<<2,3>>>>, <<<<1,2>>,<<3,1>>>>, <<<<2,1>>,<<3,1>>>>} :
          /\ hist = <<[k |-> "new", h |-> <<Add(a,f),Add(b,f),Add(c,f),Add(d,f)>>, s |-> sh]>>
          /\ st = SegStep1([h |-> <<>>, s |-> <<>>], Head(hist))
          /\ NoNulls(st)
Ops == [k : {"move"}, a : {1,2}, x : -N..N, y : {-2,0,1}] \cup [k : {"mirror"}, a : {1,2}, x : -1..N]
       \cup [k : {"reverse"}, a : {1,2}] \cup [k : {"setpt"}, a : 1..4, x : 0..N, y : {0,N}]
       \cup [k : {"setends"}, a : {1,2}, x : 1..4, y : 1..4]
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : /\ st' = SegStep1(st, o)
                          /\ hist' = Append(hist, o)
        /\ NoNulls(st') /\ st' # st
Spec == Init /\ [][Next]_<<st, hist>>
Emit == Len(hist) = Depth => PrintT("BEH " \o ToJson(hist))
=============================================================================
