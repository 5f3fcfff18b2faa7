------------------------------- MODULE Gen_Shp -------------------------------
(* Histories of triangles sharing corners and sides that are moved, turned   *)
(* and mirrored.                                                             *)
EXTENDS Shp, Json
CONSTANTS N0, Depth
VARIABLES st, hist
L == (0..N0) \X (0..N0)
Tris == {x \in {<<a,b,c>> : a \in L, b \in L, c \in L} : Lex(x[1],x[2]) /\ Lex(x[2],x[3]) /\ TriA(x) # 0}
Init == \E x \in Tris : st = <<x>> /\ hist = <<>>
Begin == /\ hist = <<>>
         /\ \E y \in Tris : /\ st' = Append(st, y)
                            /\ hist' = <<[k |-> "new", t |-> st']>>
Ops == {[k |-> "move", a |-> a, x |-> x, y |-> y] : a \in DOMAIN st, x \in {-1,0,1,2}, y \in {-1,0,1}}
       \cup {[k |-> "mirror", a |-> a, x |-> x] : a \in DOMAIN st, x \in {0,1,2}}
       \cup {[k |-> "rotxy", a |-> a, x |-> 1, y |-> 1, c |-> q[1], s |-> q[2], d |-> 1] : a \in DOMAIN st, q \in {<<0,1>>,<<-1,0>>,<<0,-1>>}}
       \cup {o \in {[k |-> "setpt", a |-> a, p |-> st[a][i], w |-> w] : a \in DOMAIN st, i \in 1..3, w \in L} :
              \A i \in 1..3 : o.w # st[o.a][i]}
Act == /\ Len(hist) \in 1..(Depth-1)
       /\ \E o \in Ops : /\ st' = ShpStep1(st, o) /\ \A n \in DOMAIN st' : TriA(st'[n]) # 0
                         /\ hist' = Append(hist, o)
Spec == Init /\ [][Begin \/ Act]_<<st, hist>>
Emit == Len(hist) = Depth => PrintT("BEH " \o ToJson(hist))
=============================================================================
