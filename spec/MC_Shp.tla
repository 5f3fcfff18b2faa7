------------------------------- MODULE MC_Shp -------------------------------
(* All pairs of triangles on a small lattice, the laws of their relations;   *)
(* all sets of points on it, the laws of their hull.                         *)
EXTENDS Shp
CONSTANTS N0
VARIABLES t, u, S
L == (0..N0) \X (0..N0)
Tri3 == {<<a,b,c>> : a \in L, b \in L, c \in L}
Up == {x \in Tri3 : Lex(x[1],x[2]) /\ Lex(x[2],x[3]) /\ TriA(x) # 0}
Init == /\ t \in Up /\ u = <<>> /\ S = {}
Next == \/ /\ u = <<>> /\ S = {} /\ u' \in Up /\ UNCHANGED <<t, S>>
        \/ /\ u = <<>> /\ S = {} /\ S' \in {s \cup ToSet(t) : s \in SUBSET {p \in L : Lex(p, <<2,0>>)}} /\ UNCHANGED <<t, u>>
Spec == Init /\ [][Next]_<<t,u,S>>
P == Len(u) = 3
Rev(x) == <<x[3],x[2],x[1]>>
Sym == P => /\ Overlap(t,u) = Overlap(u,t) /\ Touch(t,u) = Touch(u,t) /\ Disjunct(t,u) = Disjunct(u,t)
            /\ Overlap(Rev(t),u) = Overlap(t,u) /\ Enclosed(Rev(t),u) = Enclosed(t,u) /\ Disjunct(t,Rev(u)) = Disjunct(t,u)
(* triangles overlap exactly if some point is inside both: points of the lattice refined by 6, or their crossings and corners say so *)
Imply == P => /\ Congruent(t,u) => Overlap(t,u) /\ ~Enclosed(t,u)
              /\ Enclosed(t,u) => Overlap(t,u) /\ ~Enclosed(u,t) /\ Abs(TriA(u)) < Abs(TriA(t))
              /\ (\E i \in 1..3 : Side(t,u[i]) = 1) => Overlap(t,u)
              /\ Overlap(t,u) => ~Disjunct(t,u)
              /\ (\E x \in (1..3) \X (1..3) : LET a == t[x[1]] b == Nx(t,x[1]) c == u[x[2]] d == Nx(u,x[2]) IN
                    Sgn(Cross(a,b,c)) * Sgn(Cross(a,b,d)) < 0 /\ Sgn(Cross(c,d,a)) * Sgn(Cross(c,d,b)) < 0) => Overlap(t,u)
              /\ (Side([i \in 1..3 |-> Three(t[i])], Mid3(u)) = 1) => Overlap(t,u)
(* separated triangles share at most one piece of a side *)
OnePiece == P /\ Apart(t,u) => Cardinality(CommonSegs(t,u)) <= 1
(* three cases and nothing else *)
Cases == P => Cardinality({x \in {<<"o", Overlap(t,u)>>, <<"t", ~Overlap(t,u) /\ Touch(t,u)>>, <<"d", Disjunct(t,u)>>} : x[2]}) = 1
(* exactly one sequence is the hull, and everything is in it *)
Hull == S # {} /\ Cardinality(HullPts(S)) <= 6 =>
          LET H == HullPts(S) F == {s \in SetToSeqs(H) : HullOk(S, s)} IN
          /\ Cardinality(F) = 1
          /\ \A s \in F : \A p \in S : Side(s,p) >= 0 /\ (p \in H <=> \E i \in DOMAIN s : s[i] = p)
Table == /\ \A d \in 0..359 : Close(Cos(d)*Cos(d) + Sin(d)*Sin(d), 100000000, 20000)
         /\ \A d \in 0..359, e \in {1,30,45,90} : Close(Cos(d+e) * 10000, Cos(d)*Cos(e) - Sin(d)*Sin(e), 25000)
         /\ Cos(0) = 10000 /\ Cos(60) = 5000 /\ Sin(30) = 5000 /\ Sin(-90) = -10000
ASSUME Table
(* line and sphere: touching, crossing, missing *)
Ball(y, r) == [l |-> <<-3,y,0>>, m |-> <<-2,y,0>>, c |-> <<1,0,0>>, rad |-> r]
ASSUME /\ \A y \in -7..7, r \in 1..5 : Sgn(SphereDisc(Ball(y,r))) = Sgn(r*r - y*y)
       /\ SphereOk(Ball(3,5), << <<500,300,0>>, <<-300,300,0>> >>) /\ ~SphereOk(Ball(3,5), << <<-300,300,0>>, <<500,300,0>> >>)
       /\ SphereOk(Ball(5,5), << <<100,500,0>> >>) /\ ~SphereOk(Ball(5,5), <<>>) /\ SphereOk(Ball(6,5), <<>>)
       /\ ~SphereOk(Ball(3,5), << <<510,300,0>>, <<-300,300,0>> >>) /\ ~SphereOk(Ball(3,5), << <<500,303,0>>, <<-300,300,0>> >>)
=============================================================================
