-------------------------------- MODULE Geo --------------------------------
(* Exact plane geometry on the integer lattice.  A point is <<x, y>>.        *)
(* Every coordinate of the code is a lattice integer times a unit that only  *)
(* the harness knows, so all operators below are exact and unit free.        *)
(* Only differences of coordinates are multiplied: TLC integers are 32 bit.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Abs(x)  == IF x < 0 THEN -x ELSE x
Sgn(x)  == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Lo(a,b) == IF a < b THEN a ELSE b
Hi(a,b) == IF a < b THEN b ELSE a

Sub(a,b) == <<a[1]-b[1], a[2]-b[2]>>
Add(a,b) == <<a[1]+b[1], a[2]+b[2]>>
VX(u,v)  == u[1]*v[2] - u[2]*v[1]          \* cross product of vectors
VD(u,v)  == u[1]*v[1] + u[2]*v[2]          \* dot product of vectors
Cross(o,a,b) == VX(Sub(a,o), Sub(b,o))     \* > 0: o,a,b turns left
Dist2(a,b) == VD(Sub(a,b), Sub(a,b))

Lex(a,b)    == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
LexMin(a,b) == IF Lex(a,b) THEN a ELSE b
LexMax(a,b) == IF Lex(a,b) THEN b ELSE a
SortPts(S)  == SetToSortSeq(S, Lex)

InBox(a,b,p) == /\ Lo(a[1],b[1]) <= p[1] /\ p[1] <= Hi(a[1],b[1])
                /\ Lo(a[2],b[2]) <= p[2] /\ p[2] <= Hi(a[2],b[2])
OnSeg(a,b,p) == Cross(a,b,p) = 0 /\ InBox(a,b,p)

-----------------------------------------------------------------------------
(* Rationals are <<n, d>>, d > 0.  RatEq compares an observed rational with  *)
(* base + num/den without large products.                                    *)
RatIs(r, base, num, den) == r[2] > 0 /\ (r[1] - base*r[2]) * den = num * r[2]

(* Common part of segments ab and cd (a # b, c # d):                         *)
(*   kind "none" | "P": the point a + t/den * (b-a) | "S": the segment lo-hi *)
CommonPart(a,b,c,d) ==
  LET r == Sub(b,a)  s == Sub(d,c)  den == VX(r,s)  ca == Sub(c,a) IN
  IF den = 0
  THEN IF VX(r,ca) # 0 THEN [kind |-> "none"]
       ELSE LET lo == LexMax(LexMin(a,b), LexMin(c,d))
                hi == LexMin(LexMax(a,b), LexMax(c,d)) IN
            IF lo = hi THEN [kind |-> "P", t |-> VD(Sub(lo,a), r), den |-> VD(r,r)]
            ELSE IF Lex(lo,hi) THEN [kind |-> "S", lo |-> lo, hi |-> hi]
            ELSE [kind |-> "none"]
  ELSE LET t == Sgn(den) * VX(ca,s)  u == Sgn(den) * VX(ca,r)  D == Abs(den) IN
       IF 0 <= t /\ t <= D /\ 0 <= u /\ u <= D
       THEN [kind |-> "P", t |-> t, den |-> D]
       ELSE [kind |-> "none"]

(* the point where the lines meet: a + t/den*(b-a); den = 0: parallel        *)
LineMeet(a,b,c,d) ==
  LET r == Sub(b,a)  s == Sub(d,c)  den == VX(r,s) IN
  [t |-> Sgn(den) * VX(Sub(c,a), s), den |-> Abs(den)]

(* do the segments have any point in common?                                 *)
Meet(a,b,c,d) == CommonPart(a,b,c,d).kind # "none"

(* an observed point <<rx, ry>> of rationals is a + t/den*(b-a)              *)
PtIs(o, a, b, t, den) == /\ RatIs(o[1], a[1], t*(b[1]-a[1]), den)
                         /\ RatIs(o[2], a[2], t*(b[2]-a[2]), den)
PtEq(o, p) == PtIs(o, p, p, 0, 1)

-----------------------------------------------------------------------------
(* Polygons: cyclic sequences of vertices                                    *)
Nx(v,i)  == v[IF i = Len(v) THEN 1 ELSE i+1]
Area2(v) == FoldLeftDomain(LAMBDA acc, i : acc + VX(Sub(v[i],v[1]), Sub(Nx(v,i),v[1])), 0, v)

(* +1 inside, 0 on the boundary, -1 outside (v simple)                       *)
Side(v,p) ==
  IF \E i \in DOMAIN v : OnSeg(v[i], Nx(v,i), p) THEN 0
  ELSE LET cr == {i \in DOMAIN v : LET a == v[i] b == Nx(v,i) IN
                   /\ (a[2] > p[2]) # (b[2] > p[2])
                   /\ (Cross(a,b,p) > 0) = (b[2] > a[2])} IN
       IF Cardinality(cr) % 2 = 1 THEN 1 ELSE -1

(* simple: distinct vertices, neighbours share just the vertex, others are disjoint *)
SimplePoly(v) ==
  /\ Len(v) >= 3
  /\ \A i, j \in DOMAIN v : i < j => v[i] # v[j]
  /\ \A i, j \in DOMAIN v : i < j =>
       LET a == v[i] b == Nx(v,i) c == v[j] d == Nx(v,j) IN
       IF j = i+1 THEN ~OnSeg(a,b,d) /\ ~OnSeg(c,d,a)
       ELSE IF i = 1 /\ j = Len(v) THEN ~OnSeg(a,b,c) /\ ~OnSeg(c,d,b)
       ELSE ~Meet(a,b,c,d)

Turn(v,i)     == LET n == Nx(v,i) IN Cross(v[i], n, Nx(v, IF i = Len(v) THEN 1 ELSE i+1))
ConvexPoly(v) == LET s == {Sgn(Turn(v,i)) : i \in DOMAIN v} IN ~({1,-1} \subseteq s)
Clockwise(v)  == Area2(v) < 0

(* vertices of the convex hull: points not inside a triangle or segment of the others *)
HullPts(S) ==
  {p \in S : \E q \in S \ {p} :
     (* p is extreme: some line through p has everything strictly on one side or on the ray *)
     /\ \A r \in S \ {p} : Cross(p,q,r) >= 0
     /\ \A r \in S \ {p} : Cross(p,q,r) = 0 => VD(Sub(q,p), Sub(r,p)) > 0}
=============================================================================
