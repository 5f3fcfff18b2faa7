-------------------------------- MODULE Shp --------------------------------
(* Machine of a set of triangles that are moved about, their relative        *)
(* positions, and what the builders of outlines have to return: hulls,       *)
(* squares, node lines, circular arcs, rotation matrices.                    *)
EXTENDS Poly
(* state: sequence of triangles, a triangle is a sequence of three points    *)
ShpStep1(st, op) ==
  CASE op.k = "new"    -> op.t
    [] op.k = "move"   -> [st EXCEPT ![op.a] = [i \in 1..3 |-> Add(@[i], <<op.x,op.y>>)]]
    [] op.k = "mirror" -> [st EXCEPT ![op.a] = [i \in 1..3 |-> <<2*op.x - @[i][1], @[i][2]>>]]
    [] op.k = "rotxy"  -> [st EXCEPT ![op.a] = [i \in 1..3 |-> Turned(@[i], <<op.x,op.y>>, op)]]
    [] op.k = "setpt"  -> [st EXCEPT ![op.a] = [i \in 1..3 |-> IF @[i] = op.p THEN op.w ELSE @[i]]]
    [] OTHER           -> st
TriView(st) == [n \in DOMAIN st |-> SortPts(ToSet(st[n]))]

Overlap(t,u)   == ~Apart(t,u)
Congruent(t,u) == ToSet(t) = ToSet(u)
Enclosed(t,u)  == \A i \in 1..3 : Side(t,u[i]) = 1
CommonSegs(t,u) == {x \in (1..3) \X (1..3) : CommonPart(t[x[1]], Nx(t,x[1]), u[x[2]], Nx(u,x[2])).kind = "S"}
Touch(t,u)     == Cardinality(CommonSegs(t,u)) = 1
(* disjunct: neither inside nor along the sides anything but single points in common *)
Disjunct(t,u)  == Apart(t,u) /\ CommonSegs(t,u) = {}

CornerMeasure(t,i) == LET p == t[i] q == Nx(t,i) r == Nx(t, IF i = 3 THEN 1 ELSE i+1) IN
                      <<VD(Sub(q,p),Sub(r,p)), Abs(VX(Sub(q,p),Sub(r,p)))>>
Perm3 == {p \in [1..3 -> 1..3] : \A i, j \in 1..3 : i # j => p[i] # p[j]}

(* 10000 * cos of 0..90 degrees *)
CosT == <<10000,9998,9994,9986,9976,9962,9945,9925,9903,9877,9848,9816,9781,9744,9703,9659,9613,9563,9511,9455,9397,9336,9272,9205,9135,9063,8988,8910,8829,8746,8660,8572,8480,8387,8290,8192,8090,7986,7880,7771,7660,7547,7431,7314,7193,7071,6947,6820,6691,6561,6428,6293,6157,6018,5878,5736,5592,5446,5299,5150,5000,4848,4695,4540,4384,4226,4067,3907,3746,3584,3420,3256,3090,2924,2756,2588,2419,2250,2079,1908,1736,1564,1392,1219,1045,872,698,523,349,175,0>>
Cos(d) == LET a == ((d % 360) + 360) % 360 IN
          IF a <= 90 THEN CosT[a+1] ELSE IF a <= 180 THEN -CosT[181-a] ELSE IF a <= 270 THEN -CosT[a-179] ELSE CosT[361-a]
Sin(d) == Cos(d - 90)
Close(a,b,tol) == Abs(a-b) <= tol

(* hull: counter-clockwise, from the lexicographically smallest point, true corners only *)
HullOk(S, r) == LET H == HullPts(S) IN
  /\ ToSet(r) = H /\ Len(r) = Cardinality(H)
  /\ \A p \in S : p = r[1] \/ Lex(r[1], p)
  /\ \A i \in DOMAIN r : Turn(r,i) > 0 /\ \A p \in S : Cross(r[i], Nx(r,i), p) >= 0
NodeLine(n, cw) == LET m == IF cw THEN <<n[1]>> \o Reverse(Tail(n)) ELSE n IN
                   [k \in 1..(Len(m)-1) |-> m[k] \o m[k+1]]
SquareLine(q) == LET a == q.a x == q.x y == q.y          \* a: half of the side
                     n == << <<x,y>>, <<x+a,y>>, <<x+a,y+2*a>>, <<x-a,y+2*a>>, <<x-a,y>> >>
                     l == NodeLine(n, q.cw) IN
                 Append(l, SubSeq(l[4],3,4) \o <<x,y>>)
(* arc: n equal steps from a to b degrees around <<x,y>>, coordinates in 1/10000 *)
ArcOk(q, r) == /\ Len(r) = q.n + 1
               /\ \A k \in DOMAIN r : LET d == q.a + ((q.b - q.a) * (k-1)) \div q.n IN
                    /\ Close(r[k][1], q.rad * Cos(d), q.rad + 2)
                    /\ Close(r[k][2], q.rad * Sin(d), q.rad + 2)
(* line and sphere: points in 1/100, the one further along the line first *)
D3(a,b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
S3(a,b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>
X3(a,b) == <<a[2]*b[3]-a[3]*b[2], a[3]*b[1]-a[1]*b[3], a[1]*b[2]-a[2]*b[1]>>
H3(a) == <<100*a[1], 100*a[2], 100*a[3]>>
(* sign tells how many points: quarter of the discriminant *)
SphereDisc(q) == LET d == S3(q.m, q.l) f == S3(q.l, q.c) h == D3(d,f) IN h*h - D3(d,d) * (D3(f,f) - q.rad*q.rad)
SphereOk(q, r) ==
  LET d == S3(q.m, q.l) n == Sgn(SphereDisc(q)) + 1 IN
  /\ Len(r) = n
  /\ \A i \in DOMAIN r : LET f == S3(r[i], H3(q.c)) x == X3(S3(r[i], H3(q.l)), d) IN
        /\ Close(D3(f,f), 10000*q.rad*q.rad, 400*q.rad + 10)
        /\ \A k \in 1..3 : Abs(x[k]) <= Abs(d[1]) + Abs(d[2]) + Abs(d[3])
  /\ n = 2 => D3(S3(r[1], r[2]), d) > 0
ShpAns(st, q, r) ==
  CASE q.k = "overlap"   -> r = Overlap(st[q.a], st[q.b])
    [] q.k = "congruent" -> r = Congruent(st[q.a], st[q.b])
    [] q.k = "enclosed"  -> r = Enclosed(st[q.a], st[q.b])
    [] q.k = "ttouch"    -> r = Touch(st[q.a], st[q.b])
    [] q.k = "tdisj"     -> r = Disjunct(st[q.a], st[q.b])
    [] q.k = "relpos"    -> LET s == st[q.a] t == st[q.b] IN    \* what is told of them is what holds
                            /\ Len(r) = Cardinality(ToSet(r))
                            /\ ToSet(r) = {x \in {"touch", "overlap", "disjunct", "enclosed", "congruent"} :
                                  CASE x = "touch" -> Touch(s,t) [] x = "overlap" -> Overlap(s,t) [] x = "disjunct" -> Disjunct(s,t)
                                    [] x = "enclosed" -> Enclosed(s,t) [] OTHER -> Congruent(s,t)}
    [] q.k = "tarea2"    -> r = Abs(TriA(st[q.a]))
    [] q.k = "istri"     -> r
    [] q.k = "accepted"  -> r = (Cross(q.t[1], q.t[2], q.t[3]) # 0)
    [] q.k = "angles"    -> \E p \in Perm3 : \A i \in 1..3 : r[i][p[i]] = CornerMeasure(SortPts(ToSet(st[q.a])), p[i])
    [] q.k = "quality"   -> /\ Close(r[1][1] + r[1][2] + r[1][3], 180000000, 5)
                            /\ Close(r[2], Abs(r[1][1]-60000000) + Abs(r[1][2]-60000000) + Abs(r[1][3]-60000000), 10)
    [] q.k = "pdisj"     -> /\ Tiles(q.v, q.t) /\ Tiles(q.w, q.u)
                            /\ r = \A i \in DOMAIN q.t, j \in DOMAIN q.u : Apart(q.t[i], q.u[j])
    [] q.k = "hull"      -> HullOk(ToSet(q.p), r)
    [] q.k = "nodes"     -> r = NodeLine(q.p, q.cw)
    [] q.k = "chain"     -> LET s == SortPts(ToSet(q.p))       \* points on a line: from one end to the other
                                c == [i \in 1..Len(s)-1 |-> s[i] \o s[i+1]]  b == [i \in 1..Len(s)-1 |-> s[Len(s)-i+1] \o s[Len(s)-i]] IN r \in {c, b}
    [] q.k = "square"    -> r = SquareLine(q)
    [] q.k = "arc"       -> ArcOk(q, r)
    [] q.k = "arcshape"  -> r[1] /\ r[2] = (q.b - q.a = 360)         \* continuous and valid; closed exactly for a full circle
    [] q.k = "rotm"      -> /\ Close(r[1][1], Cos(q.d), 2) /\ Close(r[2][2], Cos(q.d), 2)
                            /\ Close(r[1][2], Sin(q.d), 2) /\ Close(r[2][1], -Sin(q.d), 2)
    [] q.k = "sphere"    -> SphereOk(q, r)
    [] OTHER             -> FALSE
ShpStart(s) == <<>>
ShpStep(st, ev) == ShpStep1(st, ev.op)
ShpFails(st, s2, ev) == (IF ev.ok /\ ev.obs = TriView(s2) THEN {} ELSE {"state"})
                        \cup {ev.q[n].k : n \in {m \in DOMAIN ev.q : ~(ev.q[m].ok /\ ShpAns(s2, ev.q[m], ev.q[m].r))}}
ShpSync(s2, ev) == IF ~ev.ok \/ ev.obs = TriView(s2) THEN s2 ELSE ev.obs
=============================================================================
