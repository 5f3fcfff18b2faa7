-------------------------------- MODULE Ves --------------------------------
(* Machine of vessels: parts are made, split, joined by knuckles, and put    *)
(* together to a vessel; parts that end a room cut the others; the rooms are *)
(* the bounded faces of the plane graph of all walls.                        *)
EXTENDS Geo

(* part: typ, x (axis), v (level), a, b (half diameter below, above), h, o (orientation of a head), hg (height of a     *)
(* head in the graph), seg: set of <<"W"|"N", p, q>> (empty for curved parts), g: set of edges <<p, q>>                 *)
Edge(p,q)  == IF Lex(p,q) THEN <<p,q>> ELSE <<q,p>>
Sg(w,p,q)  == LET e == Edge(p,q) IN <<w, e[1], e[2]>>
Walls(S)   == {<<s[2], s[3]>> : s \in {z \in S : z[1] = "W"}}
Heads == {"klopper", "korbbogen"}
Shells == {"mantel", "stz"}
Trapez(x, v1, a, v2, b, low) ==
   {Sg("W", <<x+a,v1>>, <<x+b,v2>>), Sg("N", <<x+b,v2>>, <<x-b,v2>>), Sg("W", <<x-b,v2>>, <<x-a,v1>>), Sg(low, <<x-a,v1>>, <<x+a,v1>>)}
Make(op) ==
  LET hg == Hi(op.tenth, (2*op.a) \div 1000)
      seg == CASE op.typ \in Shells -> Trapez(op.x, op.v, op.a, op.v+op.h, op.b, IF op.typ = "stz" THEN "W" ELSE "N")
               [] op.typ \in {"flach", "raumende"} -> {Sg("W", <<op.x-op.a,op.v>>, <<op.x+op.a,op.v>>)}
               [] OTHER -> {} IN
  [typ |-> op.typ, x |-> op.x, v |-> op.v, a |-> op.a, b |-> op.b, h |-> op.h, o |-> op.o, hg |-> hg, seg |-> seg,
   g |-> IF op.typ \in Heads THEN {Edge(<<op.x-op.a,op.v>>, <<op.x,op.v+op.o*hg>>), Edge(<<op.x+op.a,op.v>>, <<op.x,op.v+op.o*hg>>)}
         ELSE Walls(seg)]

(* horizontal cut at level v between x1 and x2 *)
Crosses(e, v, x1, x2) == LET p == e[1] q == e[2] IN
   /\ Lo(p[2],q[2]) < v /\ v < Hi(p[2],q[2])
   /\ LET c == (q[1]-p[1]) * (v-p[2]) d == q[2]-p[2] IN
        Sgn(d)*c > (x1-p[1])*Abs(d) /\ Sgn(d)*c < (x2-p[1])*Abs(d)
AtLevel(e, v) == LET p == e[1] q == e[2] IN <<p[1] + ((q[1]-p[1]) * (v-p[2]) * Sgn(q[2]-p[2])) \div Abs(q[2]-p[2]), v>>
CutSegs(p, v, x1, x2) == {s \in p.seg : s[1] = "W" /\ Crosses(<<s[2],s[3]>>, v, x1, x2)}
CutPart(p, v, x1, x2) ==
  IF p.typ \in Heads THEN p
  ELSE LET C == CutSegs(p, v, x1, x2)
           s == (p.seg \ C) \cup UNION {{Sg("W", c[2], AtLevel(<<c[2],c[3]>>, v)), Sg("W", AtLevel(<<c[2],c[3]>>, v), c[3])} : c \in C} IN
       [p EXCEPT !.seg = s, !.g = IF C = {} THEN @ ELSE Walls(s)]
Big == 100000
MayCut(p, v) == p.typ \notin Heads /\ CutSegs(p, v, -Big, Big) # {}

(* a part that ends a room cuts the walls it crosses and keeps only what is outside of them *)
RECURSIVE CutAll(_,_,_)
CutAll(ps, r, k) ==
  IF k > Len(ps) THEN ps
  ELSE LET p == ps[k]
           w == {e \in ps[r].g : \E s \in p.seg : s[1] = "W" /\ Crosses(<<s[2],s[3]>>, e[1][2], e[1][1], e[2][1])} IN
       IF k = r \/ p.typ \in Heads \/ w = {} THEN CutAll(ps, r, k+1)
       ELSE LET e == CHOOSE e \in w : TRUE
                v == e[1][2]
                C == CutSegs(p, v, e[1][1], e[2][1])
                X == {AtLevel(<<s[2],s[3]>>, v) : s \in C}
                lft == CHOOSE q \in X : \A z \in X : q[1] <= z[1]
                rgt == CHOOSE q \in X : \A z \in X : q[1] >= z[1]
                s2 == {Sg("W", e[1], lft), Sg("N", lft, rgt), Sg("W", rgt, e[2])} IN
            CutAll([ps EXCEPT ![k] = CutPart(p, v, e[1][1], e[2][1]), ![r].seg = s2, ![r].g = Walls(s2)], r, k+1)
Ended(ps) == FoldLeftDomain(LAMBDA acc, r : IF acc[r].typ = "raumende" THEN CutAll(acc, r, 1) ELSE acc, ps, ps)

(* knuckle between the cylinder above and the cone below, perhaps with a shell that carries on below.                   *)
(* n: hypotenuse of the cone; r: radius; t: length of the tangents; hu, ho: length below and above the junction         *)
Krempe(st, op) ==
  LET u == st.parts[op.oben]  k == st.parts[op.kegel]
      dx == k.b - k.a  T == IF op.r = 0 THEN 0 ELSE (op.r * dx) \div (op.n + k.h)
      J == k.v + k.h
      low(y) == <<k.b - (y*dx) \div k.h, J - y>>                 \* on the cone, y below the junction: radius, level
      fp == low((T * k.h) \div op.n)                             \* tangent points
      lp == <<k.b, J + T>>
      lo == IF op.r = 0 \/ op.hu > J - fp[2] THEN low(op.hu) ELSE fp
      up == IF op.r = 0 \/ op.ho > T THEN <<k.b, J + op.ho>> ELSE lp
      R(p) == <<k.x + p[1], p[2]>>
      L(p) == <<k.x - p[1], p[2]>>
      line == IF op.r = 0 THEN <<lo, <<k.b,J>>, up>> ELSE <<lo>> \o (IF lo = fp THEN <<>> ELSE <<fp>>) \o <<lp>> \o (IF up = lp THEN <<>> ELSE <<up>>)
      g == UNION {{Edge(R(line[i]), R(line[i+1])), Edge(L(line[i]), L(line[i+1]))} : i \in 1..(Len(line)-1)}
      seg == IF op.r = 0 THEN {<<"W", e[1], e[2]>> : e \in g} \cup {Sg("N", R(lo), L(lo)), Sg("N", R(up), L(up))} ELSE {}
      top == Trapez(u.x, up[2], up[1], u.v+u.h, u.b, "N")
      con == Trapez(k.x, k.v, k.a, lo[2], lo[1], "N")
      ps1 == [st.parts EXCEPT ![op.oben].seg = top, ![op.oben].g = Walls(top), ![op.kegel].seg = con, ![op.kegel].g = Walls(con)]
      ps2 == IF op.unten = 0 THEN ps1
             ELSE LET w == st.parts[op.unten]
                      s == Trapez(w.x, w.v, w.a, IF op.r = 0 THEN J ELSE lp[2], k.b, IF w.typ = "stz" THEN "W" ELSE "N") IN
                  [ps1 EXCEPT ![op.unten].seg = s, ![op.unten].g = Walls(s)] IN
  [st EXCEPT !.parts = Append(ps2, [typ |-> "krempe", x |-> k.x, v |-> J, a |-> k.b, b |-> k.b, h |-> 0, o |-> 1, hg |-> 0,
                                    seg |-> seg, g |-> g, r |-> op.r, t |-> T, fp |-> fp, lp |-> lp, lo |-> lo, up |-> up])]

(* ren: the names given to rooms so far *)
None == [parts |-> <<>>, built |-> FALSE, ren |-> <<>>]
VesStep1(st, op) ==
  CASE op.k = "part"   -> [st EXCEPT !.parts = Append(@, Make(op)), !.built = FALSE]
    [] op.k = "split"  -> [st EXCEPT !.parts[op.a] = CutPart(@, op.v, -Big, Big), !.built = FALSE]
    [] op.k = "krempe" -> Krempe([st EXCEPT !.built = FALSE], op)
    [] op.k = "build"  -> [parts |-> Ended(st.parts), built |-> TRUE, ren |-> <<>>]
    [] op.k = "rename" -> [st EXCEPT !.ren = Append(@, <<op.a, op.s>>)]
    [] op.k = "lines"  -> [parts |-> [n \in DOMAIN op.l |-> [typ |-> "line", l |-> op.l[n], g |-> {}]], built |-> FALSE, ren |-> <<>>]
    [] op.k = "lmove"  -> [st EXCEPT !.parts[op.a].l = [n \in DOMAIN @ |-> <<@[n][1]+op.x, @[n][2]+op.y, @[n][3]+op.x, @[n][4]+op.y>>]]
    [] op.k = "lmirror" -> [st EXCEPT !.parts[op.a].l = [n \in DOMAIN @ |-> <<2*op.x-@[n][1], @[n][2], 2*op.x-@[n][3], @[n][4]>>]]
    [] OTHER           -> st
-----------------------------------------------------------------------------
(* the plane graph of the walls *)
EdgesOf(st) == UNION {st.parts[i].g : i \in DOMAIN st.parts}
Owners(st, e) == {i \in DOMAIN st.parts : e \in st.parts[i].g}
RECURSIVE PruneE(_)
PruneE(E) == LET loose == {e \in E : \E p \in {e[1],e[2]} : \A f \in E : f # e => p \notin {f[1],f[2]}} IN
             IF loose = {} THEN E ELSE PruneE(E \ loose)
Darts(E) == E \cup {<<e[2],e[1]>> : e \in E}
(* the next side of the face on the left: at the end turn as far left as possible, that is first clockwise from where one came *)
Class(u,v) == LET c == VX(v,u) IN IF c > 0 THEN 0 ELSE IF c < 0 THEN 2 ELSE IF VD(u,v) < 0 THEN 1 ELSE 3
Sooner(u,v,w) == Class(u,v) < Class(u,w) \/ (Class(u,v) = Class(u,w) /\ VX(w,v) > 0)
NextDart(D, d) == LET b == d[2] u == Sub(d[1],b) c == {f \in D : f[1] = b} IN
                  CHOOSE f \in c : \A g \in c : g = f \/ Sooner(u, Sub(f[2],b), Sub(g[2],b))
RECURSIVE OrbitFrom(_,_,_)
OrbitFrom(nx, acc, d) == IF d \in acc THEN acc ELSE OrbitFrom(nx, acc \cup {d}, nx[d])
RECURSIVE Orbits(_,_)
Orbits(nx, D) == IF D = {} THEN {} ELSE LET o == OrbitFrom(nx, {}, CHOOSE d \in D : TRUE) IN {o} \cup Orbits(nx, D \ o)
FacesOf(E) == LET D == Darts(E) nx == [d \in D |-> NextDart(D, d)] IN Orbits(nx, D)
FaceArea2(f) == LET b == (CHOOSE d \in f : TRUE)[1] IN FoldSet(LAMBDA d, acc : acc + VX(Sub(d[1],b), Sub(d[2],b)), 0, f)
RoomsOf(E) == {f \in FacesOf(PruneE(E)) : FaceArea2(f) > 0}
Und(f) == {Edge(d[1],d[2]) : d \in f}
PtsOf(f) == {d[1] : d \in f} \cup {d[2] : d \in f}
(* inside a face, which is a polygon: 1, 0 on it, -1 outside *)
FaceSide(f, p) == IF \E d \in f : OnSeg(d[1],d[2],p) THEN 0
                  ELSE IF Cardinality({d \in f : LET a == d[1] b == d[2] IN
                             (a[2] > p[2]) # (b[2] > p[2]) /\ (Cross(a,b,p) > 0) = (b[2] > a[2])}) % 2 = 1 THEN 1 ELSE -1
Within(f, g) == f # g /\ \A p \in PtsOf(g) : FaceSide(f,p) = 1
(* no walls crossing or overlapping, every wall has different faces on its sides *)
Proper(E) == /\ \A e, f \in E : e # f => LET c == CommonPart(e[1],e[2],f[1],f[2]) IN
                  c.kind = "none" \/ (c.kind = "P" /\ {e[1],e[2]} \cap {f[1],f[2]} # {})
SingleOwner(st) == \A e \in EdgesOf(st) : Cardinality(Owners(st,e)) = 1
(* graph: what all queries about rooms need *)
Ctx(st) == LET E == EdgesOf(st) rooms == RoomsOf(E) IN [rooms |-> rooms, own |-> [e \in E |-> CHOOSE i \in DOMAIN st.parts : e \in st.parts[i].g]]
OwnersF(c, f) == {c.own[e] : e \in Und(f)}
Inner(c, f)   == {g \in c.rooms : Within(f,g)}
(* what stands directly in a room: not what is inside of that *)
InnerEdges(c, f) == LET J == Inner(c,f) I == {g \in J : ~\E h \in J : Within(h,g)} IN {d \in UNION I : <<d[2],d[1]>> \notin UNION I}
InnerWalls(c, f) == {c.own[Edge(d[1],d[2])] : d \in InnerEdges(c,f)}
(* the sides of walls that face the room: its own sides, and the back sides of those inside of it *)
Facing(c, f) == f \cup {<<d[2],d[1]>> : d \in InnerEdges(c,f)}
(* which side of the part the left side of a dart is *)
SideOf(p, d) == LET l == <<d[1][2]-d[2][2], d[2][1]-d[1][1]>> IN
   CASE p.typ = "raumende" -> "none"
     [] p.typ = "flach"    -> "indifferent"
     [] p.typ \in Heads    -> IF (l[2] < 0) = (p.o = 1) THEN "innenraum" ELSE "aussenraum"
     [] OTHER -> IF d[1][2] = d[2][2] THEN "none"
                 ELSE IF (l[1] > 0) = (d[1][1] + d[2][1] < 2*p.x) THEN "innenraum" ELSE "aussenraum"
(* sharp knuckles: what is outside of them depends on the points looked at, they may be beyond the shell below *)
Corner(p) == p.typ = "krempe" /\ p.r = 0
Faces3(st, c, i, what) == {f \in c.rooms : \E d \in Facing(c,f) : c.own[Edge(d[1],d[2])] = i /\ SideOf(st.parts[i], d) = what}
-----------------------------------------------------------------------------
(* observations *)
PartView(p) == IF p.typ = "line" THEN [seg |-> ToSet(p.l), g |-> {}] ELSE [seg |-> {<<s[1], s[2][1], s[2][2], s[3][1], s[3][2]>> : s \in p.seg}, g |-> {e[1] \o e[2] : e \in p.g}]
Obs(o) == [n \in DOMAIN o |-> [seg |-> ToSet(o[n].seg), g |-> ToSet(o[n].g)]]
NoDup(o) == \A n \in DOMAIN o : Cardinality(ToSet(o[n].seg)) = Len(o[n].seg) /\ Cardinality(ToSet(o[n].g)) = Len(o[n].g)
AsEdges(r) == {<<SubSeq(x,1,2), SubSeq(x,3,4)>> : x \in ToSet(r)}
FaceWith(c, r) == LET m == {f \in c.rooms : Und(f) = AsEdges(r)} IN IF m = {} THEN {} ELSE CHOOSE f \in m : TRUE
Near(a,b,tol) == Abs(a-b) <= tol

(* curved heads: diameter 10000, origin on the axis at the upper end of the cylindrical part; hs: its length *)
HeadR(t) == IF t = "klopper" THEN <<10000, 1000, 8062>> ELSE <<8000, 1540, 5455>>     \* crown, knuckle, depth of the centre
HeadOk(p, r) ==
  LET k == HeadR(p.typ) v == r.pts n == Len(v) o == p.o IN
  /\ n = 17 /\ r.walls = 16
  /\ \A i \in 1..17 : LET x == v[i][1] y == v[i][2] IN
       IF i \in {1, 17} THEN Near(Abs(x), 5000, 2) /\ Near(y, -o*r.hs, 2)
       ELSE IF i \in {2, 16} THEN Near(Abs(x), 5000, 2) /\ Near(y, 0, 2)
       ELSE /\ o*y > 0
            /\ (i \in 5..13 => Near((x*x + (o*y + k[3])*(o*y + k[3])) \div 1000, (k[1]*k[1]) \div 1000, 60))
            /\ (i \in {3,4,5,13,14,15} => LET m == 5000 - k[2] IN
                  Near(((Abs(x)-m)*(Abs(x)-m) + y*y) \div 100, (k[2]*k[2]) \div 100, 80))
  /\ \A i \in 1..17 : Near(v[i][1], -v[18-i][1], 2) /\ Near(v[i][2], v[18-i][2], 2)        \* symmetric
  /\ \A i \in 5..11 : Near(Dist2(v[i],v[i+1]) \div 100, Dist2(v[i+1],v[i+2]) \div 100, 300)     \* equal steps
  /\ \A i \in 2..3  : Near(Dist2(v[i],v[i+1]) \div 100, Dist2(v[i+1],v[i+2]) \div 100, 100)
  /\ \A i \in 1..16 : o*v[i][1] >= o*v[i+1][1]

(* curved knuckles, coordinates relative to the axis and the junction, in 1/100: right side from below *)
KrempeOk(p, r) ==
  LET H(q) == <<100*q[1], 100*(q[2]-p.v)>>
      v == r.right n == Len(v)
      i0 == IF p.lo = p.fp THEN 1 ELSE 2
      cx == 100*(p.a - p.r) cy == 100*p.t
      Pt(a, b) == Near(a[1],b[1],2) /\ Near(a[2],b[2],2) IN
  /\ n = 4 + (IF p.lo = p.fp THEN 0 ELSE 1) + (IF p.up = p.lp THEN 0 ELSE 1)
  /\ Pt(v[1], H(p.lo)) /\ Pt(v[i0], H(p.fp)) /\ Pt(v[i0+3], H(p.lp)) /\ Pt(v[n], H(p.up))
  /\ \A i \in i0..(i0+3) : Near(((v[i][1]-cx)*(v[i][1]-cx) + (v[i][2]-cy)*(v[i][2]-cy)) \div 100, 100*p.r*p.r, 10 + 6*p.r)
  /\ \A i \in i0..(i0+1) : Near(Dist2(v[i],v[i+1]) \div 100, Dist2(v[i+1],v[i+2]) \div 100, 10 + 6*p.r)
  /\ r.left = [i \in DOMAIN v |-> <<-v[i][1], v[i][2]>>]
  /\ r.nonwalls = 2

(* sample points at a wall: <<height along it in 1/1000, distance away from the axis in 1/10^7 of the diameter>> *)
ShellSamples(p, q) == /\ Len(q.int) > 0 /\ Len(q.ext) > 0 /\ Len(q.ind) = 0
                      /\ \A s \in ToSet(q.int) : s[1] \in 0..1000 /\ s[2] < 0 /\ s[2] > -100000
                      /\ \A s \in ToSet(q.ext) : s[1] \in 0..1000 /\ s[2] > 0 /\ s[2] < 100000
(* at a head: distance from the axis towards the wall in 1/1000 of the diameter, height in 1/1000 of the graph's *)
HeadSamples(q) == /\ Len(q.int) > 0 /\ Len(q.ext) > 0 /\ Len(q.ind) = 0
                  /\ \A s \in ToSet(q.int) : s[1] > 0 /\ s[2] > 0 /\ 2*s[1] + s[2] < 1000
                  /\ \A s \in ToSet(q.ext) : s[1] > 0 /\ s[1] < 500 /\ s[2] > 0 /\ s[2] < 1000 /\ 2*s[1] + s[2] > 1000
FlatSamples(q) == /\ Len(q.int) = 0 /\ Len(q.ext) = 0
                  /\ \A s \in ToSet(q.ind) : Abs(s[1]) < 500 /\ Abs(s[2]) <= 20
                  /\ (\E s \in ToSet(q.ind) : s[2] > 0) /\ \E s \in ToSet(q.ind) : s[2] < 0
SamplesOk(p, r) ==
  /\ {x.e[1] \o x.e[2] : x \in {[e |-> <<SubSeq(r[n].e,1,2), SubSeq(r[n].e,3,4)>>] : n \in DOMAIN r}} = {e[1] \o e[2] : e \in p.g}
  /\ \A n \in DOMAIN r : LET q == r[n] IN
       CASE p.typ \in Heads -> HeadSamples(q)
         [] p.typ = "flach" -> FlatSamples(q)
         [] p.typ = "raumende" -> Len(q.int) = 0 /\ Len(q.ext) = 0 /\ Len(q.ind) = 0
         [] OTHER -> q.e[2] = q.e[4] \/ ShellSamples(p, q)

Renaming(S, T) == {f \in [S -> T] : \A x, y \in S : x # y => f[x] # f[y]}
(* dictionaries: sequences over the parts of <<rooms inside, rooms outside, indifferent>> *)
DictRooms(d) == UNION {ToSet(d[i][j]) : i \in DOMAIN d, j \in 1..3}
SameUpTo(d, e, f) == \A i \in DOMAIN d, j \in 1..3 : {f[x] : x \in ToSet(d[i][j])} = ToSet(e[i][j])
Matches(d, e) == IF Len(d) # Len(e) THEN {} ELSE {f \in Renaming(DictRooms(d), DictRooms(e)) : SameUpTo(d, e, f)}

(* group of polylines, or of the graphs of the parts *)
SegsOf(st)   == UNION {IF p.typ = "line" THEN ToSet(p.l) ELSE {e[1] \o e[2] : e \in p.g} : p \in ToSet(st.parts)}
GPts(st)     == UNION {{SubSeq(s,1,2), SubSeq(s,3,4)} : s \in SegsOf(st)}
GNeigh(st,p) == {q \in GPts(st) : q # p /\ (p \o q \in SegsOf(st) \/ q \o p \in SegsOf(st))}
Degree(st,p) == FoldSeq(LAMBDA x, acc : acc + Cardinality({n \in DOMAIN x.l : p \in {SubSeq(x.l[n],1,2), SubSeq(x.l[n],3,4)}}), 0, st.parts)
(* no loose ends, at least a triangle, an even number of branches, of three sides at most *)
GValid(st)   == LET d == [p \in GPts(st) |-> Degree(st,p)]  n(k) == Cardinality({p \in GPts(st) : d[p] = k}) IN
                n(1) = 0 /\ n(2) >= 3 /\ n(3) % 2 = 0 /\ \A p \in GPts(st) : d[p] <= 3

RoomName(st, n) == LET m == {k \in DOMAIN st.ren : st.ren[k][1] = n} IN
                   IF m = {} THEN "R" \o ToString(n) ELSE st.ren[CHOOSE k \in m : \A j \in m : j <= k][2]
VesAns(st, c, q, r) ==
  CASE q.k = "head"      -> HeadOk(st.parts[q.a], r)
    [] q.k = "kshape"    -> KrempeOk(st.parts[q.a], r)
    [] q.k = "samples"   -> SamplesOk(st.parts[q.a], r)
    [] q.k = "size"      -> r = Lo(st.parts[q.a].a, IF st.parts[q.a].typ \in Shells THEN st.parts[q.a].b ELSE st.parts[q.a].a)
    [] q.k = "pvalid"    -> r = (st.parts[q.a].typ \notin Shells \/ Cardinality(st.parts[q.a].g) = 2)     \* not split: two walls
    [] q.k = "bottom"    -> LET p == st.parts[q.a] IN r = (q.p[2] = p.v /\ Abs(q.p[1]-p.x) < p.a)    \* on it, not an end
    [] q.k = "attrs"     -> LET p == st.parts[q.a] IN r = <<p.x, p.v, p.a>>
    [] q.k = "gname"     -> r
    [] q.k = "missing"   -> r = "Exception"
    [] q.k = "unknown"   -> r = "AssertionError"
    [] q.k = "checker"   -> r = (Cardinality(Matches(q.d, q.e)) = 1)
    [] q.k = "rooms"     -> /\ {AsEdges(r[n]) : n \in DOMAIN r} = {Und(f) : f \in c.rooms}
                            /\ Len(r) = Cardinality(c.rooms)
    [] q.k = "rnames"    -> r = [n \in 1..Cardinality(c.rooms) |-> RoomName(st, n)]
    [] q.k = "outer"     -> \A n \in DOMAIN r : FaceWith(c, r[n].e) # {} /\ ToSet(r[n].w) = OwnersF(c, FaceWith(c, r[n].e))
                                                /\ Len(r[n].w) = Cardinality(ToSet(r[n].w))
    [] q.k = "inner"     -> \A n \in DOMAIN r : FaceWith(c, r[n].e) # {} /\ ToSet(r[n].w) = InnerWalls(c, FaceWith(c, r[n].e))
    [] q.k = "whole"     -> \A n \in DOMAIN r : LET f == FaceWith(c, r[n].e) IN
                               f # {} /\ ToSet(r[n].w) = OwnersF(c, f) \cup InnerWalls(c, f)
    [] q.k = "sic"       -> \A n \in DOMAIN r : ToSet(r[n].w) = OwnersF(c, FaceWith(c, r[n].e)) /\ Len(r[n].w) = Cardinality(ToSet(r[n].w))
    [] q.k = "contained" -> \A n \in DOMAIN r : {FaceWith(c, q.e[m]) : m \in ToSet(r[n])} = Inner(c, FaceWith(c, q.e[n]))
    [] q.k = "overlaps"  -> LET want == {<<i,j>> \in (DOMAIN q.e) \X (DOMAIN q.e) :
                                           i < j /\ OwnersF(c, FaceWith(c,q.e[i])) \cap OwnersF(c, FaceWith(c,q.e[j])) # {}} IN
                            /\ {<<r[n].i, r[n].j>> : n \in DOMAIN r} = want /\ Len(r) = Cardinality(want)
                            /\ \A n \in DOMAIN r : ToSet(r[n].w) = OwnersF(c, FaceWith(c,q.e[r[n].i])) \cap OwnersF(c, FaceWith(c,q.e[r[n].j]))
    [] q.k = "allover"   -> ToSet(r) = UNION {OwnersF(c,f) \cap OwnersF(c,g) : <<f,g>> \in {x \in c.rooms \X c.rooms : x[1] # x[2]}}
    [] q.k = "intex"     -> \A i \in DOMAIN st.parts :                    \* room numbers by side, rooms: q.e
                              /\ {FaceWith(c, q.e[m]) : m \in ToSet(r[i].innenraum)} = Faces3(st, c, i, "innenraum")
                              /\ LET w == {FaceWith(c, q.e[m]) : m \in ToSet(r[i].aussenraum)} IN
                                   w = Faces3(st, c, i, "aussenraum") \/ (Corner(st.parts[i]) /\ w = {})
                              /\ {FaceWith(c, q.e[m]) : m \in ToSet(r[i].indifferent)} = Faces3(st, c, i, "indifferent")
    [] q.k = "rgraph"    -> \A n \in DOMAIN r : LET f == FaceWith(c, r[n].e) IN
                               f # {} /\ AsEdges(r[n].w) = UNION {st.parts[i].g : i \in OwnersF(c, f) \cup InnerWalls(c, f)}
    [] q.k = "rcycle"    -> \A n \in DOMAIN r :                            \* outline of a room, if its walls end there
                               LET f == FaceWith(c, r[n].e)  E == UNION {st.parts[i].g : i \in OwnersF(c, f)} IN
                               f # {} /\ (PruneE(E) = Und(f) => AsEdges(r[n].w) = Und(f) /\ Len(r[n].w) = Cardinality(f) /\ r[n].closed)
    [] q.k = "numbered"  -> LET P == GPts(st) IN                         \* every point one number, 0, 1, 2...
                            /\ {SubSeq(x,1,2) : x \in ToSet(r)} = P /\ Len(r) = Cardinality(P)
                            /\ {x[3] : x \in ToSet(r)} = 0..(Cardinality(P)-1)
    [] q.k = "adj"       -> /\ {x.p : x \in ToSet(r)} = GPts(st) /\ Len(r) = Cardinality(GPts(st))
                            /\ \A x \in ToSet(r) : ToSet(x.n) = GNeigh(st, x.p)
    [] q.k = "edgelist"  -> /\ {Edge(SubSeq(x,1,2), SubSeq(x,3,4)) : x \in ToSet(r)} = {Edge(SubSeq(x,1,2), SubSeq(x,3,4)) : x \in SegsOf(st)}
                            /\ (st.parts[1].typ = "line" => /\ ToSet(r) = SegsOf(st)
                                                            /\ Len(r) = Len(FlattenSeq([n \in DOMAIN st.parts |-> st.parts[n].l])))
    [] q.k = "degree"    -> \A x \in ToSet(r) : x.n = Degree(st, x.p)
    [] q.k = "frompts"   -> ToSet(r) = {n \in DOMAIN st.parts : \E s \in ToSet(st.parts[n].l) : {SubSeq(s,1,2), SubSeq(s,3,4)} \subseteq ToSet(q.p)}
                            /\ Len(r) = Cardinality(ToSet(r))
    [] q.k = "allsegs"   -> r = FlattenSeq([n \in DOMAIN st.parts |-> st.parts[n].l])
    [] q.k = "gvalid"    -> r = (GValid(st) /\ \A n \in DOMAIN q.pv : q.pv[n])
    [] q.k \in {"repeats", "anew"} -> r
    [] q.k = "repr"      -> r
    [] OTHER             -> FALSE

VesStart(s) == None
VesStep(st, ev) == VesStep1(st, ev.op)
Room == {"rooms", "rnames", "outer", "inner", "whole", "sic", "contained", "overlaps", "allover", "intex", "rgraph", "rcycle"}
VesFails(st, s2, ev) ==
  LET c == IF s2.built /\ \E n \in DOMAIN ev.q : ev.q[n].k \in Room THEN Ctx(s2) ELSE [rooms |-> {}, own |-> <<>>]
      v == [n \in DOMAIN s2.parts |-> PartView(s2.parts[n])] IN
  (IF ev.ok /\ Obs(ev.obs) = v /\ NoDup(ev.obs) THEN {} ELSE {"state." \o ev.op.k})
  \cup (IF ev.op.k = "split" /\ ev.ok /\ ev.ret # MayCut(st.parts[ev.op.a], ev.op.v) THEN {"ret"} ELSE {})
  \cup {ev.q[n].k : n \in {m \in DOMAIN ev.q : ~(ev.q[m].ok /\ VesAns(s2, c, ev.q[m], ev.q[m].r))}}
VesSync(s2, ev) == s2
=============================================================================
