------------------------------ MODULE MC_Poly ------------------------------
(* All simple polygons with up to K vertices on a (N+1) x (N+1) lattice,     *)
(* grown vertex by vertex, and the laws their answers obey.                  *)
EXTENDS Poly
CONSTANTS N0, K
VARIABLE v
L == (0..N0) \X (0..N0)
Init == v \in {<<a,b,c>> : a \in L, b \in L, c \in L} /\ SimplePoly(v)
Next == /\ Len(v) < K
        /\ \E i \in 1..Len(v), p \in L : /\ v' = SubSeq(v,1,i) \o <<p>> \o SubSeq(v,i+1,Len(v))
                                          /\ SimplePoly(v')
Spec == Init /\ [][Next]_v

Rv == [i \in DOMAIN v |-> v[Len(v)+1-i]]
St(w) == [h |-> w, s |-> [k \in DOMAIN w |-> <<k, IF k = Len(w) THEN 1 ELSE k+1>>]]          \* shared joints
St2(w) == FromView(View(St(w)))                                                              \* separate joints
In == {p \in L : Side(v,p) = 1}
On == {p \in L : Side(v,p) = 0}
(* Pick's theorem ties area, inside and boundary together *)
Pick == Abs(Area2(v)) = 2 * Cardinality(In) + Cardinality(On) - 2
Orient == Area2(v) # 0 /\ Area2(Rv) = -Area2(v) /\ Clockwise(v) = ~Clockwise(Rv) /\ ConvexPoly(v) = ConvexPoly(Rv)
SidesRev == \A p \in L : Side(v,p) = Side(Rv,p)
(* convex: every vertex is on the same side of every edge *)
Convex == ConvexPoly(v) <=> \A i \in DOMAIN v : \A j, k \in DOMAIN v :
             Sgn(Cross(v[i],Nx(v,i),v[j])) * Sgn(Cross(v[i],Nx(v,i),v[k])) >= 0
(* rigid motions *)
Quarter == [k |-> "rot", c |-> 0, s |-> 1, d |-> 1]
About == [k |-> "rotxy", x |-> 1, y |-> 2, c |-> 0, s |-> -1, d |-> 1]
Mv == [k |-> "move", x |-> -5, y |-> 3]
Mir == [k |-> "mirror", x |-> 2]
Rigid == \A o \in {Quarter, About, Mv, Mir} : \A s \in {St(v), St2(v)} :
           LET w == Verts(PolyStep1(s,o)) IN
           /\ Ring(PolyStep1(s,o))
           /\ Area2(w) = (IF o.k = "mirror" THEN -1 ELSE 1) * Area2(v)
           /\ ConvexPoly(w) = ConvexPoly(v)
           /\ \A i, j \in DOMAIN v : Dist2(w[i],w[j]) = Dist2(v[i],v[j])
FourQuarters == LET s == St2(v) f(x) == PolyStep1(x, Quarter) IN View(f(f(f(f(s))))) = View(s)
TwiceMirrored == View(PolyStep1(PolyStep1(St2(v), Mir), Mir)) = View(St(v))
RotXY == View(PolyStep1(St(v), About)) =
         View(PolyStep1(PolyStep1(PolyStep1(St2(v), [k |-> "move", x |-> -1, y |-> -2]), [About EXCEPT !.k = "rot"]),
                        [k |-> "move", x |-> 1, y |-> 2]))
MergeKeeps == View(Merge(St2(v))) = View(St2(v)) /\ Merged(Merge(St2(v)))
(* ordering: whatever the sequence and the directions *)
Swapped(s,i,j) == [s EXCEPT !.s[i] = s.s[j], !.s[j] = s.s[i]]
Mixed == {PolyStep1(Swapped(St2(v),i,j), [k |-> "reverse", a |-> m]) : i \in DOMAIN v, j \in DOMAIN v, m \in DOMAIN v}
Order == \A s \in Mixed : /\ OneCycle(s)
                          /\ Ring(Ordered(s))
                          /\ Und(View(Ordered(s))) = RingEdges(v)
                          /\ I(Ordered(s),1) \in Firsts(s)
                          /\ \E k \in DOMAIN v : View(Ordered(s))[k] = View(s)[1]
                          /\ View(Ordered(Ordered(s))) = View(Ordered(s))
OpenNotOrdered == \A k \in DOMAIN v : ~OneCycle([St2(v) EXCEPT !.s = SubSeq(@,1,k-1) \o SubSeq(@,k+1,Len(v))])
IsValid == Valid(St(v)) /\ Closed(St(v)) /\ Ring(St(v)) /\ Crossings(St2(v)) = {}
(* dangling parts *)
Cores == /\ Core(View(St(v))) = View(St(v))
         /\ Len(Core(SubSeq(View(St(v)),2,Len(v)))) = 0
         /\ Core(Append(View(St(v)), v[1] \o <<-3,-3>>)) = View(St(v))
Corner == LET c == Corners(v) IN Area2(c) = Area2(v) /\ (\A p \in L : Side(c,p) = Side(v,p)) /\ \A i \in DOMAIN c : Turn(c,i) # 0
(* tilings: the fan of a convex polygon without straight vertices is one, without a triangle or with one twice it is not *)
Fan(w) == [i \in 1..(Len(w)-2) |-> <<w[1], w[i+1], w[i+2]>>]
Tiling == (ConvexPoly(v) /\ \A i \in DOMAIN v : Turn(v,i) # 0) =>
            /\ Tiles(v, Fan(v))
            /\ ~Tiles(v, Tail(Fan(v)))
            /\ ~Tiles(v, Append(Fan(v), Fan(v)[1]))
Fans == Tiles(v, Fan(v)) => \A i \in 1..(Len(v)-2) : Sgn(TriA(Fan(v)[i])) = Sgn(Area2(v))
CloseOnce == LET o == [St2(v) EXCEPT !.s = SubSeq(@,1,Len(v)-1)] c == PolyStep1(o, [k |-> "close"]) IN
             View(c) = View(St(v)) /\ PolyStep1(c, [k |-> "close"]) = c
=============================================================================
