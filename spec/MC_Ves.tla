------------------------------- MODULE MC_Ves -------------------------------
(* All vessels of a few parts on a small lattice: the laws of their rooms,   *)
(* of cutting and of telling inside from outside.                            *)
EXTENDS Ves
CONSTANTS MaxParts, Rads, Levels, Types
VARIABLES st
P(typ, x, v, a, b, h, o) == [k |-> "part", typ |-> typ, x |-> x, v |-> v, a |-> a, b |-> b, h |-> h, o |-> o, tenth |-> 1]
Palette == {P(t, 0, v, a, b, w - v, 1) : t \in Types \cap Shells, v \in Levels, w \in Levels, a \in Rads, b \in Rads}
           \cup {P(t, 0, v, a, a, 0, o) : t \in Types \ Shells, v \in Levels, a \in Rads, o \in {1, -1}}
Usable == {p \in Palette : (p.typ \in Shells => p.h > 0) /\ (p.typ \in {"flach", "raumende"} => p.o = 1)}
Touch2(E, N) == \A e \in N : \A f \in E : e # f =>
                  LET c == CommonPart(e[1],e[2],f[1],f[2]) IN c.kind = "none" \/ (c.kind = "P" /\ {e[1],e[2]} \cap {f[1],f[2]} # {})
Rank(t) == CHOOSE n \in 1..6 : <<"mantel", "stz", "klopper", "korbbogen", "flach", "raumende">>[n] = t
Key(o) == <<Rank(o.typ), o.v, o.a, o.b, o.h, o.o>>
RECURSIVE LexS(_,_)
LexS(s, t) == IF s = <<>> THEN FALSE ELSE Head(s) < Head(t) \/ (Head(s) = Head(t) /\ LexS(Tail(s), Tail(t)))
Init == st = None
Put == /\ Len(st.parts) < MaxParts /\ ~st.built
       /\ \E o \in Usable : LET m == Make(o) IN
            /\ m.g \cap EdgesOf(st) = {} /\ Touch2(EdgesOf(st) \cup m.g, m.g)
            /\ IF st.parts = <<>> THEN TRUE ELSE LexS(Key(st.parts[Len(st.parts)]), Key(o))      \* one sequence of each set
            /\ st' = VesStep1(st, o)
Build == ~st.built /\ st.parts # <<>> /\ st' = VesStep1(st, [k |-> "build"])
Spec == Init /\ [][Put \/ Build]_st
-----------------------------------------------------------------------------
E0 == EdgesOf(st)
E1 == PruneE(E0)
RECURSIVE Reach(_,_)
Reach(E, S) == LET T == S \cup {e \in E : \E f \in S : {e[1],e[2]} \cap {f[1],f[2]} # {}} IN IF T = S THEN S ELSE Reach(E, T)
RECURSIVE Comps(_)
Comps(E) == IF E = {} THEN {} ELSE LET c == Reach(E, {CHOOSE e \in E : TRUE}) IN {c} \cup Comps(E \ c)
Verts(E) == UNION {{e[1], e[2]} : e \in E}
Bridges(F) == {e \in E1 : \E f \in F : e \in f /\ <<e[2],e[1]>> \in f}
Mid(e) == <<e[1][1] + e[2][1], e[1][2] + e[2][2]>>
Two(f) == {<<<<2*d[1][1],2*d[1][2]>>, <<2*d[2][1],2*d[2][2]>>>> : d \in f}
(* faces share out the sides of the walls; Euler; one outer face per component, as big as the rooms in it *)
Faces == LET F == FacesOf(E1) IN
         /\ UNION F = Darts(E1)
         /\ \A f, g \in F : f # g => f \cap g = {}
         /\ \A C \in Comps(E1) :
              LET G == {f \in F : f \subseteq Darts(C)} O == {f \in G : FaceArea2(f) <= 0} IN
              /\ Cardinality(Verts(C)) - Cardinality(C) + Cardinality(G) = 2
              /\ Cardinality(O) = 1
              /\ FoldSet(LAMBDA f, a : a + FaceArea2(f), 0, G) = 0
(* rooms do not overlap: the middle of a wall of one is never inside another one of the same component *)
Apart2 == \A C \in Comps(E1) : \A f, g \in RoomsOf(C) : f # g => \A d \in g : FaceSide(Two(f), Mid(d)) <= 0
(* containment is a strict order, and means all of the component *)
Order == LET R == RoomsOf(E0) IN
         /\ \A f, g \in R : Within(f,g) => ~Within(g,f) /\ FaceArea2(f) > FaceArea2(g)
         /\ \A f, g, h \in R : Within(f,g) /\ Within(g,h) => Within(f,h)
(* a wall has one room at most on each of its sides; sides of one wall are opposite *)
Sides == LET c == Ctx(st) IN
         /\ Bridges(c.rooms) = {} =>
            \A e \in E0 : \A d \in {e, <<e[2],e[1]>>} : Cardinality({f \in c.rooms : d \in Facing(c,f)}) <= 1
         /\ \A e \in E0 : LET p == st.parts[c.own[e]] a == SideOf(p, e) b == SideOf(p, <<e[2],e[1]>>) IN
              (a = b /\ a \in {"none", "indifferent"}) \/ {a, b} = {"innenraum", "aussenraum"}
(* the rooms a part belongs to are those it faces *)
Member == LET c == Ctx(st) IN \A f \in c.rooms :
             OwnersF(c,f) \cup InnerWalls(c,f) = {c.own[Edge(d[1],d[2])] : d \in Facing(c,f)}
(* the part inside of itself: a shell on the axis, closed on both ends, has the room in it as inner one *)
Mirror == LET m(p) == <<-p[1], p[2]>> R == RoomsOf(E0) IN
          \A f \in R : {Edge(m(d[1]), m(d[2])) : d \in f} \in {Und(g) : g \in R}
(* cutting a shell keeps the rooms, but for the points added; twice is once; a cut beside it does nothing *)
CutLaw == \A i \in DOMAIN st.parts : st.parts[i].typ \in Shells =>
            \A v \in {w \in Levels : LET p == st.parts[i] IN \A s \in p.seg : s[1] = "W" /\ Crosses(<<s[2],s[3]>>, w, -Big, Big) => s[2][1] = s[3][1]} :
              LET p == st.parts[i] q == CutPart(p, v, -Big, Big)
                  s2 == [st EXCEPT !.parts[i] = q]
                  A(S) == {<<FaceArea2(f), {x \in PtsOf(f) : x[2] # v}>> : f \in RoomsOf(EdgesOf(S))} IN
              /\ CutPart(q, v, -Big, Big) = q
              /\ ~MayCut(p, v) => q = p
              /\ MayCut(p, v) => Cardinality(q.g) > Cardinality(p.g) /\ Verts(p.g) \subseteq Verts(q.g)
              /\ (Proper(E0) /\ Proper(EdgesOf(s2))) => A(s2) = A(st)
(* ending rooms once is enough *)
Once == st.built => Ended(st.parts) = st.parts
Laws == st.built /\ Proper(E0) /\ SingleOwner(st) => Faces /\ Apart2 /\ Order /\ Sides /\ Member /\ Mirror /\ CutLaw
Done == Laws /\ Once
=============================================================================
