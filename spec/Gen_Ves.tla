------------------------------- MODULE Gen_Ves -------------------------------
(* Histories of vessels: shells anywhere, on top of each other and inside of *)
(* each other, heads and bottoms at their ends, cuts, parts that end a room. *)
EXTENDS Ves, Json, Randomization
CONSTANTS Depth, MaxE
VARIABLES st, hist
P(typ, x, v, a, b, h, o) == [k |-> "part", typ |-> typ, x |-> x, v |-> v, a |-> a, b |-> b, h |-> h, o |-> o, tenth |-> 2]
Is(i, S) == st.parts[i].typ \in S
ShellsOf == {i \in DOMAIN st.parts : Is(i, Shells)}
(* ends of shells: axis, level, half diameter *)
Ends == UNION {{<<st.parts[i].x, st.parts[i].v, st.parts[i].a>>, <<st.parts[i].x, st.parts[i].v + st.parts[i].h, st.parts[i].b>>} : i \in ShellsOf}
Rad == {5, 8, 12, 16}
Free   == {P("mantel", x, v, a, b, h, 1) : x \in {0, 40}, v \in {0, 10, 16, 30}, a \in Rad, b \in Rad, h \in {9, 18, 36}}
Joined == {P("mantel", e[1], e[2], e[3], b, h, 1) : e \in Ends, b \in Rad, h \in {12, 24}}
          \cup {P(t, e[1], e[2] - 12, b, e[3], 12, 1) : t \in {"mantel", "stz"}, e \in Ends, b \in Rad}
Closed == {P(t, e[1], e[2], e[3], e[3], 1, o) : t \in Heads, e \in Ends, o \in {1, -1}}
          \cup {P("flach", e[1], e[2], e[3], e[3], 0, 1) : e \in Ends}
Round  == {P("raumende", e[1], e[2], e[3], e[3], 0, 1) : e \in Ends}
Cuts   == {[k |-> "split", a |-> i, v |-> st.parts[i].v + y] : i \in {j \in ShellsOf : st.parts[j].a = st.parts[j].b}, y \in {3, 6, 11}}
Clear(E, N) == \A e \in N : \A f \in E \cup N : e # f =>
                  LET c == CommonPart(e[1],e[2],f[1],f[2]) IN c.kind = "none" \/ (c.kind = "P" /\ {e[1],e[2]} \cap {f[1],f[2]} # {})
(* a part that ends a room crosses one shell on both sides or none *)
Crossed(p, E) == {e \in E : Crosses(e, p.v, p.x - p.a, p.x + p.a)}
MayEnd(o) == LET C == {i \in ShellsOf : Crossed(o, st.parts[i].g) # {}} IN
             /\ Cardinality(C) <= 1
             /\ \A i \in C : LET p == st.parts[i] c == Crossed(o, p.g) IN
                  /\ Cardinality(c) = 2 /\ p.a = p.b /\ p.x = o.x
             /\ \A i \in DOMAIN st.parts : Is(i, Heads) => Crossed(o, st.parts[i].g) = {}
Fits(o) == LET m == Make(o) E == EdgesOf(st) IN
           /\ m.g \cap E = {}
           /\ IF o.typ = "raumende" THEN MayEnd(o) /\ (Crossed(o, E) # {} \/ Clear(E, m.g)) ELSE Clear(E, m.g)
           /\ Cardinality(E) + Cardinality(m.g) <= MaxE
(* parts that end a room stay clear of whatever comes later *)
Still(o) == \A i \in DOMAIN st.parts : Is(i, {"raumende"}) =>
              LET r == st.parts[i] IN \A e \in Make(o).g : Crosses(e, r.v, r.x - r.a - 1, r.x + r.a + 1) = FALSE
                                                           /\ (\A p \in {e[1], e[2]} : p[2] = r.v => Abs(p[1] - r.x) >= r.a)
Init == st = None /\ hist = <<>>
Do(o) == st' = VesStep1(st, o) /\ hist' = Append(hist, o)
Pick(S, n) == IF Cardinality(S) <= n THEN S ELSE RandomSubset(n, S)
Grow == /\ Len(hist) < Depth /\ ~st.built
       /\ \E o \in IF hist = <<>> THEN Free
                   ELSE Pick(Free, 4) \cup Pick(Joined, 5) \cup Pick(Closed, 10) \cup Pick(Round, 2) :
            Fits(o) /\ Still(o) /\ Do(o)
Cut == /\ Len(hist) \in 2..(Depth-1) /\ ~st.built
       /\ \E o \in Pick(Cuts, 2) : Cardinality(EdgesOf(st)) + 2 <= MaxE
                                   /\ (\A i \in DOMAIN st.parts : Is(i, {"raumende"}) => st.parts[i].v # o.v) /\ Do(o)
Build == /\ Len(hist) >= Depth - 2 /\ ~st.built
         /\ LET s2 == VesStep1(st, [k |-> "build"]) IN
              Proper(EdgesOf(s2)) /\ SingleOwner(s2) /\ (\E i \in ShellsOf : TRUE) /\ RoomsOf(EdgesOf(s2)) # {}
         /\ Do([k |-> "build"])
Spec == Init /\ [][Grow \/ Cut \/ Build]_<<st, hist>>
Emit == st.built => PrintT("BEH " \o ToJson(hist))
=============================================================================
