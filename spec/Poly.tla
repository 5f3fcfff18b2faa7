-------------------------------- MODULE Poly --------------------------------
(* Machine of a polyline: a sequence of directed segments between points of  *)
(* a heap.  End points that coincide may be the same point or different      *)
(* points; a transformation first makes coincident points one and the same   *)
(* (so that the line can not be torn apart), then maps every point once.     *)
EXTENDS Seg

None == [h |-> <<>>, s |-> <<>>]
N(st) == Len(st.s)
EndsOf(st) == {st.s[k][e] : k \in DOMAIN st.s, e \in {1,2}}
Coords(st) == {st.h[n] : n \in EndsOf(st)}

(* coincident points become one *)
Merge(st) == [st EXCEPT !.s = [k \in DOMAIN st.s |->
   [e \in {1,2} |-> CHOOSE m \in EndsOf(st) : /\ st.h[m] = st.h[st.s[k][e]]
                                              /\ \A o \in EndsOf(st) : st.h[o] = st.h[m] => m <= o]]]
Merged(st) == \A m, n \in EndsOf(st) : st.h[m] = st.h[n] => m = n
Map(st, F(_)) == LET g == Merge(st) IN
   [g EXCEPT !.h = [n \in DOMAIN g.h |-> IF n \in EndsOf(g) THEN F(g.h[n]) ELSE g.h[n]]]

Follows(st,a,b) == J(st,a) = I(st,b) \/ I(st,a) = J(st,b)
Continuous(st) == \A k \in 1..(N(st)-1) : Follows(st,k,k+1)
Closed(st) == Continuous(st) /\ I(st,1) = J(st,N(st))

Deg(st,p) == Cardinality({x \in (DOMAIN st.s) \X {1,2} : st.h[st.s[x[1]][x[2]]] = p})
(* one single cycle, whatever the order and direction of the segments: walk it from segment 1 *)
Walk(st) == FoldLeftDomain(LAMBDA w, x :
     LET last == w[Len(w)]
         e == IF last[2] THEN I(st,last[1]) ELSE J(st,last[1])
         nx == {k \in DOMAIN st.s : k # last[1] /\ e \in {I(st,k), J(st,k)}} IN
     IF x = 1 \/ nx = {} THEN w
     ELSE LET k == CHOOSE k \in nx : TRUE IN Append(w, <<k, I(st,k) # e>>),
     << <<1, FALSE>> >>, st.s)
OneCycle(st) == /\ N(st) >= 3
                /\ \A p \in Coords(st) : Deg(st,p) = 2
                /\ {w[1] : w \in ToSet(Walk(st))} = DOMAIN st.s
IJ(st,w) == IF w[2] THEN <<st.s[w[1]][2], st.s[w[1]][1]>> ELSE st.s[w[1]]
(* the segments in the order and direction of the walk, starting at index f *)
Rotated(st, w, f) == [k \in 1..Len(w) |-> IJ(st, w[1 + ((f + k - 2) % Len(w))])]
Near(st,m) == LET p == st.h[m[1]] IN <<p[1]*p[1]+p[2]*p[2], p[1], p[2]>>
LexLe3(a,b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3])))
Ordered(st) == LET w == Walk(st)
                   r == [k \in 1..Len(w) |-> IJ(st, w[k])]
                   f == CHOOSE k \in DOMAIN r : \A o \in DOMAIN r : LexLe3(Near(st,r[k]), Near(st,r[o])) IN
               [st EXCEPT !.s = Rotated(st, w, f)]
(* the start points among which the code may choose if distances are not exact *)
Firsts(st) == LET d == {Dist2(p, <<0,0>>) : p \in Coords(st)} IN
              {p \in Coords(st) : Dist2(p,<<0,0>>) = Min(d)}

Div(a,d) == IF d = 1 THEN a ELSE IF a >= 0 THEN a \div d ELSE -((-a) \div d)
Turned(p, o, op) == LET v == Sub(p,o) IN
   Add(o, <<Div(op.c*v[1] - op.s*v[2], op.d), Div(op.s*v[1] + op.c*v[2], op.d)>>)

PolyStep1(st, op) ==
  CASE op.k = "new"     -> [h |-> op.h, s |-> op.s]
    [] op.k = "move"    -> Map(st, LAMBDA p : <<p[1]+op.x, p[2]+op.y>>)
    [] op.k = "mirror"  -> Map(st, LAMBDA p : <<2*op.x - p[1], p[2]>>)
    [] op.k = "rot"     -> Map(st, LAMBDA p : Turned(p, <<0,0>>, op))
    [] op.k = "rotxy"   -> Map(st, LAMBDA p : Turned(p, <<op.x,op.y>>, op))
    [] op.k = "reverse" -> [st EXCEPT !.s[op.a] = <<@[2], @[1]>>]
    [] op.k = "setpt"   -> [st EXCEPT !.h[st.s[op.a][op.e]] = <<op.x, op.y>>]
    [] op.k = "append"  -> IF op.a = 0 THEN [h |-> Append(st.h, <<op.x,op.y>>), s |-> Append(st.s, <<st.s[N(st)][2], Len(st.h)+1>>)]
                           ELSE [st EXCEPT !.s = Append(@, <<st.s[N(st)][2], st.s[op.a][op.e]>>)]
    [] op.k = "prepend" -> IF op.a = 0 THEN [h |-> Append(st.h, <<op.x,op.y>>), s |-> << <<Len(st.h)+1, st.s[1][1]>> >> \o st.s]
                           ELSE [st EXCEPT !.s = << <<st.s[op.a][op.e], st.s[1][1]>> >> \o @]
    [] op.k = "close"   -> IF Closed(st) THEN st ELSE [st EXCEPT !.s = Append(@, <<st.s[N(st)][2], st.s[1][1]>>)]
    [] op.k = "purge"   -> Merge(st)
    [] op.k = "order"   -> IF OneCycle(st) THEN Ordered(st) ELSE st
    [] OTHER            -> st
-----------------------------------------------------------------------------
CrossPair(st,a,b) == /\ ~Parallel(st,a,b) /\ Shared(st,a,b) = {} /\ CP(st,a,b).kind = "P"
Crossings(st) == {x \in (DOMAIN st.s) \X (DOMAIN st.s) : x[1] # x[2] /\ CrossPair(st,x[1],x[2])}
Valid(st) == Continuous(st) /\ N(st) >= 1 /\ Crossings(st) = {}
Verts(st) == [k \in DOMAIN st.s |-> I(st,k)]
(* closed, every segment goes on where the one before ends, simple *)
Ring(st) == /\ N(st) >= 3
            /\ \A k \in DOMAIN st.s : J(st,k) = Nx(Verts(st),k)
            /\ SimplePoly(Verts(st))

Und(v) == {{SubSeq(v[k],1,2), SubSeq(v[k],3,4)} : k \in DOMAIN v}       \* undirected segments of a view
PtsOfView(v) == UNION Und(v)
FromView(v) == [h |-> FlattenSeq([k \in DOMAIN v |-> <<SubSeq(v[k],1,2), SubSeq(v[k],3,4)>>]),
                s |-> [k \in DOMAIN v |-> <<2*k-1, 2*k>>]]
Xs(st) == {p[1] : p \in Coords(st)}
Ys(st) == {p[2] : p \in Coords(st)}
SumX(S) == FoldSet(LAMBDA p, acc : acc + p[1], 0, S)
SumY(S) == FoldSet(LAMBDA p, acc : acc + p[2], 0, S)
AllPts(st) == SortSeq(FlattenSeq([k \in DOMAIN st.s |-> <<I(st,k), J(st,k)>>]), Lex)
AtPt(st, p, w) == SelectSeq([k \in DOMAIN st.s |-> k], LAMBDA k : \/ w # "end" /\ I(st,k) = p
                                                                  \/ w # "start" /\ J(st,k) = p)
Neigh(st,p) == SortSeq(SelectSeq([k \in DOMAIN st.s |-> I(st,k)], LAMBDA x : FALSE) \o
                 FlattenSeq([k \in DOMAIN st.s |-> IF I(st,k) = p THEN <<J(st,k)>> ELSE IF J(st,k) = p THEN <<I(st,k)>> ELSE <<>>]), Lex)

(* joining polylines: views *)
Join(v, w) == IF SubSeq(v[Len(v)],3,4) = SubSeq(w[1],1,2) THEN v \o w
              ELSE Append(v, SubSeq(v[Len(v)],3,4) \o SubSeq(w[1],1,2)) \o w
ViewOk(v) == /\ \A k \in DOMAIN v : SubSeq(v[k],1,2) # SubSeq(v[k],3,4)
             /\ Valid(FromView(v))

(* segments left when those with a free end are removed again and again *)
RECURSIVE Core(_)
Core(v) == LET d(p) == Cardinality({x \in (DOMAIN v) \X {1,3} : SubSeq(v[x[1]], x[2], x[2]+1) = p})
               w == SelectSeq(v, LAMBDA s : d(SubSeq(s,1,2)) # 1 /\ d(SubSeq(s,3,4)) # 1) IN
           IF Len(w) = Len(v) THEN v ELSE Core(w)

(* a ring without the vertices where it goes straight on *)
Corners(v) == SelectSeq([i \in DOMAIN v |-> v[i]], LAMBDA p :
                LET i == CHOOSE i \in DOMAIN v : v[i] = p IN
                Cross(v[IF i = 1 THEN Len(v) ELSE i-1], p, Nx(v,i)) # 0)
RingEdges(v) == {{v[i], Nx(v,i)} : i \in DOMAIN v}

(* triangles: sequences of three points *)
TriA(t) == Cross(t[1],t[2],t[3])
(* interiors are disjoint: a side of one has the other one outside or on it *)
SepBy(t,u) == \E i \in 1..3 : LET a == t[i] b == Nx(t,i) IN
                 \A p \in ToSet(u) : Sgn(Cross(a,b,p)) # Sgn(TriA(t))
Apart(t,u) == SepBy(t,u) \/ SepBy(u,t)
Three(p) == <<3*p[1], 3*p[2]>>
Mid3(t) == <<t[1][1]+t[2][1]+t[3][1], t[1][2]+t[2][2]+t[3][2]>>
InsideRing(v,t) ==
  /\ \A i \in 1..3 : t[i] \in ToSet(v)
  /\ Side([i \in DOMAIN v |-> Three(v[i])], Mid3(t)) = 1
  /\ \A i \in 1..3, k \in DOMAIN v : LET a == t[i] b == Nx(t,i) c == v[k] d == Nx(v,k) IN
        ~(Sgn(Cross(a,b,c)) * Sgn(Cross(a,b,d)) < 0 /\ Sgn(Cross(c,d,a)) * Sgn(Cross(c,d,b)) < 0)
Tiles(v,ts) ==
  /\ \A i \in DOMAIN ts : TriA(ts[i]) # 0 /\ InsideRing(v, ts[i])
  /\ \A i, j \in DOMAIN ts : i < j => Apart(ts[i], ts[j])
  /\ FoldLeft(LAMBDA acc, t : acc + Abs(TriA(t)), 0, ts) = Abs(Area2(v))

PolyAns(st, q, r) ==
  LET v == Verts(st) w == View(st) IN
  CASE q.k = "closed"    -> r = Closed(st)
    [] q.k = "open"      -> r = ~Closed(st)
    [] q.k = "nothing"   -> ~r
    [] q.k = "ptri"      -> r = (N(st) = 3 /\ Closed(st) /\ Cardinality(Coords(st)) = 3 /\ Cross(I(st,1), J(st,1), IF I(st,2) \in {I(st,1), J(st,1)} THEN J(st,2) ELSE I(st,2)) # 0)
    [] q.k = "contin"    -> r = Continuous(st)
    [] q.k = "discont"   -> r = SelectSeq([k \in 1..N(st) |-> k], LAMBDA k : k > 1 /\ ~Follows(st,k-1,k))
    [] q.k = "crossing"  -> ToSet(r) = Crossings(st) /\ Len(r) = Cardinality(Crossings(st))
    [] q.k = "interl"    -> ToSet(r) = {x \in Crossings(st) : x[1] < x[2]}
    [] q.k = "tri3"      -> r = (Cross(q.t[1], q.t[2], q.t[3]) # 0)
    [] q.k = "lost"      -> r = <<FALSE, Valid(st)>>                      \* a point emptied and set again
    [] q.k = "valid"     -> r = Valid(st)
    [] q.k = "first"     -> r = I(st,1)
    [] q.k = "last"      -> r = J(st,N(st))
    [] q.k = "firstseg"  -> r = w[1]
    [] q.k = "lastseg"   -> r = w[N(st)]
    [] q.k = "ptset"     -> r = SortPts(Coords(st))
    [] q.k = "allpts"    -> r = AllPts(st)
    [] q.k = "bbox"      -> r = <<<<Min(Xs(st)), Max(Xs(st))>>, <<Min(Ys(st)), Max(Ys(st))>>>>
    [] q.k = "midpoint"  -> LET n == Cardinality(Coords(st)) p == CHOOSE p \in Coords(st) : TRUE IN
                            RatIs(r[1], p[1], SumX(Coords(st)) - n*p[1], n) /\ RatIs(r[2], p[2], SumY(Coords(st)) - n*p[2], n)
    [] q.k = "neigh"     -> r = Neigh(st, q.p)
    [] q.k = "findseg"   -> r = AtPt(st, q.p, q.w)
    [] q.k = "nextseg"   -> Ring(st) => r = (q.a % N(st)) + 1
    [] q.k = "closedcopy" -> r = View(PolyStep1(st, [k |-> "close"]))
    [] q.k = "add"       -> LET all == FoldLeft(Join, w, q.o)
                                ok == /\ Valid(st) /\ \A i \in DOMAIN q.o : ViewOk(q.o[i])
                                      /\ ~(Closed(st) /\ \A i \in DOMAIN q.o : Closed(FromView(q.o[i])))
                                      /\ ViewOk(all) IN
                            IF ok THEN r = all ELSE Len(r) = 0
    [] q.k = "peq"       -> r = (w = q.o)
    [] q.k = "pne"       -> r = (w # q.o)
    [] q.k = "phash"     -> w = q.o => r
    [] q.k = "ptext"     -> r = w
    [] q.k = "ploose"    -> r = (Len(w) = Len(q.o) /\ Und(w) = Und(q.o))
    [] q.k = "ploosedir" -> r = (Len(w) = Len(q.o) /\ ToSet(w) = ToSet(q.o))
    [] q.k = "psubset"   -> r = (PtsOfView(q.o) \subseteq Coords(st))
    [] q.k = "outlier"   -> r = Core(w)
    [] q.k = "simplify"  -> /\ r[1] = Core(w)
                            /\ r[2] = SelectSeq(q.i, LAMBDA a : \E k \in DOMAIN Core(w) : Core(w)[k] = w[a])
                            /\ r[3] = SelectSeq(q.e, LAMBDA a : \E k \in DOMAIN Core(w) : Core(w)[k] = w[a])
    [] q.k = "walk"      -> IF OneCycle(st) THEN /\ Len(r) = N(st) /\ Und(r) = Und(w)
                                                 /\ \A k \in DOMAIN r : SubSeq(r[k],3,4) = SubSeq(Nx(r,k),1,2)
                            ELSE Len(r) = 0
    [] q.k = "nocollin"  -> Ring(st) => /\ Und(r) = RingEdges(Corners(v)) /\ Len(r) = Len(Corners(v))
                                         /\ \A k \in DOMAIN r : SubSeq(r[k],3,4) = SubSeq(Nx(r,k),1,2)   \* and again a walk
    [] q.k = "collin3"   -> Ring(st) => LET c == ToSet(Corners(v))     \* straight-on points, and the corners next to one
                                            e == {v[k] : k \in {n \in DOMAIN v : v[n] \in c /\ (Nx(v,n) \notin c \/ \E m \in DOMAIN v : Nx(v,m) = v[n] /\ v[m] \notin c)}} IN
                                        ToSet(r[1]) = ToSet(v) \ c /\ ToSet(r[2]) = e /\ ToSet(r[3]) = e
    [] q.k = "convex"    -> Ring(st) => r = ConvexPoly(v)
    [] q.k = "cw"        -> Ring(st) => r = Clockwise(v)
    [] q.k = "ccw"       -> Ring(st) => r = ~Clockwise(v)
    [] q.k = "inside"    -> Ring(st) => r = (Side(v,q.p) = 1)
    [] q.k = "outside"   -> Ring(st) => r = (Side(v,q.p) # 1)
    [] q.k = "boundary"  -> r = (\E k \in DOMAIN st.s : OnSeg(I(st,k), J(st,k), q.p))
    [] q.k = "area2"     -> Ring(st) => r = Abs(Area2(v))
    [] q.k = "tiles"     -> Ring(st) => Tiles(v, r)
    [] q.k = "ears"      -> Ring(st) => IF r[1] THEN Tiles(v, r[2]) ELSE ~(ConvexPoly(v) /\ Len(Corners(v)) = Len(v))    \* may fail, but not then
    [] OTHER             -> FALSE

PolyStart(session)  == None
PolyStep(st, ev)    == PolyStep1(st, ev.op)
(* order(): what it returns, and which segments it leaves in which sequence *)
OrderOk(st, s2, ev) ==
  IF OneCycle(st)
  THEN /\ ev.ret = TRUE
       /\ IF ev.exact THEN ev.obs = View(s2)
          ELSE LET v == View(s2) IN
               \E k \in DOMAIN v : /\ ev.obs = SubSeq(v, k, Len(v)) \o SubSeq(v, 1, k-1)
                                   /\ SubSeq(v[k],1,2) \in Firsts(st)
  ELSE /\ ev.ret = FALSE
       /\ Len(ev.obs) = N(st) /\ \A k \in DOMAIN st.s : Und(<<ev.obs[k]>>) = Und(<<View(st)[k]>>)
StateOk(st, s2, ev) == IF ev.op.k = "order" THEN OrderOk(st, s2, ev) ELSE ev.obs = View(s2)
PolyFails(st,s2,ev) == (IF ev.ok /\ StateOk(st,s2,ev) THEN {} ELSE {IF ev.op.k = "order" THEN "order" ELSE "state"})
                       \cup {ev.q[n].k : n \in {m \in DOMAIN ev.q : ~(ev.q[m].ok /\ PolyAns(s2, ev.q[m], ev.q[m].r))}}
PolySync(s2, ev)    == IF ~ev.ok \/ ev.obs = View(s2) THEN s2 ELSE FromView(ev.obs)
=============================================================================
