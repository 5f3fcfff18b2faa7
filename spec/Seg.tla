-------------------------------- MODULE Seg --------------------------------
(* Machine of directed line segments over a heap of points.  Segments refer  *)
(* to point objects, and may share them: moving or mirroring a segment moves *)
(* its end point objects, and with them every segment attached there.        *)
EXTENDS Geo

(* state: h: heap, sequence of points; s: sequence of <<i, j>> heap indices  *)
I(st,k) == st.h[st.s[k][1]]
J(st,k) == st.h[st.s[k][2]]
Seg4(st,k) == I(st,k) \o J(st,k)
View(st) == [k \in DOMAIN st.s |-> Seg4(st,k)]
Vec(st,k) == Sub(J(st,k), I(st,k))

Moved(st, k, F(_)) == [st EXCEPT !.h = [n \in DOMAIN st.h |->
                         IF n \in {st.s[k][1], st.s[k][2]} THEN F(st.h[n]) ELSE st.h[n]]]

SegStep1(st, op) ==
  CASE op.k = "new"     -> [h |-> op.h, s |-> op.s]
    [] op.k = "move"    -> Moved(st, op.a, LAMBDA p : <<p[1]+op.x, p[2]+op.y>>)
    [] op.k = "mirror"  -> Moved(st, op.a, LAMBDA p : <<2*op.x - p[1], p[2]>>)
    [] op.k = "reverse" -> [st EXCEPT !.s[op.a] = <<@[2], @[1]>>]
    [] op.k = "setpt"   -> [st EXCEPT !.h[op.a] = <<op.x, op.y>>]
    [] op.k = "setends" -> [st EXCEPT !.s[op.a] = <<op.x, op.y>>]
    [] OTHER            -> st           \* "look": queries only

Null(st,k) == I(st,k) = J(st,k)
NoNulls(st) == \A k \in DOMAIN st.s : ~Null(st,k)

-----------------------------------------------------------------------------
(* What the queries have to answer.  r is the recorded answer.               *)
Shared(st,a,b) == {I(st,a), J(st,a)} \cap {I(st,b), J(st,b)}
Parallel(st,a,b) == VX(Vec(st,a), Vec(st,b)) = 0
Collinear(st,a,b) == /\ Cross(I(st,a), J(st,a), I(st,b)) = 0
                     /\ Cross(I(st,a), J(st,a), J(st,b)) = 0
CP(st,a,b) == CommonPart(I(st,a), J(st,a), I(st,b), J(st,b))
OnEndpoint(st,a,b) ==
  LET m == LineMeet(I(st,a), J(st,a), I(st,b), J(st,b))
      v == Vec(st,a)
      At(p) == /\ m.den * (p[1] - I(st,a)[1]) = m.t * v[1]
               /\ m.den * (p[2] - I(st,a)[2]) = m.t * v[2] IN
  m.den # 0 /\ \E p \in {I(st,a), J(st,a), I(st,b), J(st,b)} : At(p)
CpOk(st,a,b,r) ==
  LET e == CP(st,a,b) IN
  /\ r.kind = e.kind
  /\ CASE e.kind = "P" -> PtIs(r.p, I(st,a), J(st,a), e.t, e.den)
       [] e.kind = "S" -> \/ PtEq(r.i, e.lo) /\ PtEq(r.j, e.hi)
                          \/ PtEq(r.i, e.hi) /\ PtEq(r.j, e.lo)
       [] OTHER -> TRUE

PairAns(st, q, r) ==
  LET a == q.a  b == q.b  va == Vec(st,a)  vb == Vec(st,b) IN
  CASE q.k = "common"   -> CpOk(st,a,b,r)
    [] q.k = "cptype"   -> r = (CASE CP(st,a,b).kind = "P" -> "Point"
                                  [] CP(st,a,b).kind = "S" -> "LineSegment" [] OTHER -> "None")
    [] q.k = "overlap"  -> IF Parallel(st,a,b) THEN CpOk(st,a,b,r) ELSE r.kind = "none"
    [] q.k = "meet"     -> LET m == LineMeet(I(st,a),J(st,a),I(st,b),J(st,b)) IN
                           IF m.den = 0 THEN r.kind = "none"
                           ELSE r.kind = "P" /\ PtIs(r.p, I(st,a), J(st,a), m.t, m.den)
    [] q.k = "onseg"    -> r = (/\ ~Parallel(st,a,b) /\ Shared(st,a,b) = {}
                                /\ CP(st,a,b).kind = "P")
    [] q.k = "onend"    -> r = OnEndpoint(st,a,b)
    [] q.k = "parallel" -> r = Parallel(st,a,b)
    [] q.k = "isinter"  -> r = ~Parallel(st,a,b)
    [] q.k = "collin"   -> r = Collinear(st,a,b)
    [] q.k = "opposite" -> r = (Parallel(st,a,b) /\ VD(va,vb) < 0)
    [] q.k = "touch"    -> r = (Shared(st,a,b) # {})
    [] q.k = "cont"     -> r = (J(st,a) = I(st,b) \/ I(st,a) = J(st,b))
    [] q.k = "eq"       -> r = (I(st,a) = I(st,b) /\ J(st,a) = J(st,b))
    [] q.k = "ne"       -> r = ~(I(st,a) = I(st,b) /\ J(st,a) = J(st,b))
    [] q.k = "hash"     -> (I(st,a) = I(st,b) /\ J(st,a) = J(st,b)) => r
    [] q.k = "looseeq"  -> r = ({I(st,a),J(st,a)} = {I(st,b),J(st,b)})
    [] q.k = "crossp"   -> r = VX(va,vb)
    [] q.k = "cpstart"  -> r = IF I(st,a) = I(st,b) THEN <<VX(va,vb)>> ELSE <<>>    \* refused unless they start from one point
    [] q.k = "dotp"     -> r = VD(va,vb)
    [] q.k = "angle"    -> r = <<VD(va,vb), Abs(VX(va,vb))>>   \* |a||b| cos, sin
    [] OTHER            -> FALSE

OneAns(st, q, r) ==
  LET a == q.a  i == I(st,a)  j == J(st,a) IN
  CASE q.k = "norm2"    -> r = Dist2(i,j)
    [] q.k = "vector"   -> r = Sub(j,i)
    [] q.k = "unit"     -> r = Sub(j,i)      \* |s| * unit vector
    [] q.k = "dir"      -> r = Sub(j,i)      \* |s| * (cos, sin) of direction
    [] q.k = "dirrange" -> r
    [] q.k = "isnull"   -> r = (i = j)
    [] q.k = "segvalid" -> r = TRUE
    [] q.k = "bbox"     -> r = <<<<Lo(i[1],j[1]), Hi(i[1],j[1])>>, <<Lo(i[2],j[2]), Hi(i[2],j[2])>>>>
    [] q.k = "reversed" -> r = j \o i
    [] OTHER            -> FALSE

(* segment and point *)
PtAns(st, q, r) ==
  LET a == q.a  p == q.p  i == I(st,a)  j == J(st,a)  c == Cross(i,j,p) IN
  CASE q.k = "online"   -> r = (c = 0)
    [] q.k = "inbox"    -> r = InBox(i,j,p)
    [] q.k = "onboth"   -> r = OnSeg(i,j,p)
    [] q.k = "left"     -> r = (c > 0)
    [] q.k = "right"    -> r = (c < 0)
    [] q.k = "dist"     -> r = Abs(c)        \* distance * |s|
    [] q.k = "anglept"  -> r = <<VD(Sub(j,i),Sub(p,i)), Abs(c)>>
    [] OTHER            -> FALSE

(* cutting a segment *)
CutAns(st, q, r) ==
  LET a == q.a  i == I(st,a)  j == J(st,a) IN
  CASE q.k = "divide" ->      \* n pieces of equal length, in direction of the segment, same type
         /\ Len(r) = q.n
         /\ \A k \in 1..q.n : PtIs(r[k][1], i, j, k-1, q.n) /\ PtIs(r[k][2], i, j, k, q.n)
    [] q.k = "ratio"  -> PtIs(r, i, j, q.n, q.d)
    [] q.k = "addpt"  ->      \* q.p on the line
         IF OnSeg(i,j,q.p)
         THEN Len(r) = 2 /\ r = <<i \o q.p, q.p \o j>>
         ELSE Len(r) = 0
    [] OTHER -> FALSE

Pairs == {"common","cptype","overlap","meet","onseg","onend","parallel","isinter","collin",
          "opposite","touch","cont","eq","ne","hash","looseeq","crossp","cpstart","dotp","angle"}
Ones  == {"norm2","vector","unit","dir","dirrange","isnull","segvalid","bbox","reversed"}
Pts   == {"online","inbox","onboth","left","right","dist","anglept"}

AnsOk(st, q) ==
  /\ q.ok
  /\ CASE q.k \in Pairs -> PairAns(st, q, q.r)
       [] q.k \in Ones  -> OneAns(st, q, q.r)
       [] q.k \in Pts   -> PtAns(st, q, q.r)
       [] OTHER         -> CutAns(st, q, q.r)

SegStart(session)   == [h |-> <<>>, s |-> <<>>]
SegStep(st, ev)     == SegStep1(st, ev.op)
SegFails(st,s2,ev)  == (IF ev.ok /\ ev.obs = View(s2) THEN {} ELSE {"state"})
                       \cup {ev.q[n].k : n \in {m \in DOMAIN ev.q : ~AnsOk(s2, ev.q[m])}}
(* adopt the recorded state if it differs: points of all segments unshared   *)
SegSync(s2, ev) == IF ~ev.ok \/ ev.obs = View(s2) THEN s2
                   ELSE [h |-> FlattenSeq([k \in DOMAIN ev.obs |-> <<SubSeq(ev.obs[k],1,2), SubSeq(ev.obs[k],3,4)>>]),
                         s |-> [k \in DOMAIN ev.obs |-> <<2*k-1, 2*k>>]]
=============================================================================
