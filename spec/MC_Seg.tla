------------------------------- MODULE MC_Seg -------------------------------
(* Exhaustive machine of two segments on a (N+1) x (N+1) lattice: all        *)
(* placements, sharing of end points and the mutations.  The invariants are  *)
(* the laws the answers obey in every reachable state, whatever the inputs.  *)
EXTENDS Seg
CONSTANTS N, Depth, ShareAll
VARIABLES st, n
vars == <<st, n>>
L == (0..N) \X (0..N)
Inside(s) == \A k \in DOMAIN s.h : s.h[k] \in L

Places == {[h |-> <<a,b,c,d>>, s |-> <<<<1,2>>,<<3,4>>>>] : a \in L, b \in L, c \in L, d \in L}
          \cup (IF ShareAll THEN {[h |-> <<a,b,c>>, s |-> <<<<1,2>>,<<2,3>>>>] : a \in L, b \in L, c \in L} ELSE {})
Init == /\ st \in {p \in Places : NoNulls(p)}
        /\ n = 0
Ops == [k : {"move"}, a : {1,2}, x : {-1,0,1}, y : {-1,0,1}] \cup [k : {"mirror"}, a : {1,2}, x : {0,1}]
       \cup [k : {"reverse"}, a : {1,2}]
Next == /\ n < Depth /\ n' = n + 1
        /\ \E o \in Ops : st' = SegStep1(st, o) /\ Inside(st') /\ NoNulls(st')
Spec == Init /\ [][Next]_vars

Rev(s,k) == SegStep1(s, [k |-> "reverse", a |-> k])
K(s) == CP(s,1,2)
SamePt(s1,e1,s2,e2) == (* the two descriptions give the same point: compare in the frame of s1 *)
  LET a == I(s1,1) b == J(s1,1) c == I(s2,1) d == J(s2,1) IN
  \A x \in {1,2} : (a[x]*e1.den + e1.t*(b[x]-a[x])) * e2.den = (c[x]*e2.den + e2.t*(d[x]-c[x])) * e1.den
SameCP(s1,s2) == LET e1 == K(s1) e2 == K(s2) IN
  /\ e1.kind = e2.kind
  /\ e1.kind = "P" => SamePt(s1,e1,s2,e2)
  /\ e1.kind = "S" => e1 = e2
Swap(s) == [s EXCEPT !.s = <<@[2], @[1]>>]
(* symmetric, independent of directions *)
Symmetric == SameCP(st, Swap(st)) /\ SameCP(st, Rev(st,1)) /\ SameCP(st, Rev(st,2))
(* a lattice point is in the common part iff it is on both segments *)
Exact == \A p \in L :
   LET both == OnSeg(I(st,1),J(st,1),p) /\ OnSeg(I(st,2),J(st,2),p)  e == K(st)  v == Vec(st,1) IN
   both = CASE e.kind = "none" -> FALSE
            [] e.kind = "S" -> OnSeg(e.lo, e.hi, p)
            [] OTHER -> \A x \in {1,2} : (p[x]-I(st,1)[x]) * e.den = e.t * v[x]
(* exactly one of left, right, on the line *)
Trichotomy == \A p \in L : Cardinality({x \in {"l","r","o"} :
   CASE x = "l" -> Cross(I(st,1),J(st,1),p) > 0 [] x = "r" -> Cross(I(st,1),J(st,1),p) < 0 [] OTHER -> Cross(I(st,1),J(st,1),p) = 0}) = 1
SegInKind == K(st).kind = "S" => /\ Parallel(st,1,2) /\ Collinear(st,1,2)
                                 /\ \A p \in {K(st).lo, K(st).hi} : OnSeg(I(st,1),J(st,1),p) /\ OnSeg(I(st,2),J(st,2),p)
TouchMeets == Shared(st,1,2) # {} => K(st).kind # "none"
(* shared end points stay together, lengths survive moves of unshared segments *)
SharedStay == \A a, b \in DOMAIN st.s : (st.s[a][2] = st.s[b][1]) => J(st,a) = I(st,b)
Lengths == [][Len(st.h) = 4 => \A k \in {1,2} : VD(Vec(st',k),Vec(st',k)) = VD(Vec(st,k),Vec(st,k))]_vars
=============================================================================
