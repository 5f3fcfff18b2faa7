------------------------------ MODULE Gen_Poly ------------------------------
(* Behaviours of the polyline machine: a simple polygon is grown, turned     *)
(* into segments with or without shared joints, perhaps opened, shuffled and *)
(* reversed, and put through the actions.                                    *)
EXTENDS Poly, Json
CONSTANTS N0, Depth, Kinds, Shuffle
VARIABLES v, st, hist
vars == <<v, st, hist>>
L == (0..N0) \X (0..N0)
Off == {<<0,0>>, <<-N0-1,-1>>, <<-2,-3*N0>>}
Init == /\ v \in {<<a,b,c>> : a \in {<<0,0>>,<<1,2>>}, b \in L, c \in L} /\ SimplePoly(v)
        /\ st = None /\ hist = <<>>
Grow == /\ hist = <<>> /\ Len(v) < 8
        /\ \E i \in 1..Len(v), p \in L : /\ v' = SubSeq(v,1,i) \o <<p>> \o SubSeq(v,i+1,Len(v))
                                          /\ SimplePoly(v')
        /\ UNCHANGED <<st, hist>>
Joined(w) == [h |-> w, s |-> [k \in DOMAIN w |-> <<k, IF k = Len(w) THEN 1 ELSE k+1>>]]
Apartf(w) == LET s == Joined(w) IN FromView(View(s))
Turnf(s, i) == [s EXCEPT !.s = [k \in DOMAIN s.s |-> IF (k * i) % 3 = 1 THEN <<s.s[k][2], s.s[k][1]>> ELSE s.s[k]]]
Mix(s, i, j) == Turnf([s EXCEPT !.s[i] = s.s[j], !.s[j] = s.s[i]], i)
Opened(s) == [s EXCEPT !.s = SubSeq(@, 1, Len(@)-1)]
Begin == /\ hist = <<>> /\ Len(v) >= 4
         /\ \E f \in Off, sh, op \in {TRUE, FALSE}, i, j \in DOMAIN v :
              LET w == [n \in DOMAIN v |-> Add(v[n],f)]
                  b == IF sh THEN Joined(w) ELSE Apartf(w)
                  c == IF op THEN Opened(b) ELSE b
                  d == IF Shuffle /\ i <= Len(c.s) /\ j <= Len(c.s) THEN Mix(c,i,j) ELSE c IN
              /\ st' = d
              /\ hist' = <<[k |-> "new", h |-> d.h, s |-> d.s]>>
         /\ UNCHANGED v
Simplest(s) == /\ NoNulls(s)
               /\ \A a, b \in DOMAIN s.s : a # b => {I(s,a),J(s,a)} # {I(s,b),J(s,b)}
Ops == {[k |-> "move", x |-> x, y |-> y] : x \in {-2,1}, y \in {-1,3}} \cup {[k |-> "mirror", x |-> x] : x \in {-1,2}}
       \cup {[k |-> "rot", c |-> q[1], s |-> q[2], d |-> 1] : q \in {<<0,1>>,<<-1,0>>,<<0,-1>>}}
       \cup {[k |-> "rotxy", x |-> 1, y |-> -2, c |-> q[1], s |-> q[2], d |-> 1] : q \in {<<0,1>>,<<-1,0>>,<<0,-1>>}}
       \cup {[k |-> "reverse", a |-> a] : a \in DOMAIN st.s}
       \cup (IF Merged(st) THEN {[k |-> "setpt", a |-> a, e |-> 1, x |-> I(st,a)[1]+x, y |-> I(st,a)[2]+y] : a \in DOMAIN st.s, x \in {-1,2}, y \in {0,1}} ELSE {})
       \cup {[k |-> kk, a |-> 0, e |-> 1, x |-> I(st,a)[1]+x, y |-> I(st,a)[2]+y] : kk \in {"append","prepend"}, a \in DOMAIN st.s, x \in {0,1}, y \in {0,-1}}
       \cup {[k |-> kk, a |-> a, e |-> 2, x |-> 0, y |-> 0] : kk \in {"append","prepend"}, a \in DOMAIN st.s}
       \cup {[k |-> kk] : kk \in {"close", "purge", "order"}}
Fresh(o) == o.k = "setpt" => \A p \in Coords(st) : p # <<o.x, o.y>>
MayClose == \A k \in 1..(N(st)-1) : J(st,k) = I(st,k+1)
Act == /\ Len(hist) \in 1..(Depth-1)
       /\ \E o \in {x \in Ops : x.k \in Kinds} :
            /\ Fresh(o) /\ (o.k = "close" => MayClose) /\ (o.k = "order" => OneCycle(st))
            /\ st' = PolyStep1(st, o)
            /\ Simplest(st')
            /\ hist' = Append(hist, o)
       /\ UNCHANGED v
Next == Grow \/ Begin \/ Act
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("BEH " \o ToJson(hist))
=============================================================================
