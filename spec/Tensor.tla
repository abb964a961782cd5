------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Abstract tensors: dense arrays whose axes are split in four blocks      *)
(*    X (first derivative) , Y (second derivative) , N (features) , D      *)
(*    (extra value axes).                                                  *)
(* A stored layout (leaf) is denoted by its dense array; every operation   *)
(* is defined on dense arrays only, so it says what the compressed         *)
(* implementation must be equal to.                                        *)
(***************************************************************************)
EXTENDS Arr

Ten(x, y, n, d, a) == [x |-> x, y |-> y, n |-> n, d |-> d, a |-> a]
Rk(t) == t.x + t.y + t.n + t.d
WF(t) == /\ Len(t.a.sh) = Rk(t)
         /\ Len(t.a.v) = Size(t.a.sh)
XAx(t) == 1 .. t.x
YAx(t) == (t.x + 1) .. (t.x + t.y)
NAx(t) == (t.x + t.y + 1) .. (t.x + t.y + t.n)
DAx(t) == (t.x + t.y + t.n + 1) .. Rk(t)
XSh(t) == Sub(t.a.sh, 1, t.x)
YSh(t) == Sub(t.a.sh, t.x + 1, t.x + t.y)
NSh(t) == Sub(t.a.sh, t.x + t.y + 1, t.x + t.y + t.n)
DSh(t) == Sub(t.a.sh, t.x + t.y + t.n + 1, Rk(t))

(* denotation of a stored layout: values on shape (X Y N D) where a mapped *)
(* X or Y axis k is stored with size one and stands for a diagonal with    *)
(* feature map[k] (0-based, -1 when unmapped)                              *)
Denote(l) ==
    LET nx == Len(l.xs)  ny == Len(l.ys)  p == nx + ny
        mp == l.xm \o l.ym                       \* one entry per X/Y axis, -1 = free
        full == l.xs \o l.ys \o l.ns \o l.ds
        sz == Tup([k \in 1..Len(full) |-> IF k <= p /\ mp[k] >= 0 THEN full[p + 1 + mp[k]] ELSE full[k]])
        stored == [sh |-> Tup([k \in 1..Len(full) |-> IF k <= p /\ mp[k] >= 0 THEN 1 ELSE full[k]]), v |-> l.v]
    IN Ten(nx, ny, Len(l.ns), Len(l.ds),
           Mk(sz, LAMBDA ix : IF \A k \in 1..p : mp[k] >= 0 => ix[k] = ix[p + 1 + mp[k]]
                              THEN At(stored, ix) ELSE 0))

(* --- binary operations: missing blocks are broadcast ---------------------- *)
Blk(n, sh) == IF Len(sh) = n THEN sh ELSE Ones(n)
AlignA(t, x, y, n, d) ==
    Reshape(t.a, Blk(x, XSh(t)) \o Blk(y, YSh(t)) \o Blk(n, NSh(t)) \o Blk(d, DSh(t)))
Compat1(i, j) == i = 0 \/ j = 0 \/ i = j
Compat(t, u) == /\ Compat1(t.x, u.x) /\ Compat1(t.y, u.y)
                /\ Compat1(t.n, u.n) /\ Compat1(t.d, u.d)
                /\ LET x == Mx(t.x, u.x) y == Mx(t.y, u.y) n == Mx(t.n, u.n) d == Mx(t.d, u.d)
                   IN BOk(AlignA(t, x, y, n, d).sh, AlignA(u, x, y, n, d).sh)
BinT(t, u, F(_, _)) ==
    LET x == Mx(t.x, u.x) y == Mx(t.y, u.y) n == Mx(t.n, u.n) d == Mx(t.d, u.d)
    IN Ten(x, y, n, d, Zip(AlignA(t, x, y, n, d), AlignA(u, x, y, n, d), F))
MapT(t, F(_)) == [t EXCEPT !.a = MapA(t.a, F)]
OpF(op, a, b) == CASE op = "add" -> RAdd(a, b) [] op = "sub" -> RSub(a, b)
                   [] op = "mul" -> RMul(a, b) [] op = "div" -> RDiv(a, b)
ArithT(op, t, u) == BinT(t, u, LAMBDA a, b : OpF(op, a, b))
NegT(t) == MapT(t, RNeg)

(* --- reshaping ------------------------------------------------------------- *)
(* F: set of 0-based features to sum;  dd: whether the D axes are summed      *)
SumT(t, F, dd) ==
    Ten(t.x, t.y, t.n - Cardinality(F), IF dd THEN 0 ELSE t.d,
        Reduce(t.a, {t.x + t.y + 1 + f : f \in F} \union (IF dd THEN DAx(t) ELSE {}), RSum))
(* feature axis k of t becomes axis w[k] (0-based) among m                    *)
InvW(w, m) == Tup([j \in 1..m |-> IF \E k \in 1..Len(w) : w[k] = j - 1
                                  THEN CHOOSE k \in 1..Len(w) : w[k] = j - 1 ELSE 0])
ExpandN(t, w, m) ==
    LET p == t.x + t.y  iw == InvW(w, m) IN
    Ten(t.x, t.y, m, t.d,
        Permute(t.a, Iota(1, p) \o Tup([j \in 1..m |-> IF iw[j] = 0 THEN 0 ELSE p + iw[j]])
                     \o Iota(p + t.n + 1, Rk(t))))
ExpandD(t, w, m) ==
    LET p == t.x + t.y + t.n  iw == InvW(w, m) IN
    Ten(t.x, t.y, t.n, m,
        Permute(t.a, Iota(1, p) \o Tup([j \in 1..m |-> IF iw[j] = 0 THEN 0 ELSE p + iw[j]])))
FlipN(t, F) == [t EXCEPT !.a = FlipA(t.a, {t.x + t.y + 1 + f : f \in F})]
FlipD(t, F) == [t EXCEPT !.a = FlipA(t.a, {t.x + t.y + t.n + 1 + f : f \in F})]
TransT(t) == Ten(t.y, t.x, t.n, t.d,
                 Permute(t.a, Iota(t.x + 1, t.x + t.y) \o Iota(1, t.x) \o Iota(t.x + t.y + 1, Rk(t))))
DropD(t) == Ten(t.x, t.y, t.n + t.d, 0, t.a)

(* --- contractions ----------------------------------------------------------- *)
(* u : X K D   t : K Y N D   ->   X Y N D ,  K summed                          *)
DotL(t, u) ==
    LET K == NSh(u)  d == Mx(t.d, u.d)
        KK == BSh(K, XSh(t))
        ki == Tup([k \in 1..Size(KK) |-> Unravel(KK, k)])
        dsh == BSh(Blk(d, DSh(u)), Blk(d, DSh(t)))
        ta == AlignA(t, t.x, t.y, t.n, d)  ua == AlignA(u, u.x, 0, u.n, d)
        x == u.x  y == t.y  n == t.n
    IN Ten(x, y, n, d, Mk(XSh(u) \o YSh(t) \o NSh(t) \o dsh, LAMBDA ix :
         LET ex == Sub(ix, x + y + n + 1, x + y + n + d) IN
         RDot(Tup([k \in 1..Len(ki) |-> At(ua, Sub(ix, 1, x) \o ki[k] \o ex)]),
              Tup([k \in 1..Len(ki) |-> At(ta, ki[k] \o Sub(ix, x + 1, x + y + n) \o ex)]))))
(* u : X Y K D   t : K N D   ->   X Y N D                                      *)
DotR(t, u) ==
    LET K == NSh(u)  d == Mx(t.d, u.d)
        KK == BSh(K, XSh(t))
        ki == Tup([k \in 1..Size(KK) |-> Unravel(KK, k)])
        dsh == BSh(Blk(d, DSh(u)), Blk(d, DSh(t)))
        ta == AlignA(t, t.x, 0, t.n, d)  ua == AlignA(u, u.x, u.y, u.n, d)
        p == u.x + u.y  n == t.n
    IN Ten(u.x, u.y, n, d, Mk(XSh(u) \o YSh(u) \o NSh(t) \o dsh, LAMBDA ix :
         LET ex == Sub(ix, p + n + 1, p + n + d) IN
         RDot(Tup([k \in 1..Len(ki) |-> At(ua, Sub(ix, 1, p) \o ki[k] \o ex)]),
              Tup([k \in 1..Len(ki) |-> At(ta, ki[k] \o Sub(ix, p + 1, p + n) \o ex)]))))
(* the auto-dispatching product: contracts the features of u with the         *)
(* derivative block of t of that many axes                                     *)
DotAuto(t, u) ==
    IF u.x > 0 /\ u.y > 0
    THEN IF t.x > 0 THEN DotR(t, u)
         ELSE TransT(DotR(TransT(t), TransT(u)))
    ELSE IF u.x > 0
    THEN IF t.x = u.n THEN DotL(t, u) ELSE DotL(TransT(t), u)
    ELSE IF u.y > 0
    THEN IF t.y = u.n THEN TransT(DotL(TransT(t), TransT(u)))
         ELSE TransT(DotL(t, TransT(u)))
    ELSE IF t.x = u.n THEN DotL(t, u) ELSE DotL(TransT(t), u)
=============================================================================
