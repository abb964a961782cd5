-------------------------------- MODULE Arr --------------------------------
(***************************************************************************)
(* Dense n-dimensional arrays [sh |-> shape, v |-> row-major sequence] over *)
(* an arbitrary element set, with numpy-style broadcasting on size-1 axes. *)
(* Axes and indices are 1-based.                                           *)
(***************************************************************************)
EXTENDS MLReal, FiniteSets

RECURSIVE ProdTo(_, _)
ProdTo(s, k) == IF k = 0 THEN 1          \* not multiplied further beyond a million
                ELSE LET r == ProdTo(s, k - 1) IN IF r > 1000000 THEN r ELSE s[k] * r
Size(sh) == ProdTo(sh, Len(sh))

(* multi-index of the k-th cell, and its inverse *)
RECURSIVE UnrTo(_, _, _)
UnrTo(sh, k, r) == IF r = 0 THEN <<>>
                   ELSE Append(UnrTo(sh, k \div sh[r], r - 1), (k % sh[r]) + 1)
UnravelDef(sh, k) == UnrTo(sh, k - 1, Len(sh))
RECURSIVE RavTo(_, _, _)
RavTo(sh, ix, r) == IF r = 0 THEN 0
                    ELSE RavTo(sh, ix, r - 1) * sh[r] + (IF sh[r] = 1 THEN 0 ELSE ix[r] - 1)
RavelDef(sh, ix) == 1 + RavTo(sh, ix, Len(sh))
Unravel(sh, k) == UnravelDef(sh, k)      \* evaluated by java/Arr.java
Ravel(sh, ix)  == RavelDef(sh, ix)       \* evaluated by java/Arr.java

Mk(sh, F(_)) == [sh |-> sh, v |-> Tup([k \in 1..Size(sh) |-> F(Unravel(sh, k))])]
At(a, ix) == a.v[Ravel(a.sh, ix)]        \* broadcasting read
Scl(x) == [sh |-> <<>>, v |-> <<x>>]
MapA(a, F(_)) == [sh |-> a.sh, v |-> Tup([k \in 1..Len(a.v) |-> F(a.v[k])])]

Mx(i, j) == IF i >= j THEN i ELSE j
BSh(s, t) == Tup([k \in 1..Len(s) |-> Mx(s[k], t[k])])
BOk(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : s[k] = t[k] \/ s[k] = 1 \/ t[k] = 1
(* elementwise F over broadcast operands of equal rank *)
Zip(a, b, F(_, _)) ==
    IF a.sh = b.sh THEN [sh |-> a.sh, v |-> Tup([k \in 1..Len(a.v) |-> F(a.v[k], b.v[k])])]
    ELSE LET sh == BSh(a.sh, b.sh) IN
         [sh |-> sh, v |-> Tup([k \in 1..Size(sh) |->
            LET ix == Unravel(sh, k) IN F(At(a, ix), At(b, ix))])]
Broadcast(a, sh) == IF a.sh = sh THEN a ELSE Mk(sh, LAMBDA ix : At(a, ix))
Reshape(a, sh) == [sh |-> sh, v |-> a.v]
Sub(s, i, j) == Tup([k \in 1..(IF j < i THEN 0 ELSE j - i + 1) |-> s[i + k - 1]])

(* entries of s at positions in S, in order *)
Keep(s, S) == LET RECURSIVE f(_)
                  f(k) == IF k = 0 THEN <<>>
                          ELSE IF k \in S THEN Append(f(k - 1), s[k]) ELSE f(k - 1)
              IN Tup(f(Len(s)))
Drop(s, S) == Keep(s, (1..Len(s)) \ S)
Rank(S, k) == Cardinality({j \in S : j <= k})
(* the n-sequence with the entries of y on the positions S, of x elsewhere *)
Merge(n, S, x, y) ==
    Tup([k \in 1..n |-> IF k \in S THEN y[Rank(S, k)] ELSE x[k - Rank(S, k)]])

(* reduces the axes in S with the summation Sum of a sequence of elements  *)
Reduce(a, S, Sum(_)) ==
    IF S = {} THEN a ELSE
    LET n  == Len(a.sh)
        rs == Keep(a.sh, S)
        ri == Tup([k \in 1..Size(rs) |-> Unravel(rs, k)])
    IN Mk(Drop(a.sh, S), LAMBDA ix :
            Sum(Tup([k \in 1..Len(ri) |-> At(a, Merge(n, S, ix, ri[k]))])))

(* axis k of the result is axis p[k] of a (p = 0: a new axis of size 1)    *)
Permute(a, p) ==
    Mk(Tup([k \in 1..Len(p) |-> IF p[k] = 0 THEN 1 ELSE a.sh[p[k]]]),
       LAMBDA ix : At(a, Tup([j \in 1..Len(a.sh) |->
                        ix[CHOOSE k \in 1..Len(p) : p[k] = j]])))
FlipA(a, S) == Mk(a.sh, LAMBDA ix :
                  At(a, Tup([k \in 1..Len(ix) |-> IF k \in S THEN a.sh[k] + 1 - ix[k] ELSE ix[k]])))
Ones(n) == Tup([k \in 1..n |-> 1])
Iota(i, j) == Tup([k \in 1..(IF j < i THEN 0 ELSE j - i + 1) |-> i + k - 1])
=============================================================================
