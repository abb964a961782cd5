-------------------------------- MODULE MatR --------------------------------
(***************************************************************************)
(* Small dense real matrices, as sequences of rows.                         *)
(***************************************************************************)
EXTENDS Arr

MatOf(n, m, F(_, _)) == Tup([i \in 1..n |-> Tup([j \in 1..m |-> F(i, j)])])
IdM(n) == MatOf(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
MatVec(M, x) == Tup([i \in 1..Len(M) |-> RDot(M[i], x)])
ColM(M, j) == Tup([i \in 1..Len(M) |-> M[i][j]])
MatMul(A, B) == MatOf(Len(A), Len(B[1]), LAMBDA i, j : RDot(A[i], ColM(B, j)))
MatAdd(A, B) == MatOf(Len(A), Len(A[1]), LAMBDA i, j : RAdd(A[i][j], B[i][j]))
MatNeg(A) == MatOf(Len(A), Len(A[1]), LAMBDA i, j : RNeg(A[i][j]))
(* the symmetric matrix with the lower triangle of A                          *)
SymLow(A) == MatOf(Len(A), Len(A), LAMBDA i, j : IF i >= j THEN A[i][j] ELSE A[j][i])
VAdd(x, y) == Tup([i \in 1..Len(x) |-> RAdd(x[i], y[i])])
VSub(x, y) == Tup([i \in 1..Len(x) |-> RSub(x[i], y[i])])
VScale(c, x) == Tup([i \in 1..Len(x) |-> RMul(c, x[i])])

(* Gauss-Jordan elimination with row pivoting of the augmented rows W, n       *)
(* columns to go; <<>> when a pivot is below the threshold                      *)
RECURSIVE GJ(_, _, _, _)
GJ(W, k, n, tiny) ==
    IF k > n THEN W
    ELSE LET r == CHOOSE i \in k..n : \A j \in k..n : RLe(RAbs(W[j][k]), RAbs(W[i][k]))
             p == W[r][k]
         IN IF RLe(RAbs(p), tiny) THEN <<>>
            ELSE LET piv == VScale(RDiv(1, p), W[r])
                     sw(i) == IF i = r THEN W[k] ELSE W[i]
                     nx == Tup([i \in 1..n |-> IF i = k THEN piv
                                               ELSE VSub(sw(i), VScale(sw(i)[k], piv))])
                 IN GJ(nx, k + 1, n, tiny)
Inverse(M, tiny) ==
    LET n == Len(M)
        R == GJ(Tup([i \in 1..n |-> M[i] \o IdM(n)[i]]), 1, n, tiny)
    IN IF R = <<>> THEN <<>> ELSE Tup([i \in 1..n |-> Sub(R[i], n + 1, 2 * n)])
IsInverse(M, V) ==
    LET P == MatMul(M, V) IN
    \A i, j \in 1..Len(M) : RNear(P[i][j], IF i = j THEN 1 ELSE 0, "0.0000000000000000001")
=============================================================================
