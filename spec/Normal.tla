------------------------------- MODULE Normal -------------------------------
(***************************************************************************)
(* The normal distribution in one and two variables, over the reals of      *)
(* MLReal: the series of the error function, and Plackett's identity        *)
(*      d/dr P(X <= h, Y <= k; r) = density of (h, k) with correlation r     *)
(* integrated from the independent case by Gauss-Legendre panels, over       *)
(* t = tan(arcsin(r) / 2), where the density is bounded.                     *)
(***************************************************************************)
EXTENDS MLReal

Dens(x) == RDiv(RExp(RDiv(RMul(x, x), -2)), RSqrt(RMul(2, RPi)))
(* sum of x^(2k+1) / (2k+1)!!                                                *)
RECURSIVE OddSeries(_, _, _, _)
OddSeries(x2, t, k, acc) ==
    IF RLt(RAbs(t), "1e-36") THEN acc
    ELSE OddSeries(x2, RDiv(RMul(t, x2), 2 * k + 3), k + 1, RAdd(acc, t))
Phi(x) == IF REq(x, 0) THEN "0.5" ELSE RAdd("0.5", RMul(Dens(x), OddSeries(RMul(x, x), x, 0, 0)))

(* nodes and weights on [0, 1]                                               *)
Nodes == <<  <<"0.0092196828766403746547254549253596", "0.023587668193255913597307980742509">>,
             <<"0.047941371814762571660767066940452", "0.053469662997659215480127359096998">>,
             <<"0.11504866290284765648155308339359", "0.08003916427167311316732626477168">>,
             <<"0.20634102285669127635164879052973", "0.1015837133615329608745322279049">>,
             <<"0.31608425050090990312365423167814", "0.11674626826917740438042494946244">>,
             <<"0.43738329574426554226377931526807", "0.12457352290670139250028121802148">>,
             <<"0.56261670425573445773622068473193", "0.12457352290670139250028121802148">>,
             <<"0.68391574949909009687634576832186", "0.11674626826917740438042494946244">>,
             <<"0.79365897714330872364835120947027", "0.1015837133615329608745322279049">>,
             <<"0.88495133709715234351844691660641", "0.08003916427167311316732626477168">>,
             <<"0.95205862818523742833923293305955", "0.053469662997659215480127359096998">>,
             <<"0.99078031712335962534527454507464", "0.023587668193255913597307980742509">>>>
Panels == 6
(* the density with correlation sin(w), w = 2 arctan(t), by dt               *)
Slice(h, k, t) ==
    LET t2 == RMul(t, t)
        o == RAdd(1, t2)
        r == RDiv(RMul(2, t), o)
        c == RSub(1, RMul(r, r))
        q == RAdd(RAdd(RMul(h, h), RMul(k, k)), RMul(-2, RMul(r, RMul(h, k))))
    IN RDiv(RExp(RDiv(q, RMul(-2, c))), RMul(RPi, o))
Phi2(h, k, r) ==
    LET n == Len(Nodes)
        end == RDiv(r, RAdd(1, RSqrt(RSub(1, RMul(r, r)))))
        w == RDiv(end, Panels)
        part(j) == LET pan == (j - 1) \div n  nd == Nodes[((j - 1) % n) + 1]
                   IN RMul(nd[2], Slice(h, k, RMul(w, RAdd(pan, nd[1]))))
    IN RAdd(RMul(Phi(h), Phi(k)), RMul(w, RSum(Tup([j \in 1..(Panels * n) |-> part(j)]))))
=============================================================================
