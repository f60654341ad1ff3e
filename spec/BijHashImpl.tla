---------------------------- MODULE BijHashImpl -----------------------------
(* C11, the shape of the implementation: a xorshift by at least half of the *)
(* width, a multiplication by an odd number modulo 2^w, three times in a    *)
(* row; the inverse undoes the steps in reverse order. For every width up   *)
(* to MaxW, every odd multiplier (the three may be equal) and every x.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Bitwise, Json
CONSTANT MaxW
VARIABLES w, p, x
vars == <<w, p, x>>
M == 2^w
Half == (w + 1) \div 2
Xs(k, y) == y ^^ (y \div 2^(Half + k))
Inv(q) == CHOOSE r \in 1..M : (q * r) % M = 1 % M
Mul(q, y) == (y * q) % M
Step(k, y) == Mul(p, Xs(k, y))
Back(k, y) == Xs(k, Mul(Inv(p), y))
Hash(y) == Step(2, Step(1, Step(0, y)))
IHash(y) == Back(0, Back(1, Back(2, y)))
Init == /\ w \in 1..MaxW /\ p \in {q \in 1..(2^MaxW) : q % 2 = 1 /\ q < 2^w} /\ x = 0
Next == x < M - 1 /\ x' = x + 1 /\ UNCHANGED <<w, p>>
Spec == Init /\ [][Next]_vars
XsInvolution == \A k \in 0..2 : Xs(k, Xs(k, x)) = x /\ Xs(k, x) < M
Inverse == Hash(x) < M /\ IHash(Hash(x)) = x /\ Hash(IHash(x)) = x
Permutes == x = 0 => Cardinality({Hash(y) : y \in 0..(M - 1)}) = M
Emit == p = 1 => PrintT("@@" \o ToJson(<<w, x>>))
=============================================================================
