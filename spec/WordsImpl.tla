------------------------------ MODULE WordsImpl ----------------------------
(* C21, the shape of the implementation: the arithmetic of the portable    *)
(* and of the popcount-only branches, on words of 16 bits where the code   *)
(* has 64, against what the operations mean bit by bit. Every word.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, Bitwise, TLC, Json
CONSTANTS Highs                            \* the upper halves taken
VARIABLES x, done                          \* the upper half is chosen first, so that workers share the words
vars == <<x, done>>
W == 16
Top == 65535
Init == x \in Highs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ \E lo \in 0..255 : x' = 256 * x + lo
Spec == Init /\ [][Next]_vars
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
Pow(k) == P2[k + 1]
Sh(v, k) == v \div Pow(k)
Shl(v, k) == (v * Pow(k)) % 65536
Bit(v, j) == (v \div Pow(j)) % 2
M1 == 21845   \* 5555
M2 == 13107   \* 3333
M4 == 3855    \* 0F0F
M8 == 255     \* 00FF
\* ---- meaning
Pop(v, a, b) == Cardinality({j \in a..(b - 1) : Bit(v, j) = 1})
Ctz(v) == IF v = 0 THEN W ELSE Min({j \in 0..(W - 1) : Bit(v, j) = 1})
Clz(v) == IF v = 0 THEN W ELSE W - 1 - Max({j \in 0..(W - 1) : Bit(v, j) = 1})
SelAt(v, i) == CHOOSE j \in 0..(W - 1) : Bit(v, j) = 1 /\ Pop(v, 0, j) = i - 1
F2(v, hi, lo) == Cardinality({k \in 0..7 : Bit(v, 2 * k + 1) = hi /\ Bit(v, 2 * k) = lo})
F3(v, hi, mid, lo) == Cardinality({k \in 0..4 : Bit(v, 3 * k + 2) = hi /\ Bit(v, 3 * k + 1) = mid /\ Bit(v, 3 * k) = lo})
\* ---- the arithmetic
Swar2(v) == LET b == (v & M2) + (Sh(v, 2) & M2)  c == (b + Sh(b, 4)) & M4 IN Sh((257 * c) % 65536, 8)
PopI(v) == Swar2(v - (Sh(v, 1) & M1))
Tab8(v) == Pop(v, 0, 8)                                  \* the table of bytes
Pop16I(v) == Tab8(Sh(v, 8) & 255) + Tab8(v & 255)
Neg(v) == Top - v
TestLow(v, c, m, k) == IF (v & m) # 0 THEN <<v & m, c + k>> ELSE <<v, c>>
CtzI(v) == IF v = 0 THEN W
           ELSE LET a == TestLow(v, 0, M8, 8)  b == TestLow(a[1], a[2], M4, 4)  c == TestLow(b[1], b[2], M2, 2)
                    d == TestLow(c[1], c[2], M1, 1) IN d[2] ^^ (W - 1)
ClzI(v) == IF v = 0 THEN W
           ELSE LET a == TestLow(v, 0, Top - M8, 8)  b == TestLow(a[1], a[2], Top - M4, 4)  c == TestLow(b[1], b[2], Top - M2, 2)
                    d == TestLow(c[1], c[2], Top - M1, 1) IN d[2] ^^ (W - 1)
CtzP(v) == LET low == v & ((65536 - v) % 65536) IN PopI((low + Top) % 65536)
Smear(v) == LET a == v | Sh(v, 1)  b == a | Sh(a, 2)  c == b | Sh(b, 4) IN c | Sh(c, 8)
ClzP(v) == PopI(Neg(Smear(v)))
P11I(v) == Swar2((v & Sh(v, 1)) & M1)
P10I(v) == Swar2((Neg(v) & Sh(v, 1)) & M1)
Three(v) == LET w == v & 4681                            \* 1249
                s == (w + Sh(w, 3)) & 12483              \* 30C3
            IN (Sh((65 * s) % 65536, 6) & 63) + Sh(s, 12)
P111I(v) == Three((v & Sh(v, 1)) & Sh(v, 2))
P110I(v) == Three((Neg(v) & Sh(v, 1)) & Sh(v, 2))
P101I(v) == Three((v & Sh(Neg(v), 1)) & Sh(v, 2))
P100I(v) == Three((Neg(v) & Sh(Neg(v), 1)) & Sh(v, 2))
\* by halves: 8, then the table of 8 replaced by 4 and a table of 4
SelI(v, i) == LET a == PopI(v & 255)
                  s1 == IF a < i THEN <<Sh(v, 8), i - a, 8>> ELSE <<v, i, 0>>
                  b == Tab8(s1[1] & 15)
                  s2 == IF b < s1[2] THEN <<Sh(s1[1], 4), s1[2] - b, s1[3] + 4>> ELSE s1
                  q == s2[1] & 15
              IN s2[3] + 1 + (CHOOSE j \in 0..3 : Bit(q, j) = 1 /\ Pop(q, 0, j) = s2[2] - 1)
Deposit(v, m) == LET ones == {j \in 0..(W - 1) : Bit(m, j) = 1} IN MapThenSumSet(Pow, {k \in ones : Bit(v, Pop(m, 0, k)) = 1})
SelD(v, i) == CtzP(Deposit(Pow(i - 1), v)) + 1
Swap(v, m, k) == Shl(v & m, k) | Sh(v & (Top - m), k)
Mask(d) == CASE d = 1 -> M1 [] d = 2 -> M2 [] d = 4 -> M4 [] d = 8 -> M8
Xor4(j, m) == j ^^ m
\* four words of 4 bits: word w holds bits 4w..4w+3
Wd(v, w) == Sh(v, 4 * w) % 16
Join(w) == w[1] + 16 * w[2] + 256 * w[3] + 4096 * w[4]
XmI(v, m) ==
    LET w0 == [k \in 1..4 |-> Wd(v, k - 1)]
        w1 == IF Bit(m, 0) = 1 THEN [k \in 1..4 |-> (2 * (w0[k] & 5)) | ((w0[k] & 10) \div 2)] ELSE w0
        w2 == IF Bit(m, 1) = 1 THEN [k \in 1..4 |-> ((w1[k] * 4) % 16) | (w1[k] \div 4)] ELSE w1
        w3 == IF Bit(m, 2) = 1 THEN <<w2[2], w2[1], w2[4], w2[3]>> ELSE w2
        w4 == IF Bit(m, 3) = 1 THEN <<w3[3], w3[4], w3[1], w3[2]>> ELSE w3
    IN Join(w4)
\* ---- invariants
PopOK == done => LET p == Pop(x, 0, W) IN PopI(x) = p /\ Pop16I(x) = p
ZerosOK == done => CtzI(x) = Ctz(x) /\ ClzI(x) = Clz(x) /\ CtzP(x) = Ctz(x) /\ ClzP(x) = Clz(x)
FieldsOK == done => /\ P11I(x) = F2(x, 1, 1) /\ P10I(x) = F2(x, 1, 0)
            /\ P111I(x) = F3(x, 1, 1, 1) /\ P110I(x) = F3(x, 1, 1, 0) /\ P101I(x) = F3(x, 1, 0, 1) /\ P100I(x) = F3(x, 1, 0, 0)
SelOK == done => \A i \in 1..Pop(x, 0, W) : SelI(x, i) = SelAt(x, i) + 1 /\ SelD(x, i) = SelAt(x, i) + 1
SwapOK == done => \A d \in {1, 2, 4, 8} : \A j \in 0..(W - 1) : Bit(Swap(x, Mask(d), d), j) = Bit(x, IF (j \div d) % 2 = 0 THEN j + d ELSE j - d)
ExtractOK == done => \A s \in 0..(W - 1) : \A l \in 0..W : LET r == Sh(x, s) & (IF l < W THEN Pow(l) - 1 ELSE Top) IN
                \A j \in 0..(W - 1) : Bit(r, j) = IF j < l /\ s + j < W THEN Bit(x, s + j) ELSE 0
XorMapOK == done => \A m \in 0..15 : LET y == XmI(x, m) IN \A j \in 0..15 : Bit(y, j) = Bit(x, Xor4(j, m))
AllHighs == 0..255
SomeHighs == {0, 1, 2, 3, 7, 15, 16, 51, 64, 85, 90, 102, 127, 128, 146, 153, 170, 192, 204, 219, 240, 254, 255}
Emit == (done /\ x < 256) => PrintT("@@" \o ToJson(x))
=============================================================================
