-------------------------------- MODULE Dec --------------------------------
(* Decimal numerals and the binary numbers nearest to them, decided exactly. Natural numbers are sequences of base   *)
(* 10^4 digits, least significant first, without leading zeros (<<>> is zero).  Binary numbers are those of Num.     *)
EXTENDS Num
Base == 10000
RECURSIVE Limbs(_)
Limbs(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Limbs(n \div Base)
RECURSIVE MulAdd(_, _, _)      \* a * m + c, m and c at most 10^4
MulAdd(a, m, c) == IF a = <<>> THEN Limbs(c) ELSE LET x == Head(a) * m + c IN <<x % Base>> \o MulAdd(Tail(a), m, x \div Base)
TwoTo == [k \in 0..13 |-> 2 ^ k]
RECURSIVE Pow2(_, _)           \* a * 2^k
Pow2(a, k) == IF k <= 0 THEN a ELSE LET w == IF k > 13 THEN 13 ELSE k IN Pow2(MulAdd(a, TwoTo[w], 0), k - w)
Pow10(a, k) == IF a = <<>> THEN a ELSE [i \in 1..(k \div 4) |-> 0] \o (LET r == k % 4 IN IF r = 0 THEN a ELSE MulAdd(a, 10 ^ r, 0))
RECURSIVE BitVal(_, _, _, _)
BitVal(b, i, j, acc) == IF i > j THEN acc ELSE BitVal(b, i + 1, j, 2 * acc + b[i])
RECURSIVE NatBits(_, _, _)     \* the number with binary digits b, from the i-th on, most significant first
NatBits(b, i, acc) == IF i > Len(b) THEN acc ELSE LET w == IF Len(b) - i + 1 > 13 THEN 13 ELSE Len(b) - i + 1 IN NatBits(b, i + w, MulAdd(acc, TwoTo[w], BitVal(b, i, i + w - 1, 0)))
RECURSIVE NatDigits(_, _, _)   \* the number with decimal digits (character codes) ds
NatDigits(ds, i, acc) == IF i > Len(ds) THEN acc ELSE NatDigits(ds, i + 1, MulAdd(acc, 10, ds[i] - 48))
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE CmpAt(a, b, i - 1)
CmpNat(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpAt(a, b, Len(a))
RECURSIVE Dec1(_)
Dec1(a) == IF a = <<1>> THEN <<>> ELSE IF Head(a) > 0 THEN <<Head(a) - 1>> \o Tail(a) ELSE LET t == Dec1(Tail(a)) IN <<Base - 1>> \o t
Even(a) == a = <<>> \/ Head(a) % 2 = 0
(* a decimal: <<negative, digits as natural number, k>> stands for digits * 10^k *)
CmpDB(D, k, M, q) == CmpNat(Pow2(Pow10(D, IF k > 0 THEN k ELSE 0), IF q < 0 THEN -q ELSE 0), Pow2(Pow10(M, IF k < 0 THEN -k ELSE 0), IF q > 0 THEN q ELSE 0))
DigitsOf(D) == IF D = <<>> THEN 0 ELSE LET h == D[Len(D)] IN 4 * (Len(D) - 1) + (IF h < 10 THEN 1 ELSE IF h < 100 THEN 2 ELSE IF h < 1000 THEN 3 ELSE 4)
(* x is the number of a binary format (p digits, exponents emin to emax) nearest to the decimal, ties to even *)
NearestIn(d, x, p, emin, emax) ==
  LET D == d[2]  k == d[3]  sg == IF d[1] = 1 THEN -1 ELSE 1  adj == DigitsOf(D) + k IN
  IF D = <<>> THEN x = Zero
  ELSE IF adj > emax + 20 THEN x = <<sg, 99999>>       \* 10^(adj - 1) is beyond 2^(emax + 1)
  ELSE IF adj < emin - p - 20 THEN x = Zero
  ELSE IF x = <<sg, 99999>> THEN CmpDB(D, k, Dec1(Pow2(<<1>>, p + 1)), emax - p) >= 0
  ELSE IF x = Zero THEN CmpDB(D, k, <<1>>, emin - p) <= 0
  ELSE IF x[1] # sg THEN FALSE
  ELSE LET b == Bits(x)  e == x[2]  q == (IF e < emin THEN emin ELSE e) - (p - 1)  low == e - (Len(b) - 1) IN
       IF e > emax \/ low < q THEN FALSE
       ELSE LET M == Pow2(NatBits(b, 1, <<>>), low - q)
                up == CmpDB(D, k, MulAdd(M, 2, 1), q - 1)
                dn == IF e > emin /\ M = Pow2(<<1>>, p - 1) THEN CmpDB(D, k, Dec1(Pow2(M, 2)), q - 2) ELSE CmpDB(D, k, Dec1(Pow2(M, 1)), q - 1)
            IN (up < 0 \/ (up = 0 /\ Even(M))) /\ (dn > 0 \/ (dn = 0 /\ Even(M)))
Nearest64(d, x) == NearestIn(d, x, 53, -1022, 1023)
Nearest32(d, x) == NearestIn(d, x, 24, -126, 127)
(* an integer of Num is the decimal integer with the sign and digits given *)
IntIs(neg, D, x) == IF D = <<>> THEN x = Zero ELSE x # Zero /\ x[1] = (IF neg = 1 THEN -1 ELSE 1) /\ x[2] >= 0 /\ Len(x) - 3 <= x[2] /\ NatBits(IntBits(x), 1, <<>>) = D
P63 == Pow2(<<1>>, 63)
P64 == Pow2(<<1>>, 64)
=============================================================================
