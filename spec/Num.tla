-------------------------------- MODULE Num --------------------------------
(* Numbers as the data types can hold them, exactly.  A number is a sequence of integers: <<0, 0>> is zero,        *)
(* otherwise <<sign, e>> \o bits with bits the binary digits from the most significant one (weight 2^e) to the    *)
(* last one that is not zero.  <<s, 99999>> is infinity of sign s.  Not-a-number is not part of the theory.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Int8 == 0    UInt8 == 1    Int16 == 2    UInt16 == 3    Int32 == 4    UInt32 == 5    Int64 == 6    UInt64 == 7
Float32 == 8    Float64 == 9    Bool == 10    Pointer == 11    String == 12    Null == 13    Binary == 14    Array == 15
Vector == 16    List == 17    Map == 18    Multi == 19    Invalid == 20
IsInt(t) == t <= UInt64
IsFloat(t) == t \in {Float32, Float64}
IsNum(t) == t <= Float64
TypeSize == <<1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 1, 8, 8, 0, 1>>
Size(t) == IF t <= Binary THEN TypeSize[t + 1] ELSE 0
Zero == <<0, 0>>
Bits(n) == SubSeq(n, 3, Len(n))
Range(f) == {f[i] : i \in DOMAIN f}
Ones(k) == [i \in 1..k |-> 1]
RECURSIVE Strip(_)
Strip(b) == IF Len(b) > 0 /\ b[Len(b)] = 0 THEN Strip(SubSeq(b, 1, Len(b) - 1)) ELSE b
Norm(sg, e, b) == IF b = <<>> THEN Zero ELSE <<sg, e>> \o b
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) == IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
                    ELSE IF i > Len(b) THEN 1
                    ELSE IF a[i] # b[i] THEN Sgn(a[i] - b[i]) ELSE LexFrom(a, b, i + 1)
Lex(a, b) == LexFrom(a, b, 1)
(* mathematical order *)
NumCmp(a, b) == IF a[1] # b[1] THEN Sgn(a[1] - b[1])
                ELSE IF a[1] = 0 THEN 0
                ELSE a[1] * (IF a[2] # b[2] THEN Sgn(a[2] - b[2]) ELSE LexFrom(a, b, 3))
MinOf(t) == CASE t = Int8 -> <<-1, 7, 1>> [] t = Int16 -> <<-1, 15, 1>> [] t = Int32 -> <<-1, 31, 1>> [] t = Int64 -> <<-1, 63, 1>>
              [] t = Float32 -> <<-1, 127>> \o Ones(24) [] t = Float64 -> <<-1, 1023>> \o Ones(53) [] OTHER -> Zero
MaxOf(t) == CASE t = Int8 -> <<1, 6>> \o Ones(7) [] t = UInt8 -> <<1, 7>> \o Ones(8) [] t = Int16 -> <<1, 14>> \o Ones(15) [] t = UInt16 -> <<1, 15>> \o Ones(16)
              [] t = Int32 -> <<1, 30>> \o Ones(31) [] t = UInt32 -> <<1, 31>> \o Ones(32) [] t = Int64 -> <<1, 62>> \o Ones(63) [] t = UInt64 -> <<1, 63>> \o Ones(64)
              [] t = Float32 -> <<1, 127>> \o Ones(24) [] OTHER -> <<1, 1023>> \o Ones(53)
InRange(n, t) == NumCmp(n, MinOf(t)) >= 0 /\ NumCmp(n, MaxOf(t)) <= 0
(* toward zero *)
Trunc(n) == IF n[1] = 0 \/ n[2] < 0 THEN Zero
            ELSE IF Len(n) - 2 <= n[2] + 1 THEN n
            ELSE <<n[1], n[2]>> \o Strip(SubSeq(n, 3, n[2] + 3))
(* add one unit in the last place to a string of binary digits; the result may be one digit longer *)
RECURSIVE Inc(_)
Inc(b) == IF b = <<>> THEN <<1>> ELSE IF b[Len(b)] = 0 THEN SubSeq(b, 1, Len(b) - 1) \o <<1>> ELSE Inc(SubSeq(b, 1, Len(b) - 1)) \o <<0>>
(* to nearest, ties to even, p significant digits, smallest exponent of a normal number emin *)
Round(n, p, emin) ==
  IF n[1] = 0 \/ n[2] = 99999 THEN n
  ELSE LET b == Bits(n)
           k == IF n[2] < emin THEN p - (emin - n[2]) ELSE p      \* digits that remain (may be zero or negative: subnormal)
       IN IF Len(b) <= k THEN n
          ELSE IF k < 0 THEN Zero
          ELSE LET keep == SubSeq(b, 1, k)
                   up == b[k + 1] = 1 /\ (Len(b) > k + 1 \/ (k > 0 /\ keep[k] = 1))
                   r == IF up THEN Inc(keep) ELSE keep
               IN Norm(n[1], n[2] + (IF Len(r) > k THEN 1 ELSE 0), Strip(r))
ToNum(t, v) == IF t = Bool THEN (IF v = <<1>> THEN <<1, 0, 1>> ELSE Zero) ELSE v
(* the result of casting value v of type t to type u: <<ok, value>> *)
Cast(t, v, u) ==
  IF t > Bool \/ u > Bool THEN <<0, <<>>>>
  ELSE LET n == ToNum(t, v) IN
       CASE u = Bool    -> <<1, IF n = Zero THEN <<0>> ELSE <<1>>>>
         [] u = Float64 -> <<1, Round(n, 53, -1022)>>
         [] u = Float32 -> IF InRange(n, Float32) THEN <<1, Round(n, 24, -126)>> ELSE <<0, <<>>>>
         [] OTHER       -> IF InRange(n, u) THEN <<1, Trunc(n)>> ELSE <<0, <<>>>>
(* one more or one less, wrapping round at the ends of the type *)
RECURSIVE DecBits(_)
DecBits(b) == IF b[Len(b)] = 1 THEN SubSeq(b, 1, Len(b) - 1) \o <<0>> ELSE DecBits(SubSeq(b, 1, Len(b) - 1)) \o <<1>>
Lead(b) == IF \E i \in DOMAIN b : b[i] = 1 THEN CHOOSE i \in DOMAIN b : b[i] = 1 /\ \A j \in 1..(i - 1) : b[j] = 0 ELSE 0
FromBits(sg, b) == LET i == Lead(b) IN IF i = 0 THEN Zero ELSE Norm(sg, Len(b) - i, Strip(SubSeq(b, i, Len(b))))
IntBits(n) == IF n = Zero THEN <<>> ELSE Bits(n) \o [i \in 1..(n[2] + 1 - (Len(n) - 2)) |-> 0]     \* digits of an integer, none cut
AddInt(n, d) ==      \* n + d for an integer n, d = 1 or -1
  IF n = Zero THEN <<d, 0, 1>>
  ELSE IF n[1] = d THEN FromBits(d, Inc(IntBits(n)))
  ELSE FromBits(n[1], DecBits(IntBits(n)))
Step1(t, v, d) == IF d = 1 /\ v = MaxOf(t) THEN MinOf(t) ELSE IF d = -1 /\ v = MinOf(t) THEN MaxOf(t) ELSE AddInt(v, d)
=============================================================================
