------------------------------- MODULE Int32 -------------------------------
(***************************************************************************)
(* 32-bit two's-complement arithmetic, as Minecraft scoreboards do it:     *)
(* + - * wrap around, / truncates towards zero, % takes the sign of the    *)
(* dividend.  TLC's own integers are 32-bit and raise an error on          *)
(* overflow, so every operator works by case analysis / 16-bit limbs and   *)
(* never lets an intermediate value leave the range.                       *)
(***************************************************************************)
EXTENDS Integers

MaxInt == 2147483647
MinInt == -2147483647 - 1

Add32(a, b) ==
  IF a >= 0 /\ b >= 0
  THEN IF a > MaxInt - b THEN (a + MinInt) + (b + MinInt) ELSE a + b
  ELSE IF a < 0 /\ b < 0
       THEN IF a < MinInt - b THEN (a - MinInt) + (b - MinInt) ELSE a + b
       ELSE a + b

Neg32(a) == IF a = MinInt THEN MinInt ELSE -a

Sub32(a, b) == IF b = MinInt THEN Add32(Add32(a, MaxInt), 1) ELSE Add32(a, -b)

\* p * 2^8 (mod 2^32) for 0 <= p < 2^24
Shl8(p) == LET q == (p % 8388608) * 256
           IN IF p >= 8388608 THEN q + MinInt ELSE q

Small(a) == a >= -46340 /\ a <= 46340

Mul32(a, b) ==
  IF Small(a) /\ Small(b) THEN a * b
  ELSE LET ah == a \div 65536
           al == a % 65536
           bh == b \div 65536
           bl == b % 65536
           a1 == al \div 256
           a0 == al % 256
           cc == (((ah * bl) % 65536) + ((al * bh) % 65536)) % 65536
           ch == IF cc < 32768 THEN cc * 65536 ELSE (cc - 65536) * 65536
       IN Add32(Add32(Shl8(a1 * bl), a0 * bl), ch)

Abs32(a) == IF a < 0 THEN -a ELSE a      \* a # MinInt

\* requires b # 0; MinInt / -1 wraps to MinInt
Div32(a, b) ==
  IF b = MinInt THEN (IF a = MinInt THEN 1 ELSE 0)
  ELSE IF a = MinInt
       THEN LET m == Abs32(b)
                q == IF m = 1 THEN 0 ELSE (((MaxInt - m) + 1) \div m) + 1
            IN IF m = 1 THEN MinInt ELSE (IF b > 0 THEN -q ELSE q)
       ELSE LET q == Abs32(a) \div Abs32(b)
            IN IF (a >= 0) = (b > 0) THEN q ELSE -q

\* requires b # 0
Mod32(a, b) ==
  IF b = MinInt THEN (IF a = MinInt THEN 0 ELSE a)
  ELSE IF a = MinInt
       THEN LET m == Abs32(b) IN -(((MaxInt % m) + 1) % m)
       ELSE LET r == Abs32(a) % Abs32(b) IN IF a >= 0 THEN r ELSE -r

Min32(a, b) == IF a <= b THEN a ELSE b
Max32(a, b) == IF a >= b THEN a ELSE b

\* does the exact result leave 32 bits?
AddOv(a, b) == (b > 0 /\ a > MaxInt - b) \/ (b < 0 /\ a < MinInt - b)
SubOv(a, b) == IF b = MinInt THEN a >= 0 ELSE AddOv(a, -b)
MulOv(a, b) ==
  IF a = 0 \/ b = 0 \/ a = 1 \/ b = 1 THEN FALSE
  ELSE IF a = MinInt \/ b = MinInt THEN TRUE
  ELSE LET x == Abs32(a) y == Abs32(b)
       IN /\ x > MaxInt \div y
          /\ ~((a < 0) # (b < 0) /\ x - 1 <= MaxInt \div y /\ (x - 1) * y = (MaxInt - y) + 1)
=============================================================================
