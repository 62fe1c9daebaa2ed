------------------------------ MODULE WideInt ------------------------------
(* Integers wider than TLC's: sign and magnitude, the magnitude a little-endian sequence of base-256
   digits.  The integer types of the program are intervals of these numbers; a conversion is an identity
   that exists only inside the interval of the target type.  Sums and products are schoolbook. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Powers,     \* the exponents e: values are taken around +-2^e
          Spread,     \* distance from the powers
          Pairs,      \* BOOLEAN: also combine pairs
          PairPowers, PairSpread
VARIABLES a, b, phase
vars == <<a, b, phase>>
Base == 256
N == 18
Digits == 1..N
Zero == [k \in Digits |-> 0]
RECURSIVE TwoTo(_)
TwoTo(k) == IF k = 0 THEN 1 ELSE 2 * TwoTo(k - 1)
Pow(e) == [k \in Digits |-> IF k = e \div 8 + 1 THEN TwoTo(e % 8) ELSE 0]
Small(d) == [k \in Digits |-> IF k = 1 THEN d ELSE 0]    \* 0 <= d < Base

\* magnitude comparison, addition, subtraction (x >= y), product
RECURSIVE LessAt(_, _, _)
LessAt(x, y, k) == IF k = 0 THEN FALSE ELSE IF x[k] # y[k] THEN x[k] < y[k] ELSE LessAt(x, y, k - 1)
Less(x, y) == LessAt(x, y, N)
RECURSIVE AddFrom(_, _, _, _)
AddFrom(x, y, k, c) == IF k > N THEN <<>>
                       ELSE <<(x[k] + y[k] + c) % Base>> \o AddFrom(x, y, k + 1, (x[k] + y[k] + c) \div Base)
Add(x, y) == AddFrom(x, y, 1, 0)
RECURSIVE SubFrom(_, _, _, _)
SubFrom(x, y, k, c) == IF k > N THEN <<>>
                       ELSE LET d == x[k] - y[k] - c IN <<(d + Base) % Base>> \o SubFrom(x, y, k + 1, IF d < 0 THEN 1 ELSE 0)
Sub(x, y) == SubFrom(x, y, 1, 0)
RECURSIVE ConvSum(_, _, _, _)
ConvSum(x, y, k, i) == IF i > k THEN 0 ELSE x[i] * y[k - i + 1] + ConvSum(x, y, k, i + 1)
RECURSIVE MulFrom(_, _, _, _)
MulFrom(x, y, k, c) == IF k > N THEN <<>>
                       ELSE LET s == ConvSum(x, y, k, 1) + c IN <<s % Base>> \o MulFrom(x, y, k + 1, s \div Base)
Mul(x, y) == MulFrom(x, y, 1, 0)

\* signed numbers; zero is never negative
Norm(neg, m) == [neg |-> neg /\ m # Zero, mag |-> m]
SLess(x, y) == CASE x.neg /\ ~y.neg -> TRUE
                 [] ~x.neg /\ y.neg -> FALSE
                 [] x.neg /\ y.neg -> Less(y.mag, x.mag)
                 [] OTHER -> Less(x.mag, y.mag)
SAdd(x, y) == IF x.neg = y.neg THEN Norm(x.neg, Add(x.mag, y.mag))
              ELSE IF Less(x.mag, y.mag) THEN Norm(y.neg, Sub(y.mag, x.mag)) ELSE Norm(x.neg, Sub(x.mag, y.mag))
SMul(x, y) == Norm(x.neg # y.neg, Mul(x.mag, y.mag))

\* types 1..8: i8 u8 i16 u16 i32 u32 i64 u64 as half-open intervals
Bits(t) == <<8, 8, 16, 16, 32, 32, 64, 64>>[t]
Unsigned(t) == t % 2 = 0
Low(t) == IF Unsigned(t) THEN Norm(FALSE, Zero) ELSE Norm(TRUE, Pow(Bits(t) - 1))
Bound(t) == Norm(FALSE, IF Unsigned(t) THEN Pow(Bits(t)) ELSE Pow(Bits(t) - 1))
Fits(x, t) == ~SLess(x, Low(t)) /\ SLess(x, Bound(t))
FitBits(x) == [t \in 1..8 |-> IF Fits(x, t) THEN 1 ELSE 0]

Around(es, sp) == {Norm(n, Add(Pow(e), Small(d))) : n \in BOOLEAN, e \in es, d \in 0..sp}
             \cup {Norm(n, Sub(Pow(e), Small(d))) : n \in BOOLEAN, e \in {x \in es : TwoTo(IF x > 20 THEN 20 ELSE x) > sp}, d \in 1..sp}
             \cup {Norm(n, Small(d)) : n \in BOOLEAN, d \in 0..sp}
Init == /\ a \in Around(Powers, Spread) /\ b = a /\ phase = "one"
Next == /\ phase = "one" /\ Pairs /\ a \in Around(PairPowers, PairSpread)
        /\ b' \in Around(PairPowers, PairSpread) /\ phase' = "two" /\ UNCHANGED a
Spec == Init /\ [][Next]_vars

\* laws of the arithmetic itself
Laws == phase = "two" => /\ SAdd(a, b) = SAdd(b, a) /\ SMul(a, b) = SMul(b, a)
                         /\ SAdd(SAdd(a, b), Norm(~b.neg, b.mag)) = a
                         /\ SMul(a, SAdd(b, Norm(FALSE, Small(1)))) = SAdd(SMul(a, b), a)
TypeLattice == \A s, t \in 1..8 : (Unsigned(s) = Unsigned(t) /\ Bits(s) <= Bits(t) /\ Fits(a, s)) => Fits(a, t)
Show(x) == <<IF x.neg THEN 1 ELSE 0, x.mag>>
Emit == IF phase = "one" THEN PrintT(<<"V", Show(a), FitBits(a)>>)
        ELSE PrintT(<<"P", Show(a), FitBits(a), Show(b), FitBits(b),
                      Show(SAdd(a, b)), FitBits(SAdd(a, b)), Show(SMul(a, b)), FitBits(SMul(a, b))>>)
=============================================================================
