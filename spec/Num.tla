-------------------------------- MODULE Num --------------------------------
(* Integer arithmetic shared by all modules.  TLC integers have 32 bits, so real numbers of the code appear   *)
(* either exactly, as multiples of a unit fixed by the trace format, or in fixed point with scale K.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

K == 5000                          \* fixed-point scale of z-normalised values
IMAX == 2147483647

Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SumSq(s) == FoldLeft(LAMBDA a, b : a + b * b, 0, s)
MaxSeq(s) == FoldLeft(LAMBDA a, b : IF a < b THEN b ELSE a, s[1], s)
MinSeq(s) == FoldLeft(LAMBDA a, b : IF b < a THEN b ELSE a, s[1], s)
MinSet(S) == CHOOSE a \in S : \A b \in S : a <= b
MaxSet(S) == CHOOSE a \in S : \A b \in S : a >= b
Count(s, P(_)) == FoldLeft(LAMBDA a, b : IF P(b) THEN a + 1 ELSE a, 0, s)
\* Euclidean floor division is TLA's \div; DivRound rounds to nearest
DivRound(a, b) == (2 * a + b) \div (2 * b)
\* the same without doubling, for numerators close to IMAX
DivNear(a, b) == LET q == a \div b r == a % b IN IF r >= b - r THEN q + 1 ELSE q

RECURSIVE SqrtStep(_, _)
SqrtStep(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE SqrtStep(n, y)
\* floor of the square root
ISqrt(n) ==
  IF n = 0 THEN 0
  ELSE SqrtStep(n, CASE n < 16 -> 4 [] n < 256 -> 16 [] n < 4096 -> 64 [] n < 65536 -> 256
                     [] n < 1048576 -> 1024 [] n < 16777216 -> 4096 [] n < 268435456 -> 16384 [] OTHER -> 46341)

Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)

\* 100 times the p-th percentile (linear interpolation) of the integers s, p an integer in 0..100
Percentile100(srt, p) ==
  LET n == Len(srt)
      q == (n - 1) * p
      k == q \div 100
      r == q % 100
  IN 100 * srt[k + 1] + (IF r = 0 THEN 0 ELSE r * (srt[k + 2] - srt[k + 1]))

IsPrime(n) == n >= 2 /\ \A m \in 2..ISqrt(n) : n % m # 0

\* z-normalisation of a window of integers, scaled by K.  With u = w - w[1], S = sum u, D = l * sum u^2 - S^2,
\* (w - mean) / deviation = (l * u - S) / sqrt(D).  M scales the root up to use all 31 bits.
ZNorm(w) ==
  LET l == Len(w)
      b == w[1]
      u == [i \in 1..l |-> w[i] - b]
      S == Sum(u)
      D == l * SumSq(u) - S * S
  IN IF D = 0 THEN [i \in 1..l |-> 0]
     ELSE LET M == ISqrt(IMAX \div D)
              r == ISqrt(D * M * M)
          IN [i \in 1..l |-> DivNear((l * u[i] - S) * M * K, r)]
=============================================================================
