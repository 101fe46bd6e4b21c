------------------------------- MODULE Rational -------------------------------
(* Decimal expansion of rational numbers by long division (TLC's integers have  *)
(* 32 bits, so num * 10^k cannot be formed).                                    *)
EXTENDS Integers
RECURSIVE Dec_(_, _, _, _)
Dec_(r, den, k, acc) == IF k = 0 THEN acc
                        ELSE Dec_((10 * r) % den, den, k - 1, 10 * acc + (10 * r) \div den)
\* floor(num / den * 10^k) for num >= 0, den > 0
Decimal(num, den, k) == Dec_(num % den, den, k, num \div den)
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, tol) == Abs(x - y) <= tol
===============================================================================
