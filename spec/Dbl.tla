------------------------------- MODULE Dbl -------------------------------
(* IEEE-754 double arithmetic for TLC.  TLC integers have 32 bits and TLC  *)
(* has no reals, so a double is the pair <<hi, lo>> of its two 32-bit      *)
(* halves; the operators are implemented by java/Dbl.java (a TLC module    *)
(* override).  The right-hand sides below only declare the operators.      *)
EXTENDS Integers, Sequences
Undef == CHOOSE x \in {} : TRUE
DAdd(a, b) == Undef
DSub(a, b) == Undef
DMul(a, b) == Undef
DDiv(a, b) == Undef
DNeg(a) == Undef
DAbs(a) == Undef
DLt(a, b) == Undef
DLe(a, b) == Undef
DEq(a, b) == Undef
DMin(a, b) == Undef
DMax(a, b) == Undef
DInt(n) == Undef              \* the double equal to the integer n
DRat(n, m) == Undef           \* n / m
DDec(n, e) == Undef           \* n * 10^e
DTrunc(a) == Undef            \* to an integer, towards zero
DFloor(a) == Undef
DSqrt(a) == Undef
DExp(a) == Undef
DLog(a) == Undef
DLog2(a) == Undef
DIsNaN(a) == Undef
DIsInf(a) == Undef
DFloat(a) == Undef            \* rounded to single precision
DClose(a, b) == Undef         \* equal up to 1e-9 (relative above 1, absolute below)
DNear(a, b, k) == Undef       \* equal up to 10^-k
DLtSure(a, b) == Undef        \* a < b by more than the tolerance
DLePoss(a, b) == Undef        \* a <= b up to the tolerance
DSum(s) == Undef              \* sum of a sequence of doubles
DStr(a) == Undef              \* readable, for messages
Canon(s) == Undef            \* the sequence s in a canonical order (to treat it as a bag)
=============================================================================
