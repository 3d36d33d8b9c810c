------------------------------ MODULE RealNum ------------------------------
(* Real arithmetic for TLC.  A real number is carried as a decimal string   *)
(* ("0.138"); Ints are accepted wherever a real is.  TLC evaluates these     *)
(* operators with the IEEE-double implementation in java/RealNum.java; the  *)
(* TLA+ bodies below only fix arity and result sort (they are never used).  *)
EXTENDS Integers, Sequences
RAdd(x, y) == "0"   \* x + y
RSub(x, y) == "0"   \* x - y
RMul(x, y) == "0"   \* x * y
RDiv(x, y) == "0"   \* x / y
RPow(x, y) == "0"   \* x ^ y
RNeg(x) == "0"
RAbs(x) == "0"
RSqrt(x) == "0"
RLn(x) == "0"
RLog10(x) == "0"
RExp(x) == "0"
RSin(x) == "0"
RCos(x) == "0"
RAsin(x) == "0"
RAcos(x) == "0"
RAtan2(y, x) == "0"
RFloor(x) == 0
RReal(x) == "0"
RLt(x, y) == FALSE
RLe(x, y) == FALSE
REq(x, y) == FALSE
RFinite(x) == FALSE
RMin(x, y) == "0"
RMax(x, y) == "0"
RNear(x, y, rtol, atol) == FALSE   \* |x-y| <= atol + rtol*max(|x|,|y|); NaN ~ NaN
RSum(s) == "0"
RSeqMax(s) == "0"
RSeqMin(s) == "0"
RArgSort(s) == << >>  \* stable ascending argsort, 1-based

x \oplus y == RAdd(x, y)
x \ominus y == RSub(x, y)
x \otimes y == RMul(x, y)
x \oslash y == RDiv(x, y)
x \prec y == RLt(x, y)
x \preceq y == RLe(x, y)
RSq(x) == RMul(x, x)
RCube(x) == RMul(x, RMul(x, x))
RPi == "3.141592653589793"
RDeg == "57.29577951308232"
RNorm3(v) == RSqrt(RSq(v[1]) \oplus RSq(v[2]) \oplus RSq(v[3]))
RNorm2(v) == RSqrt(RSq(v[1]) \oplus RSq(v[2]))
RMap(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
RMean(s) == RSum(s) \oslash Len(s)
=============================================================================
