-------------------------------- MODULE Rings --------------------------------
(***************************************************************************)
(* The rings the machines are run over.                                    *)
(*   R..   residues modulo the prime P (a real value, computed exactly)    *)
(*   C..   pairs <<re, im>> of residues (a complex value)                  *)
(*   D_..  multi-dual numbers <<v, <<e1,...,ek>>>>: the value and its      *)
(*         derivative in k directions at once; <<>> means all zero         *)
(*   H_..  hyper-dual numbers <<v, d1, d2, d12>>: value, two directional   *)
(*         derivatives and the mixed second derivative                     *)
(* P < 2^15, so that no intermediate leaves TLC's 32-bit integers.         *)
(* An observed value that is not on the grid (not finite, not an integer   *)
(* multiple of the case's unit, out of range) is recorded as -1, which is  *)
(* equal to no residue.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT P

RAdd(a, b) == (a + b) % P
RMul(a, b) == (a * b) % P
RNeg(a) == (P - a) % P
RCj(a) == a

CAdd(a, b) == <<(a[1] + b[1]) % P, (a[2] + b[2]) % P>>
CMul(a, b) == <<(a[1] * b[1] - a[2] * b[2]) % P, (a[1] * b[2] + a[2] * b[1]) % P>>
CNeg(a) == <<(P - a[1]) % P, (P - a[2]) % P>>
CCj(a) == <<a[1], (P - a[2]) % P>>
CZero == <<0, 0>>
COne == <<1, 0>>

\* multi-dual over R
DRE(e, f) == IF e = <<>> THEN f ELSE IF f = <<>> THEN e ELSE TLCEval([i \in 1..Len(e) |-> (e[i] + f[i]) % P])
DRS(a, e) == IF e = <<>> \/ a = 0 THEN <<>> ELSE TLCEval([i \in 1..Len(e) |-> (a * e[i]) % P])
DRAdd(a, b) == <<(a[1] + b[1]) % P, DRE(a[2], b[2])>>
DRMul(a, b) == <<(a[1] * b[1]) % P, DRE(DRS(a[1], b[2]), DRS(b[1], a[2]))>>
DRNeg(a) == <<(P - a[1]) % P, TLCEval([i \in 1..Len(a[2]) |-> (P - a[2][i]) % P])>>
DRCj(a) == a
DRZero == <<0, <<>>>>
DROne == <<1, <<>>>>

\* multi-dual over C
DCE(e, f) == IF e = <<>> THEN f ELSE IF f = <<>> THEN e ELSE TLCEval([i \in 1..Len(e) |-> CAdd(e[i], f[i])])
DCS(a, e) == IF e = <<>> \/ a = CZero THEN <<>> ELSE TLCEval([i \in 1..Len(e) |-> CMul(a, e[i])])
DCAdd(a, b) == <<CAdd(a[1], b[1]), DCE(a[2], b[2])>>
DCMul(a, b) == <<CMul(a[1], b[1]), DCE(DCS(a[1], b[2]), DCS(b[1], a[2]))>>
DCNeg(a) == <<CNeg(a[1]), TLCEval([i \in 1..Len(a[2]) |-> CNeg(a[2][i])])>>
DCCj(a) == <<CCj(a[1]), TLCEval([i \in 1..Len(a[2]) |-> CCj(a[2][i])])>>
DCZero == <<CZero, <<>>>>
DCOne == <<COne, <<>>>>

\* hyper-dual over R and over C
HRAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2]), RAdd(a[3], b[3]), RAdd(a[4], b[4])>>
HRMul(a, b) == <<RMul(a[1], b[1]), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1])), RAdd(RMul(a[1], b[3]), RMul(a[3], b[1])),
                 RAdd(RAdd(RMul(a[1], b[4]), RMul(a[4], b[1])), RAdd(RMul(a[2], b[3]), RMul(a[3], b[2])))>>
HRNeg(a) == <<RNeg(a[1]), RNeg(a[2]), RNeg(a[3]), RNeg(a[4])>>
HRCj(a) == a
HRZero == <<0, 0, 0, 0>>
HROne == <<1, 0, 0, 0>>
HCAdd(a, b) == <<CAdd(a[1], b[1]), CAdd(a[2], b[2]), CAdd(a[3], b[3]), CAdd(a[4], b[4])>>
HCMul(a, b) == <<CMul(a[1], b[1]), CAdd(CMul(a[1], b[2]), CMul(a[2], b[1])), CAdd(CMul(a[1], b[3]), CMul(a[3], b[1])),
                 CAdd(CAdd(CMul(a[1], b[4]), CMul(a[4], b[1])), CAdd(CMul(a[2], b[3]), CMul(a[3], b[2])))>>
HCNeg(a) == <<CNeg(a[1]), CNeg(a[2]), CNeg(a[3]), CNeg(a[4])>>
HCCj(a) == <<CCj(a[1]), CCj(a[2]), CCj(a[3]), CCj(a[4])>>
HCZero == <<CZero, CZero, CZero, CZero>>
HCOne == <<COne, CZero, CZero, CZero>>

\* real part of conj(w) * y
RRe(w, y) == RMul(w, y)
CRe(w, y) == (w[1] * y[1] + w[2] * y[2]) % P
=============================================================================
