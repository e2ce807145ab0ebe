------------------------------- MODULE Counts -------------------------------
(* Byte counts over the whole u64 range, exactly: a count is                *)
(*   <<-1>> (unknown), <<-2>> (infinite) or <<a, b, c, d>>, four 16-bit     *)
(* digits, most significant first.  (Base folds the range for the codecs,   *)
(* whose counts are small; MCAlg checks that the two algebras agree.)       *)
EXTENDS Base

CUnk == <<-1>>
CInf == <<-2>>
CFin(a) == Len(a) = 4
LB == 65536
CMax == Rep(LB - 1, 4)
C0 == Rep(0, 4)

\* the sum of two finite counts, or the largest count
CSum(a, b) ==
  LET s4 == a[4] + b[4]
      s3 == a[3] + b[3] + s4 \div LB
      s2 == a[2] + b[2] + s3 \div LB
      s1 == a[1] + b[1] + s2 \div LB
  IN  IF s1 >= LB THEN CMax ELSE <<s1, s2 % LB, s3 % LB, s4 % LB>>

CAddDec(a, b) ==
  CASE CFin(a) /\ CFin(b) -> CSum(a, b)
    [] a = CInf \/ b = CInf -> CInf
    [] a = CUnk /\ b = CUnk -> CUnk
    [] a = CUnk -> IF b = C0 THEN CUnk ELSE b
    [] OTHER -> IF a = C0 THEN CUnk ELSE a

CAddEnc(a, b) ==
  CASE CFin(a) /\ CFin(b) -> CSum(a, b)
    [] a = CInf \/ b = CInf -> CInf
    [] OTHER -> CUnk

CLess(a, b) == \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
CCmp(a, b) ==
  CASE a = CUnk \/ b = CUnk -> "none"
    [] a = CInf -> IF b = CInf THEN "eq" ELSE "gt"
    [] b = CInf -> "lt"
    [] OTHER -> IF CLess(a, b) THEN "lt" ELSE IF a = b THEN "eq" ELSE "gt"

CReached(q) == q = C0
CBack(q, k) == IF CFin(q) THEN CSum(q, k) ELSE q

\* the count that a folded count of Base stands for
COf(n) == CASE n = UNK -> CUnk [] n = INF -> CInf
            [] n > MAXC - LB -> <<LB - 1, LB - 1, LB - 1, LB - 1 - (MAXC - n)>>
            [] OTHER -> <<0, 0, n \div LB, n % LB>>
=============================================================================
