------------------------------- MODULE MCAlg --------------------------------
(* The laws of byte counts and end-of-stream distances, over all triples of *)
(* the counts of a scenario (JSON: a list of counts and of folded counts).  *)
EXTENDS World, IOUtils, Json

Scen == JsonDeserialize(IOEnv.SCEN)
HIST == IOEnv.HIST = "1"
Vals == Scen[1].vals
Folded == Scen[1].folded

VARIABLES i, j, k, done
vars == <<i, j, k, done>>
N == Len(Vals)
Init == i \in 1..N /\ j \in 1..N /\ k \in 1..N /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<i, j, k>>
Spec == Init /\ [][Next]_vars
a == Vals[i]
b == Vals[j]
c == Vals[k]

Commutes == CAddDec(a, b) = CAddDec(b, a) /\ CAddEnc(a, b) = CAddEnc(b, a)
Associates == /\ CAddDec(CAddDec(a, b), c) = CAddDec(a, CAddDec(b, c))
              /\ CAddEnc(CAddEnc(a, b), c) = CAddEnc(a, CAddEnc(b, c))
Neutral == CAddDec(a, C0) = a /\ CAddEnc(a, C0) = a
\* nothing is lost: a sum is never less than what went in, and infinity stays
Grows == /\ (CFin(a) /\ CFin(b)) => \A s \in {CAddDec(a, b), CAddEnc(a, b)} : CFin(s) /\ ~CLess(s, a) /\ ~CLess(s, b)
         /\ (a = CInf) => CAddDec(a, b) = CInf /\ CAddEnc(a, b) = CInf
         /\ (a = CUnk) => ~CFin(CAddEnc(a, b))
\* a partial order: total except for unknown counts
Ordered == /\ (CCmp(a, b) = "none") = (a = CUnk \/ b = CUnk)
           /\ (CCmp(a, b) = "eq") = (a = b /\ a # CUnk)
           /\ (CCmp(a, b) = "lt") = (CCmp(b, a) = "gt")
           /\ (CCmp(a, b) = "lt" /\ CCmp(b, c) \in {"lt", "eq"}) => CCmp(a, c) = "lt"
Monotone == (CFin(c) /\ CCmp(a, b) \in {"lt", "eq"}) => CCmp(CAddEnc(a, c), CAddEnc(b, c)) \in {"lt", "eq"}
\* the distance to the end
Distance == (CFin(b) /\ CFin(c)) =>
              /\ CBack(CBack(a, b), c) = CBack(a, CSum(b, c))
              /\ CBack(a, C0) = a
              /\ (CFin(a) /\ b # C0) => ~CReached(CBack(a, b))
\* the folded counts of the other modules
Folds == \A x, y \in 1..Len(Folded) :
           LET m == Folded[x]
               n == Folded[y]
           IN  /\ COf(AddDec(m, n)) = CAddDec(COf(m), COf(n))
               /\ COf(AddEnc(m, n)) = CAddEnc(COf(m), COf(n))
               /\ Cmp(m, n) = CCmp(COf(m), COf(n))
               /\ (n >= 0 => COf(Back(m, n)) = CBack(COf(m), COf(n)))
FoldsOnce == (i = 1 /\ j = 1 /\ k = 1) => Folds

---------------------------------------------------------------------------
Fin2(x) == IF CFin(x) THEN x ELSE C0
Ops == << [o |-> "adddec", a |-> a, b |-> b], [o |-> "adddec", a |-> CAddDec(a, b), b |-> c],
          [o |-> "addenc", a |-> a, b |-> b], [o |-> "addenc", a |-> CAddEnc(a, b), b |-> c],
          [o |-> "back", a |-> a, b |-> Fin2(b)], [o |-> "back", a |-> CBack(a, Fin2(b)), b |-> Fin2(c)] >>
       \o IF k # 1 THEN <<>> ELSE
       << [o |-> "cmp", a |-> a, b |-> b], [o |-> "eoscmp", a |-> a, b |-> b], [o |-> "eq", a |-> a, b |-> b], [o |-> "hash", a |-> a, b |-> b],
          [o |-> "is", a |-> a, b |-> b], [o |-> "eosis", a |-> a, b |-> b], [o |-> "default", a |-> a, b |-> b],
          [o |-> "eosnew", a |-> IF a = C0 THEN <<0>> ELSE <<1>>, b |-> b] >>
W0 == WInit("alg", <<>>)
Emit == HIST => PrintT(ToJson([sc |-> 1, ops |-> [x \in 1..Len(Ops) |-> Ops[x] @@ [x |-> Apply(W0, Ops[x]).obs]]]))
=============================================================================
