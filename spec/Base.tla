-------------------------------- MODULE Base --------------------------------
(* Bytes, byte counts and end-of-stream distances.                          *)
(*                                                                          *)
(* A byte count is an integer: n >= 0 is Finite(n), UNK is Unknown and INF  *)
(* is Infinite.  MAXC stands for u64::MAX; the values just below it stand   *)
(* for the u64 values just below u64::MAX (the harness maps the two ranges  *)
(* onto each other), so that saturation can be specified.                   *)
(* The end-of-stream argument of a call is the byte count of the bytes that *)
(* follow the given buffer in the stream.                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

UNK == -1
INF == -2
MAXC == 2147483647

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Take(s, k) == SubSeq(s, 1, Min2(k, Len(s)))
Drop(s, k) == SubSeq(s, k + 1, Len(s))
Rep(b, k) == [i \in 1..k |-> b]
Flip(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

---------------------------------------------------------------------------
(* The algebra of byte counts.                                             *)
IsFin(a) == a >= 0
SatAdd(a, b) == IF a > MAXC - b THEN MAXC ELSE a + b

AddDec(a, b) ==
  CASE IsFin(a) /\ IsFin(b) -> SatAdd(a, b)
    [] a = INF \/ b = INF -> INF
    [] a = UNK /\ b = UNK -> UNK
    [] a = UNK -> IF b = 0 THEN UNK ELSE b
    [] OTHER -> IF a = 0 THEN UNK ELSE a

AddEnc(a, b) ==
  CASE IsFin(a) /\ IsFin(b) -> SatAdd(a, b)
    [] a = INF \/ b = INF -> INF
    [] OTHER -> UNK

\* comparison: "lt", "eq", "gt" or "none" (incomparable)
Cmp(a, b) ==
  CASE a = UNK \/ b = UNK -> "none"
    [] a = INF -> IF b = INF THEN "eq" ELSE "gt"
    [] b = INF -> "lt"
    [] OTHER -> IF a < b THEN "lt" ELSE IF a = b THEN "eq" ELSE "gt"

---------------------------------------------------------------------------
(* Distances to the end of the stream.                                     *)
Reached(q) == q = 0
Back(q, k) == IF IsFin(q) THEN SatAdd(q, k) ELSE q
EosOf(reached) == IF reached THEN 0 ELSE UNK

---------------------------------------------------------------------------
(* Items: << tag, payload >>.                                              *)
(*   u unit, b bytes (numbers too: the big-endian bytes of the value),     *)
(*   t tuple, l list, o option, m the result of a mapping function         *)
VU == <<"u", <<>>>>
VB(bs) == <<"b", bs>>
VT(vs) == <<"t", vs>>
VL(vs) == <<"l", vs>>
VNone == <<"o", <<>>>>
VSome(v) == <<"o", <<v>>>>
VM(v) == <<"m", <<v>>>>
NoV == <<"-", <<>>>>

\* all bytes of an item, in order
RECURSIVE Flat(_)
Flat(v) ==
  CASE v[1] = "b" -> v[2]
    [] v[1] \in {"u", "-"} -> <<>>
    [] OTHER -> FlattenSeq([i \in 1..Len(v[2]) |-> Flat(v[2][i])])

\* the first byte (0 if there is none): mapping functions and parsers of the
\* specification reject an item whose first byte is 255
Lead(v) == LET f == Flat(v) IN IF f = <<>> THEN 0 ELSE f[1]
LeadB(bs) == IF bs = <<>> THEN 0 ELSE bs[1]
\* conversions that fail, and how
Refusal(v) == CASE Lead(v) = 255 -> "InvalidInput" [] Lead(v) = 254 -> "EncoderFull" [] Lead(v) = 253 -> "Other" [] OTHER -> ""
Rejects(v) == Refusal(v) # ""
\* what the error conversion of map_err makes of an error
Renamed(e) == CASE e = "UnexpectedEos" -> "DecoderTerminated" [] e = "Other" -> "InconsistentState" [] OTHER -> "Other"

\* the number a big-endian byte string stands for, u64 range, folded into
\* 0..MAXC as described above (only values < 2^30 and values close to
\* u64::MAX are used)
Num(bs) ==
  LET top == [i \in 1..Len(bs) |-> bs[i]]
      zeros == CHOOSE k \in 0..Len(bs) :
                 /\ \A i \in 1..k : bs[i] = 0
                 /\ (k = Len(bs) \/ bs[k + 1] # 0)
      sig == Drop(bs, zeros)
  IN  IF Len(sig) <= 3 \/ (Len(sig) = 4 /\ sig[1] < 64)
      THEN FoldLeft(LAMBDA acc, b : acc * 256 + b, 0, sig)
      ELSE MAXC - (255 - bs[Len(bs)])        \* 0xFF..FFxx
NumOf(v) == Num(Flat(v))

---------------------------------------------------------------------------
(* Well-formed UTF-8 (Unicode 15, table 3-7).                              *)
Cont(b) == b \in 128..191
RECURSIVE IsUtf8From(_, _)
IsUtf8From(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET b == s[i]
           have(k) == i + k <= Len(s)
       IN  CASE b < 128 -> IsUtf8From(s, i + 1)
             [] b \in 194..223 -> have(1) /\ Cont(s[i+1]) /\ IsUtf8From(s, i + 2)
             [] b \in 224..239 ->
                  /\ have(2) /\ Cont(s[i+1]) /\ Cont(s[i+2])
                  /\ (b = 224 => s[i+1] >= 160)
                  /\ (b = 237 => s[i+1] <= 159)
                  /\ IsUtf8From(s, i + 3)
             [] b \in 240..244 ->
                  /\ have(3) /\ Cont(s[i+1]) /\ Cont(s[i+2]) /\ Cont(s[i+3])
                  /\ (b = 240 => s[i+1] >= 144)
                  /\ (b = 244 => s[i+1] <= 143)
                  /\ IsUtf8From(s, i + 4)
             [] OTHER -> FALSE
IsUtf8(s) == IsUtf8From(s, 1)

---------------------------------------------------------------------------
(* Fixed-width numbers: << bytes on the wire, bytes of the value, order >> *)
FixInfo ==
  [ u8 |-> <<1,1,"be">>, i8 |-> <<1,1,"be">>,
    u16be |-> <<2,2,"be">>, u16le |-> <<2,2,"le">>, i16be |-> <<2,2,"be">>, i16le |-> <<2,2,"le">>,
    u24be |-> <<3,4,"be">>, u24le |-> <<3,4,"le">>,
    u32be |-> <<4,4,"be">>, u32le |-> <<4,4,"le">>, i32be |-> <<4,4,"be">>, i32le |-> <<4,4,"le">>,
    u40be |-> <<5,8,"be">>, u40le |-> <<5,8,"le">>, u48be |-> <<6,8,"be">>, u48le |-> <<6,8,"le">>,
    u56be |-> <<7,8,"be">>, u56le |-> <<7,8,"le">>,
    u64be |-> <<8,8,"be">>, u64le |-> <<8,8,"le">>, i64be |-> <<8,8,"be">>, i64le |-> <<8,8,"le">>,
    f32be |-> <<4,4,"be">>, f32le |-> <<4,4,"le">>, f64be |-> <<8,8,"be">>, f64le |-> <<8,8,"le">> ]
FixW(ty) == FixInfo[ty][1]
FixV(ty) == FixInfo[ty][2]
FixLe(ty) == FixInfo[ty][3] = "le"

\* wire bytes -> value bytes (big-endian)
FixValue(ty, raw) == Rep(0, FixV(ty) - FixW(ty)) \o (IF FixLe(ty) THEN Flip(raw) ELSE raw)
FixFits(ty, val) == /\ Len(val) = FixV(ty)
                    /\ \A i \in 1..(FixV(ty) - FixW(ty)) : val[i] = 0
FixRaw(ty, val) == LET b == Drop(val, FixV(ty) - FixW(ty)) IN IF FixLe(ty) THEN Flip(b) ELSE b
=============================================================================
