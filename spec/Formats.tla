------------------------------- MODULE Formats ------------------------------
(* Message formats of the whole-message codecs: which byte strings are      *)
(* messages, and the canonical form of the value a message stands for.      *)
EXTENDS Base

BadMsg == [ok |-> FALSE, c |-> <<>>]
Msg(c) == [ok |-> TRUE, c |-> c]

---------------------------------------------------------------------------
(* bincode, fixed-size little-endian integers: (u8, Option<u16>)           *)
BinO(bs) ==
  IF \/ Len(bs) = 2 /\ bs[2] = 0
     \/ Len(bs) = 4 /\ bs[2] = 1
  THEN Msg(bs) ELSE BadMsg

\* a u64 length prefix at position i (-1: more than the message can hold)
Prefix(bs, i) ==
  IF Len(bs) < i + 7 \/ \E j \in (i + 3)..(i + 7) : bs[j] # 0 THEN -1
  ELSE bs[i] + 256 * bs[i + 1] + 65536 * bs[i + 2]

\* (u8, Vec<u8>, String)
BinV(bs) ==
  LET n == Prefix(bs, 2)
      m == IF n < 0 \/ Len(bs) < 9 + n + 8 THEN -1 ELSE Prefix(bs, 10 + n)
  IN  IF m < 0 \/ Len(bs) # 17 + n + m THEN BadMsg
      ELSE IF IsUtf8(SubSeq(bs, 18 + n, 17 + n + m)) THEN Msg(bs) ELSE BadMsg

---------------------------------------------------------------------------
(* JSON: a list of bytes and nulls.  Canonical form: no blanks.            *)
Blank(b) == b \in {9, 10, 13, 32}
Digit(b) == b \in 48..57
RECURSIVE Skip(_, _), Digits(_, _)
Skip(bs, i) == IF i <= Len(bs) /\ Blank(bs[i]) THEN Skip(bs, i + 1) ELSE i
Digits(bs, i) == IF i <= Len(bs) /\ Digit(bs[i]) THEN Digits(bs, i + 1) ELSE i
At(bs, i) == IF i <= Len(bs) THEN bs[i] ELSE -1
Null == <<110, 117, 108, 108>>

\* one element at position i: [ok, end]
Element(bs, i) ==
  IF Len(bs) >= i + 3 /\ SubSeq(bs, i, i + 3) = Null THEN [ok |-> TRUE, end |-> i + 4]
  ELSE LET j == Digits(bs, i)
           w == j - i
       IN  [ ok |-> /\ w \in 1..3
                    /\ (w > 1 => bs[i] # 48)
                    /\ (w = 3 => (bs[i] - 48) * 100 + (bs[i + 1] - 48) * 10 + (bs[i + 2] - 48) <= 255),
             end |-> j ]

\* after an element or the opening bracket; first: no element yet
RECURSIVE Elements(_, _, _, _)
Elements(bs, i, first, out) ==
  LET j == Skip(bs, i)
  IN  IF At(bs, j) = 93
      THEN IF Skip(bs, j + 1) > Len(bs) THEN Msg(Append(out, 93)) ELSE BadMsg
      ELSE IF ~first /\ At(bs, j) # 44 THEN BadMsg
      ELSE LET k == IF first THEN j ELSE Skip(bs, j + 1)
               el == Element(bs, k)
           IN  IF k > Len(bs) \/ ~el.ok THEN BadMsg
               ELSE Elements(bs, el.end, FALSE,
                             out \o (IF first THEN <<>> ELSE <<44>>) \o SubSeq(bs, k, el.end - 1))
\* values that have no serialization: those with the number 251 (as first
\* field of the bincode records)
BadField(f, bs) ==
  IF f = "json" THEN \E i \in 1..Len(bs) - 2 : SubSeq(bs, i, i + 2) = <<50, 53, 49>> ELSE bs[1] = 251
JsonList(bs) == LET i == Skip(bs, 1) IN IF At(bs, i) # 91 THEN BadMsg ELSE Elements(bs, i + 1, TRUE, <<91>>)
=============================================================================
