------------------------------ MODULE Encoders ------------------------------
(* Operational specification of every encoder.                              *)
(*                                                                          *)
(*   EInit(shape)         initial state                                     *)
(*   ES(x, v)             start_encoding(item): [x, e, soft]                *)
(*   EE(x, cap, q)        encode(buffer of cap bytes, eos): [x, e, o, soft] *)
(*   EIdle, EReq, EExact  is_idle, requiring_bytes, exact_requiring_bytes   *)
(*   EInto(x, v)          encode_into_bytes(item): [x, e, o, soft]          *)
(*   EAll(x)              encode_all(writer): [x, e, o, soft]               *)
(*   ECtl, EAcc           setters and accessors                             *)
EXTENDS Decoders

SOk(x) == [x |-> x, e |-> "", soft |-> TRUE]
SSoft(x, e) == [x |-> x, e |-> e, soft |-> TRUE]
SHard(e) == [x |-> Dead, e |-> e, soft |-> FALSE]
EOk(x, o) == [x |-> x, e |-> "", o |-> o, soft |-> TRUE]
ESoft(x, e) == [x |-> x, e |-> e, o |-> <<>>, soft |-> TRUE]
EHard(e) == [x |-> Dead, e |-> e, o |-> <<>>, soft |-> FALSE]

\* whole-message serializers: [e, o]
RenderMono(x, v) ==
  CASE x.f = "raw" -> IF Lead(v) = 255 THEN [e |-> "InvalidInput", o |-> <<>>] ELSE [e |-> "", o |-> Flat(v)]
    [] x.f = "first" -> [e |-> "", o |-> <<Len(Flat(v))>> \o Flat(v)]
    [] BadField(x.f, v[2]) -> [e |-> "InvalidInput", o |-> <<>>]
    [] OTHER -> [e |-> "", o |-> v[2]]       \* items are given in canonical form

RECURSIVE EInit(_), ES(_, _), EE(_, _, _), ESTuple(_, _, _), EETuple(_, _, _, _, _), ERepeat(_, _, _, _), EInto(_, _), EAllFrom(_, _)
RECURSIVE EIdle(_), EReq(_), EExact(_), ESized(_)

EInit(s) ==
  CASE s.k = "fix"    -> [k |-> "fix", ty |-> s.ty, b |-> <<>>, has |-> FALSE]
    [] s.k \in {"bytes", "utf8"} -> [k |-> s.k, b |-> <<>>, has |-> FALSE]
    [] s.k = "pad"    -> [k |-> "pad", b |-> 0, has |-> FALSE]
    [] s.k = "null"   -> [k |-> "null"]
    [] s.k = "mono"   -> [k |-> "mono", f |-> s.f, v |-> NoV, new |-> FALSE, b |-> <<>>, has |-> FALSE]
    [] s.k \in {"opt", "mapfrom", "trymapfrom", "maperr", "box", "ref", "shy"} -> [k |-> s.k, in |-> EInit(s.in)]
    [] s.k = "late" -> [k |-> "late", in |-> EInit(s.in), st |-> FALSE]
    [] s.k = "repeat" -> [k |-> "repeat", in |-> EInit(s.in), items |-> <<>>, has |-> FALSE]
    [] s.k = "length" -> [k |-> "length", in |-> EInit(s.in), exp |-> s.n, rem |-> s.n]
    [] s.k = "maxb"   -> [k |-> "maxb", in |-> EInit(s.in), max |-> s.n, cnt |-> 0]
    [] s.k = "pre"    -> [k |-> "pre", in |-> EInit(s.in), b |-> <<>>, has |-> FALSE]
    [] s.k = "slice"  -> [k |-> "slice", in |-> EInit(s.in), g |-> 0]
    [] s.k = "last"   ->     \* an inner encoder that may hold an item, and the final item
         LET i0 == EInit(s.in)
         IN  [k |-> "last", in |-> IF s.first = NoV THEN i0 ELSE ES(i0, s.first).x, v |-> s.v, has |-> TRUE]
    [] s.k = "with"   -> ES(EInit(s.in), s.v).x
    [] s.k = "tuple"  -> [k |-> "tuple", ps |-> [i \in 1..Len(s.ps) |-> EInit(s.ps[i])]]

EIdle(x) ==
  CASE x.k \in {"fix", "bytes", "utf8", "pad", "repeat", "pre"} -> ~x.has
    [] x.k = "null" -> TRUE
    [] x.k = "mono" -> ~x.new /\ ~x.has
    [] x.k = "length" -> EIdle(x.in) /\ x.rem = x.exp
    [] x.k = "last" -> ~x.has /\ EIdle(x.in)
    [] x.k = "tuple" -> \A i \in 1..Len(x.ps) : EIdle(x.ps[i])
    [] x.k = "late" -> ~x.st
    [] x.k = "dead" -> FALSE
    [] OTHER -> EIdle(x.in)

EReq(x) ==
  CASE x.k \in {"fix", "bytes", "utf8", "pre"} -> Len(x.b)
    [] x.k = "pad" -> IF x.has THEN INF ELSE 0
    [] x.k = "null" -> 0
    [] x.k = "mono" -> IF x.new THEN UNK ELSE Len(x.b)
    [] x.k = "repeat" -> IF x.has THEN UNK ELSE 0
    [] x.k = "length" -> IF EIdle(x) THEN 0 ELSE x.rem
    [] x.k = "last" -> IF x.has THEN UNK ELSE EReq(x.in)
    [] x.k = "tuple" -> FoldLeft(AddEnc, 0, [i \in 1..Len(x.ps) |-> EReq(x.ps[i])])
    [] x.k = "late" -> IF EIdle(x.in) THEN 0 ELSE EReq(x.in)
    [] x.k = "shy" -> IF EIdle(x.in) THEN 0 ELSE UNK
    [] x.k = "dead" -> 0
    [] OTHER -> EReq(x.in)

\* does the encoder implement SizedEncode?
ESized(x) ==
  CASE x.k \in {"fix", "bytes", "utf8", "null", "length", "pre"} -> TRUE
    [] x.k \in {"pad", "mono", "repeat", "dead"} -> FALSE
    [] x.k = "last" -> ~x.has /\ ESized(x.in)     \* known finding: the pending item is not counted
    [] x.k = "tuple" -> \A i \in 1..Len(x.ps) : ESized(x.ps[i])
    [] OTHER -> ESized(x.in)
EExact(x) ==
  CASE x.k = "length" -> IF EIdle(x) THEN 0 ELSE x.rem
    [] x.k \in {"fix", "bytes", "utf8", "pre"} -> Len(x.b)
    [] x.k = "null" -> 0
    [] x.k = "tuple" -> FoldLeft(SatAdd, 0, [i \in 1..Len(x.ps) |-> EExact(x.ps[i])])
    [] OTHER -> EExact(x.in)

SWrap(x, r) == IF r.e = "" \/ r.soft THEN [r EXCEPT !.x = [x EXCEPT !.in = r.x]] ELSE r
Full(x) == SSoft(x, "EncoderFull")

ES(x, v) ==
  CASE x.k = "fix" ->
         IF ~FixFits(x.ty, v[2]) THEN SSoft(x, "InvalidInput")
         ELSE IF x.has THEN Full(x)
         ELSE SOk([x EXCEPT !.b = FixRaw(x.ty, v[2]), !.has = TRUE])
    [] x.k \in {"bytes", "utf8"} ->
         IF x.has THEN Full(x) ELSE SOk([x EXCEPT !.b = v[2], !.has = TRUE])
    [] x.k = "pad" -> IF x.has THEN Full(x) ELSE SOk([x EXCEPT !.b = v[2][1], !.has = TRUE])
    [] x.k = "null" -> SOk(x)
    [] x.k = "mono" -> IF ~EIdle(x) THEN Full(x) ELSE SOk([x EXCEPT !.v = v, !.new = TRUE])
    [] x.k = "opt" -> IF v = VNone THEN SOk(x) ELSE SWrap(x, ES(x.in, v[2][1]))
    [] x.k = "mapfrom" -> SWrap(x, ES(x.in, v[2][1]))
    [] x.k = "trymapfrom" -> IF Rejects(v) THEN SSoft(x, Refusal(v)) ELSE SWrap(x, ES(x.in, v[2][1]))
    [] x.k = "maperr" ->
         LET r == SWrap(x, ES(x.in, v)) IN IF r.e = "" THEN r ELSE [r EXCEPT !.e = Renamed(@)]
    [] x.k \in {"box", "ref", "slice", "shy"} -> SWrap(x, ES(x.in, v))
    [] x.k = "late" ->
         IF x.st THEN Full(x)
         ELSE LET r == ES(x.in, v) IN SWrap(IF r.e = "" THEN [x EXCEPT !.st = TRUE] ELSE x, r)
    [] x.k = "repeat" -> IF x.has THEN Full(x) ELSE SOk([x EXCEPT !.items = v[2], !.has = TRUE])
    [] x.k = "length" ->
         IF ~EIdle(x) THEN Full(x)
         ELSE LET r == SWrap(x, ES(x.in, v))
              IN  IF r.e = "" /\ EIdle(r.x.in) /\ x.exp # 0 THEN SSoft(r.x, "InvalidInput") ELSE r
    [] x.k = "maxb" -> SWrap([x EXCEPT !.cnt = IF EIdle(x.in) THEN 0 ELSE @], ES(x.in, v))
    [] x.k = "pre" ->
         IF x.has THEN Full(x)
         ELSE LET r == EInto(x.in, v)
              IN  IF r.e # "" THEN (IF r.soft THEN SSoft([x EXCEPT !.in = r.x], r.e) ELSE SHard(r.e))
                  ELSE SOk([x EXCEPT !.in = r.x, !.b = r.o, !.has = TRUE])
    [] x.k = "tuple" -> IF ~EIdle(x) THEN Full(x) ELSE ESTuple(x, v, 1)

ESTuple(x, v, i) ==
  IF i > Len(x.ps) THEN SOk(x)
  ELSE LET r == ES(x.ps[i], v[2][i])
       IN  IF r.e # "" THEN
             \* known finding: parts 1..i-1 may have been started, there is no way back
             (LET x1 == [x EXCEPT !.ps[i] = r.x] IN IF r.soft /\ EIdle(x1) THEN SSoft(x1, r.e) ELSE SHard(r.e))
           ELSE ESTuple([x EXCEPT !.ps[i] = r.x], v, i + 1)

---------------------------------------------------------------------------
EWrap(x, r) == IF r.e = "" \/ r.soft THEN [r EXCEPT !.x = [x EXCEPT !.in = r.x]] ELSE r

\* a buffer of pending bytes b
EBytes(x, cap, q) ==
  IF ~x.has THEN EOk(x, <<>>)
  ELSE LET o == Take(x.b, cap)
       IN  IF cap >= Len(x.b) THEN EOk([x EXCEPT !.b = <<>>, !.has = FALSE], o)
           ELSE IF Reached(q) THEN EHard("UnexpectedEos")
           ELSE EOk([x EXCEPT !.b = Drop(@, cap)], o)

EE(x, cap, q) ==
  CASE x.k \in {"fix", "bytes", "utf8", "pre"} -> EBytes(x, cap, q)
    [] x.k = "pad" ->
         IF ~x.has THEN EOk(x, <<>>) ELSE EOk([x EXCEPT !.has = ~Reached(q)], Rep(x.b, cap))
    [] x.k = "null" -> EOk(x, <<>>)
    [] x.k = "mono" ->
         IF ~x.new THEN EBytes(x, cap, q)
         ELSE LET r == RenderMono(x, x.v)
                  x1 == [x EXCEPT !.new = FALSE, !.v = NoV]
              IN  IF r.e # "" THEN ESoft(x1, r.e)
                  ELSE IF Len(r.o) <= cap THEN EOk(x1, r.o)
                  ELSE IF Reached(q) THEN EHard("UnexpectedEos")
                  ELSE EOk([x1 EXCEPT !.b = Drop(r.o, cap), !.has = TRUE], Take(r.o, cap))
    [] x.k \in {"opt", "mapfrom", "trymapfrom", "box", "ref", "shy"} -> EWrap(x, EE(x.in, cap, q))
    [] x.k = "late" ->       \* user-defined: idle one call after its bytes are written
         IF ~x.st THEN EOk(x, <<>>) ELSE IF EIdle(x.in) THEN EOk([x EXCEPT !.st = FALSE], <<>>) ELSE EWrap(x, EE(x.in, cap, q))
    [] x.k = "maperr" ->
         LET r == EWrap(x, EE(x.in, cap, q)) IN IF r.e = "" THEN r ELSE [r EXCEPT !.e = Renamed(@)]
    [] x.k = "slice" ->
         LET lim == Min2(cap, x.g)
             r == EE(x.in, lim, Back(q, cap - lim))
         IN  IF r.e # "" THEN EWrap(x, r) ELSE EOk([x EXCEPT !.in = r.x, !.g = @ - Len(r.o)], r.o)
    [] x.k = "repeat" -> ERepeat(x, cap, q, <<>>)
    [] x.k = "length" ->
         IF EIdle(x) THEN EOk(x, <<>>)
         ELSE IF cap < x.rem /\ Reached(q) THEN EHard("UnexpectedEos")
         ELSE LET r == IF cap < x.rem THEN EE(x.in, cap, q) ELSE EE(x.in, x.rem, 0)
              IN  IF r.e # "" THEN EHard(r.e)
                  ELSE LET rem == x.rem - Len(r.o)
                       IN  IF ~EIdle(r.x) THEN EOk([x EXCEPT !.in = r.x, !.rem = rem], r.o)
                           ELSE IF rem # 0 THEN ESoft([x EXCEPT !.in = r.x, !.rem = x.exp], "InvalidInput")
                           ELSE EOk([x EXCEPT !.in = r.x, !.rem = x.exp], r.o)
    [] x.k = "maxb" ->
         LET r == EE(x.in, cap, q)
         IN  IF r.e # "" THEN EHard(r.e)
             ELSE LET cnt == x.cnt + Len(r.o)
                      x1 == [x EXCEPT !.in = r.x, !.cnt = cnt]
                  IN  IF cnt > x.max THEN ESoft(x1, "InvalidInput")
                      ELSE EOk([x1 EXCEPT !.cnt = IF EIdle(r.x) THEN 0 ELSE cnt], r.o)
    [] x.k = "last" ->
         LET r0 == IF EIdle(x.in) THEN EOk(x.in, <<>>) ELSE EE(x.in, cap, q)
         IN  IF r0.e # "" THEN EHard(r0.e)
             ELSE IF ~EIdle(r0.x) \/ ~x.has THEN EOk([x EXCEPT !.in = r0.x], r0.o)
             ELSE LET s == ES(r0.x, x.v)
                  IN  IF s.e # "" THEN EHard(s.e)
                      ELSE LET r1 == IF EIdle(s.x) THEN EOk(s.x, <<>>) ELSE EE(s.x, cap - Len(r0.o), q)
                           IN  IF r1.e # "" THEN EHard(r1.e)
                               ELSE EOk([x EXCEPT !.in = r1.x, !.has = FALSE, !.v = NoV], r0.o \o r1.o)
    [] x.k = "tuple" ->
         LET r == EETuple(x.ps, 1, cap, q, <<>>)
         IN  IF r.e # "" THEN EHard(r.e) ELSE EOk([x EXCEPT !.ps = r.x], r.o)

EETuple(ps, i, cap, q, out) ==
  IF i > Len(ps) THEN EOk(ps, out)
  ELSE IF EIdle(ps[i]) THEN EETuple(ps, i + 1, cap, q, out)
  ELSE LET r == EE(ps[i], cap - Len(out), q)
       IN  IF r.e # "" THEN r
           ELSE LET ps1 == [ps EXCEPT ![i] = r.x]
                IN  IF EIdle(r.x) THEN EETuple(ps1, i + 1, cap, q, out \o r.o)
                    ELSE EOk(ps1, out \o r.o)

ERepeat(x, cap, q, out) ==
  IF EIdle(x.in)
  THEN IF x.items = <<>> THEN EOk([x EXCEPT !.has = FALSE], out)
       ELSE LET s == ES(x.in, x.items[1])
            IN  IF s.e # "" THEN EHard(s.e)
                ELSE ERepeat([x EXCEPT !.in = s.x, !.items = Tail(@)], cap, q, out)
  ELSE LET r == EE(x.in, cap - Len(out), q)
       IN  IF r.e # "" THEN EHard(r.e)
           ELSE LET x1 == [x EXCEPT !.in = r.x]
                IN  IF r.o = <<>> /\ ~EIdle(r.x) THEN EOk(x1, out)
                    ELSE ERepeat(x1, cap, q, out \o r.o)

---------------------------------------------------------------------------
(* Helpers that process a whole item.                                      *)
HELPER == 1024      \* the buffer of the helpers

EAllFrom(x, out) ==
  IF EIdle(x) THEN EOk(x, out)
  ELSE LET r == EE(x, HELPER, UNK)
       IN  IF r.e # "" THEN [r EXCEPT !.o = out]
           ELSE IF ~EIdle(r.x) /\ r.o = <<>> THEN [EOk(r.x, out) EXCEPT !.e = "Other"]
           ELSE EAllFrom(r.x, out \o r.o)
EAll(x) == EAllFrom(x, <<>>)

EInto(x, v) ==
  LET s == ES(x, v)
  IN  IF s.e # "" THEN [x |-> s.x, e |-> s.e, o |-> <<>>, soft |-> s.soft]
      ELSE CASE EReq(s.x) = INF -> EHard("InvalidInput")
             [] EReq(s.x) = UNK ->
                  LET r == EAll(s.x) IN IF r.e # "" /\ ~EIdle(r.x) THEN EHard(r.e) ELSE r
             [] OTHER ->
                  LET r == EE(s.x, EReq(s.x), 0)
                  IN  IF r.e # "" THEN (IF r.soft /\ EIdle(r.x) THEN r ELSE EHard(r.e))
                      ELSE IF ~EIdle(r.x) THEN EHard("InconsistentState")
                      ELSE r

---------------------------------------------------------------------------
RECURSIVE ECtl(_, _, _, _)
ECtl(x, p, c, a) ==
  IF p # <<>>
  THEN IF x.k = "tuple"
       THEN LET r == ECtl(x.ps[p[1]], Tail(p), c, a) IN [r EXCEPT !.x = [x EXCEPT !.ps[p[1]] = r.x]]
       ELSE LET r == ECtl(x.in, Tail(p), c, a) IN [r EXCEPT !.x = [x EXCEPT !.in = r.x]]
  ELSE CASE c = "grant" -> COk([x EXCEPT !.g = a], NoV)
         [] c = "setlen" -> IF x.rem # x.exp THEN CErr(x, "IncompleteDecoding")
                            ELSE COk([x EXCEPT !.rem = a, !.exp = a], NoV)
         [] c = "setmax" -> IF x.cnt > a THEN CErr(x, "InvalidInput") ELSE COk([x EXCEPT !.max = a], NoV)

RECURSIVE EAcc(_)
EAcc(x) ==
  CASE x.k = "length" -> <<x.exp, x.rem>> \o EAcc(x.in)
    [] x.k = "maxb" -> <<x.max, x.cnt>> \o EAcc(x.in)
    [] x.k = "slice" -> <<x.g, IF x.g = 0 THEN 1 ELSE 0>> \o EAcc(x.in)
    [] x.k \in {"fix", "bytes", "utf8", "pad", "null", "mono", "dead"} -> <<>>
    [] x.k = "tuple" -> FlattenSeq([i \in 1..Len(x.ps) |-> EAcc(x.ps[i])])
    [] OTHER -> EAcc(x.in)
=============================================================================
