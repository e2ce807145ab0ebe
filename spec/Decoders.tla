------------------------------ MODULE Decoders ------------------------------
(* Operational specification of every decoder: a state per decoder, and the *)
(* effect of each public call on it.                                        *)
(*                                                                          *)
(*   DInit(shape)      initial state of the decoder described by a shape    *)
(*   DD(x, buf, q)     decode(buf, eos): [x, e, n, soft]                    *)
(*   DF(x)             finish_decoding(): [x, e, v, soft]                   *)
(*   DIdle(x), DReq(x) is_idle(), requiring_bytes()                         *)
(*   DCtl(x, p, c, a)  a setter or getter of the node at path p             *)
(*   DAcc(x)           the values of all accessors, in pre-order            *)
(*                                                                          *)
(* e is "" or the error kind.  `soft' says that the state after the error   *)
(* is specified; after any other error the session is over (the contract of *)
(* the Decode trait leaves the state open) and the state becomes Dead.      *)
EXTENDS Formats

Dead == [k |-> "dead"]
IsDead(x) == x.k = "dead"

ROk(x, n) == [x |-> x, e |-> "", n |-> n, soft |-> TRUE]
RSoft(x, e) == [x |-> x, e |-> e, n |-> 0, soft |-> TRUE]
RHard(e) == [x |-> Dead, e |-> e, n |-> 0, soft |-> FALSE]
FOk(x, v) == [x |-> x, e |-> "", v |-> v, soft |-> TRUE]
FSoft(x, e) == [x |-> x, e |-> e, v |-> NoV, soft |-> TRUE]
FHard(e) == [x |-> Dead, e |-> e, v |-> NoV, soft |-> FALSE]
Early(x) == FSoft(x, "IncompleteDecoding")

---------------------------------------------------------------------------
(* Whole-message parsers.  A parser is given all bytes of the message and  *)
(* returns [e, v, used]: the error or the value, and the number of bytes   *)
(* it read.                                                                *)
ParseMono(x, bs) ==
  CASE x.f = "raw" ->      \* user-defined: takes everything, rejects a leading 255
         IF LeadB(bs) = 255 THEN [e |-> "InvalidInput", v |-> NoV, used |-> Len(bs)]
         ELSE [e |-> "", v |-> VM(VB(bs)), used |-> Len(bs)]
    [] x.f = "first" ->    \* user-defined: one length byte and that many bytes
         IF bs = <<>> \/ Len(bs) < 1 + bs[1]
         THEN [e |-> "UnexpectedEos", v |-> NoV, used |-> Len(bs)]
         ELSE [e |-> "", v |-> VM(VB(SubSeq(bs, 2, 1 + bs[1]))), used |-> 1 + bs[1]]
    [] OTHER ->            \* JSON, bincode
         LET m == CASE x.f = "json" -> JsonList(bs) [] x.f = "bino" -> BinO(bs) [] x.f = "binv" -> BinV(bs)
         IN  IF m.ok THEN [e |-> "", v |-> VB(m.c), used |-> Len(bs)]
             ELSE [e |-> "InvalidInput", v |-> NoV, used |-> Len(bs)]

---------------------------------------------------------------------------
RECURSIVE DInit(_)
DInit(s) ==
  CASE s.k = "fix"    -> [k |-> "fix", ty |-> s.ty, n |-> FixW(s.ty), buf |-> <<>>]
    [] s.k = "copy"   -> [k |-> "copy", n |-> s.n, buf |-> <<>>]
    [] s.k = "bytes"  -> [k |-> "bytes", n |-> s.n, pre |-> s.pre, post |-> s.post, buf |-> <<>>, have |-> "none" \notin DOMAIN s]
    [] s.k = "rem"    -> [k |-> "rem", buf |-> <<>>, done |-> FALSE]
    [] s.k = "pad"    -> [k |-> "pad", b |-> s.b, done |-> FALSE]
    [] s.k = "null"   -> [k |-> "null"]
    [] s.k = "mono"   -> [k |-> "mono", f |-> s.f, buf |-> <<>>, has |-> FALSE, v |-> NoV]
    [] s.k = "utf8"   -> [k |-> "utf8", in |-> DInit(s.in)]
    [] s.k \in {"map", "trymap", "maperr", "box", "ref", "shy"} -> [k |-> s.k, in |-> DInit(s.in)]
    [] s.k = "late" -> [k |-> "late", in |-> DInit(s.in), st |-> FALSE]
    [] s.k = "andthen" -> [k |-> "andthen", s |-> s, in |-> DInit(s.in), snd |-> <<>>]
    [] s.k = "collect" -> [k |-> "collect", in |-> DInit(s.in), items |-> <<>>, busy |-> FALSE, done |-> FALSE]
    [] s.k = "collectn" -> [k |-> "collectn", in |-> DInit(s.in), items |-> <<>>, rem |-> s.n]
    [] s.k = "length" -> [k |-> "length", in |-> DInit(s.in), exp |-> s.n, rem |-> s.n]
    [] s.k = "maxb"   -> [k |-> "maxb", in |-> DInit(s.in), max |-> s.n, cnt |-> 0]
    [] s.k = "slice"  -> [k |-> "slice", in |-> DInit(s.in), g |-> 0]
    [] s.k = "omit"   -> [k |-> "omit", in |-> DInit(s.in), b |-> s.b]
    [] s.k = "peek"   -> [k |-> "peek", in |-> DInit(s.in), has |-> FALSE, v |-> NoV]
    [] s.k = "maybe"  -> [k |-> "maybe", in |-> DInit(s.in), started |-> FALSE]
    [] s.k = "tuple"  -> [k |-> "tuple", ps |-> [i \in 1..Len(s.ps) |-> DInit(s.ps[i])]]

\* the second stage of a conditional decoder, chosen from the first item
SecondShape(s, v) ==
  LET n == NumOf(v) IN
  CASE s.t = "len"   -> [k |-> "length", n |-> n, in |-> s.b]
    [] s.t = "cn"    -> [k |-> "collectn", n |-> n, in |-> s.b]
    [] s.t = "bytes" -> [k |-> "bytes", n |-> n, pre |-> 0, post |-> 0]
    [] s.t = "omit"  -> [k |-> "omit", b |-> (n = 0), in |-> s.b]
    [] s.t = "maxb"  -> [k |-> "maxb", n |-> n, in |-> s.b]

---------------------------------------------------------------------------
RECURSIVE DIdle(_)
DIdle(x) ==
  CASE x.k \in {"fix", "copy"} -> Len(x.buf) = x.n
    [] x.k = "bytes" -> ~x.have \/ Len(x.buf) = x.n
    [] x.k \in {"rem", "pad", "collect"} -> x.done
    [] x.k = "null" -> TRUE
    [] x.k \in {"mono", "peek"} -> x.has
    [] x.k = "andthen" -> x.snd # <<>> /\ DIdle(x.snd[1])
    [] x.k = "collectn" -> x.rem = 0
    [] x.k = "omit" -> x.b \/ DIdle(x.in)
    [] x.k = "tuple" -> \A i \in 1..Len(x.ps) : DIdle(x.ps[i])
    [] x.k = "late" -> x.st
    [] x.k = "dead" -> FALSE
    [] OTHER -> DIdle(x.in)

RECURSIVE DReq(_)
DReq(x) ==
  CASE x.k \in {"fix", "copy"} -> x.n - Len(x.buf)
    [] x.k = "bytes" -> IF x.have THEN x.n - Len(x.buf) ELSE 0
    [] x.k \in {"rem", "pad"} -> IF x.done THEN 0 ELSE INF
    [] x.k = "null" -> 0
    [] x.k = "mono" -> IF x.has THEN 0 ELSE UNK
    [] x.k = "peek" -> IF x.has THEN 0 ELSE DReq(x.in)
    [] x.k = "andthen" -> IF x.snd # <<>> THEN DReq(x.snd[1]) ELSE DReq(x.in)
    [] x.k = "collect" -> IF x.done THEN 0 ELSE DReq(x.in)
    [] x.k = "collectn" -> IF x.rem = 0 THEN 0 ELSE DReq(x.in)
    [] x.k = "length" -> x.rem
    [] x.k = "omit" -> IF x.b THEN 0 ELSE DReq(x.in)
    [] x.k = "tuple" -> FoldLeft(AddDec, 0, [i \in 1..Len(x.ps) |-> DReq(x.ps[i])])
    [] x.k = "late" -> IF DIdle(x.in) THEN 0 ELSE DReq(x.in)
    [] x.k = "shy" -> IF DIdle(x.in) THEN 0 ELSE UNK
    [] x.k = "dead" -> 0
    [] OTHER -> DReq(x.in)

\* a node that changes nothing of its own when the inner decoder fails softly
Wrap(x, r) == IF r.e = "" \/ r.soft
              THEN [r EXCEPT !.x = [x EXCEPT !.in = r.x]]
              ELSE r

---------------------------------------------------------------------------
RECURSIVE DD(_, _, _), DF(_), DTuple(_, _, _, _, _), DFTuple(_, _, _), DCollect(_, _, _, _), DCollectN(_, _, _, _)

DD(x, buf, q) ==
  CASE x.k \in {"fix", "copy"} ->
         LET m == Min2(Len(buf), x.n - Len(x.buf))
             x1 == [x EXCEPT !.buf = @ \o Take(buf, m)]
         IN  IF Len(x1.buf) # x.n /\ Reached(q) THEN RHard("UnexpectedEos") ELSE ROk(x1, m)
    [] x.k = "bytes" ->
         IF ~x.have THEN RSoft(x, "DecoderTerminated")
         ELSE LET m == Min2(Len(buf), x.n - Len(x.buf))
                  x1 == [x EXCEPT !.buf = @ \o Take(buf, m)]
              IN  IF Len(x1.buf) # x.n /\ Reached(q) THEN RHard("UnexpectedEos") ELSE ROk(x1, m)
    [] x.k = "rem" ->
         IF x.done THEN ROk(x, 0)
         ELSE ROk([x EXCEPT !.buf = @ \o buf, !.done = Reached(q)], Len(buf))
    [] x.k = "pad" ->
         IF x.done THEN ROk(x, 0)
         ELSE IF x.b >= 0 /\ \E i \in 1..Len(buf) : buf[i] # x.b THEN RHard("InvalidInput")
         ELSE ROk([x EXCEPT !.done = Reached(q)], Len(buf))
    [] x.k = "null" -> ROk(x, 0)
    [] x.k = "mono" ->
         IF x.has THEN ROk(x, 0)
         ELSE IF ~Reached(q) THEN ROk([x EXCEPT !.buf = @ \o buf], Len(buf))
         ELSE LET p == ParseMono(x, x.buf \o buf)
              IN  IF p.e # "" THEN RSoft([x EXCEPT !.buf = <<>>], p.e)
                  ELSE ROk([x EXCEPT !.buf = <<>>, !.has = TRUE, !.v = p.v],
                           Max2(0, p.used - Len(x.buf)))
    [] x.k \in {"utf8", "map", "trymap", "box", "ref", "shy"} -> Wrap(x, DD(x.in, buf, q))
    [] x.k = "late" ->       \* user-defined: idle one call after its item is complete
         IF x.st THEN ROk(x, 0) ELSE IF DIdle(x.in) THEN ROk([x EXCEPT !.st = TRUE], 0) ELSE Wrap(x, DD(x.in, buf, q))
    [] x.k = "maperr" ->
         LET r == DD(x.in, buf, q)
         IN  IF r.e = "" THEN Wrap(x, r) ELSE Wrap(x, [r EXCEPT !.e = Renamed(@)])
    [] x.k = "andthen" ->
         LET r0 == IF x.snd = <<>> /\ ~DIdle(x.in) THEN DD(x.in, buf, q) ELSE ROk(x.in, 0)
         IN  IF r0.e # "" THEN RHard(r0.e)
             ELSE IF x.snd = <<>> /\ ~DIdle(r0.x) THEN ROk([x EXCEPT !.in = r0.x], r0.n)
             ELSE LET f == IF x.snd = <<>> THEN DF(r0.x) ELSE FOk(x.in, NoV)
                  IN  IF f.e # "" THEN RHard(f.e)
                      ELSE LET d == IF x.snd = <<>> THEN DInit(SecondShape(x.s, f.v)) ELSE x.snd[1]
                               x1 == [x EXCEPT !.in = f.x, !.snd = <<d>>]
                           IN  IF DIdle(d) THEN ROk(x1, r0.n)
                               ELSE LET r1 == DD(d, Drop(buf, r0.n), q)
                                    IN  IF r1.e # "" THEN RHard(r1.e)
                                        ELSE ROk([x1 EXCEPT !.snd = <<r1.x>>], r0.n + r1.n)
    [] x.k = "collect" -> IF x.done THEN ROk(x, 0) ELSE DCollect(x, buf, q, 0)
    [] x.k = "collectn" -> DCollectN(x, buf, q, 0)
    [] x.k = "length" ->
         LET lim == Min2(Len(buf), x.rem)
             req == x.rem - lim
         IN  IF IsFin(q) /\ q < req THEN RHard("UnexpectedEos")
             ELSE LET r == DD(x.in, Take(buf, lim), req)
                  IN  IF r.e # "" THEN RHard(r.e)
                      ELSE ROk([x EXCEPT !.in = r.x, !.rem = @ - r.n], r.n)
    [] x.k = "maxb" ->
         IF \/ q = INF
            \/ q = UNK /\ Len(buf) > x.max - x.cnt
            \/ IsFin(q) /\ SatAdd(Len(buf), q) > x.max - x.cnt
         THEN RSoft(x, "InvalidInput")
         ELSE LET r == DD(x.in, buf, q)
              IN  IF r.e # "" THEN RHard(r.e)
                  ELSE ROk([x EXCEPT !.in = r.x, !.cnt = @ + r.n], r.n)
    [] x.k = "slice" ->
         LET lim == Min2(Len(buf), x.g)
             r == DD(x.in, Take(buf, lim), Back(q, Len(buf) - lim))
         IN  IF r.e # "" THEN Wrap(x, r)
             ELSE ROk([x EXCEPT !.in = r.x, !.g = @ - r.n], r.n)
    [] x.k = "omit" -> IF x.b THEN ROk(x, 0) ELSE Wrap(x, DD(x.in, buf, q))
    [] x.k = "peek" ->
         IF x.has THEN ROk(x, 0)
         ELSE LET r == DD(x.in, buf, q)
              IN  IF r.e # "" THEN Wrap(x, r)
                  ELSE IF ~DIdle(r.x) THEN ROk([x EXCEPT !.in = r.x], r.n)
                  ELSE LET f == DF(r.x)
                       IN  IF f.e # "" THEN RHard(f.e)
                           ELSE ROk([x EXCEPT !.in = f.x, !.has = TRUE, !.v = f.v], r.n)
    [] x.k = "maybe" ->
         LET q1 == IF ~x.started /\ buf = <<>> /\ Reached(q) THEN UNK ELSE q
             r == DD(x.in, buf, q1)
         IN  IF r.e # "" THEN Wrap(x, r)
             ELSE ROk([x EXCEPT !.in = r.x, !.started = @ \/ r.n # 0], r.n)
    [] x.k = "tuple" ->
         LET r == DTuple(x.ps, 1, 0, buf, q)
         IN  IF r.e # "" THEN RHard(r.e) ELSE ROk([x EXCEPT !.ps = r.x], r.n)

\* parts i, i+1, ... of a tuple; r.x is the sequence of part states
DTuple(ps, i, off, buf, q) ==
  IF i > Len(ps) THEN ROk(ps, off)
  ELSE IF DIdle(ps[i]) THEN DTuple(ps, i + 1, off, buf, q)
  ELSE LET r == DD(ps[i], Drop(buf, off), q)
       IN  IF r.e # "" THEN r
           ELSE LET ps1 == [ps EXCEPT ![i] = r.x]
                IN  IF DIdle(r.x) THEN DTuple(ps1, i + 1, off + r.n, buf, q)
                    ELSE ROk(ps1, off + r.n)

DCollect(x, buf, q, off) ==
  IF ~(off < Len(buf) \/ (x.busy /\ Reached(q)))
  THEN ROk([x EXCEPT !.done = Reached(q)], off)
  ELSE LET r == IF DIdle(x.in) THEN ROk(x.in, 0) ELSE DD(x.in, Drop(buf, off), q)
       IN  IF r.e # "" THEN RHard(r.e)
           ELSE LET busy == x.busy \/ r.n # 0
                    x1 == [x EXCEPT !.in = r.x, !.busy = busy]
                IN  IF ~DIdle(r.x) THEN ROk(x1, off + r.n)
                    ELSE LET f == DF(r.x)
                         IN  IF f.e # "" THEN RHard(f.e)
                             ELSE IF ~busy THEN RHard("InvalidInput")   \* items of no bytes never end
                             ELSE DCollect([x1 EXCEPT !.in = f.x, !.items = Append(@, f.v), !.busy = FALSE],
                                           buf, q, off + r.n)

DCollectN(x, buf, q, off) ==
  IF x.rem = 0 THEN ROk(x, off)
  ELSE LET r == IF DIdle(x.in) THEN ROk(x.in, 0) ELSE DD(x.in, Drop(buf, off), q)
       IN  IF r.e # "" THEN RHard(r.e)
           ELSE IF ~DIdle(r.x)
                THEN IF off + r.n = Len(buf) /\ Reached(q) THEN RHard("UnexpectedEos")
                     ELSE ROk([x EXCEPT !.in = r.x], off + r.n)
           ELSE LET f == DF(r.x)
                IN  IF f.e # "" THEN RHard(f.e)
                    ELSE DCollectN([x EXCEPT !.in = f.x, !.items = Append(@, f.v), !.rem = @ - 1],
                                   buf, q, off + r.n)

---------------------------------------------------------------------------
FWrap(x, f) == IF f.e = "" \/ f.soft THEN [f EXCEPT !.x = [x EXCEPT !.in = f.x]] ELSE f
FMap(f, v) == IF f.e = "" THEN [f EXCEPT !.v = v] ELSE f

DF(x) ==
  CASE x.k = "fix" ->
         IF Len(x.buf) # x.n THEN Early(x)
         ELSE FOk([x EXCEPT !.buf = <<>>], VB(FixValue(x.ty, x.buf)))
    [] x.k = "copy" ->
         IF Len(x.buf) # x.n THEN Early(x) ELSE FOk([x EXCEPT !.buf = <<>>], VB(x.buf))
    [] x.k = "bytes" ->      \* the buffer is filled with 238 (0xEE) when it is handed over
         IF ~x.have THEN FSoft(x, "DecoderTerminated")
         ELSE IF Len(x.buf) # x.n THEN Early(x)
         ELSE FOk([x EXCEPT !.buf = <<>>, !.have = FALSE], VB(Rep(238, x.pre) \o x.buf \o Rep(238, x.post)))
    [] x.k = "rem" ->
         IF ~x.done THEN Early(x) ELSE FOk([x EXCEPT !.buf = <<>>, !.done = FALSE], VB(x.buf))
    [] x.k = "pad" -> IF ~x.done THEN Early(x) ELSE FOk([x EXCEPT !.done = FALSE], VU)
    [] x.k = "null" -> FOk(x, VU)
    [] x.k \in {"mono", "peek"} ->
         IF ~x.has THEN Early(x) ELSE FOk([x EXCEPT !.has = FALSE, !.v = NoV], x.v)
    [] x.k = "utf8" ->
         LET f == FWrap(x, DF(x.in))
         IN  IF f.e = "" /\ ~IsUtf8(f.v[2]) THEN FSoft(f.x, "InvalidInput") ELSE f
    [] x.k \in {"box", "ref", "shy"} -> FWrap(x, DF(x.in))
    [] x.k = "late" -> IF ~x.st THEN Early(x) ELSE FWrap([x EXCEPT !.st = FALSE], DF(x.in))
    [] x.k = "map" -> LET f == DF(x.in) IN FWrap(x, FMap(f, VM(f.v)))
    [] x.k = "trymap" ->
         LET f == FWrap(x, DF(x.in))
         IN  IF f.e # "" THEN f
             ELSE IF Rejects(f.v) THEN FSoft(f.x, Refusal(f.v))
             ELSE FMap(f, VM(f.v))
    [] x.k = "maperr" ->
         LET f == FWrap(x, DF(x.in)) IN IF f.e = "" THEN f ELSE [f EXCEPT !.e = Renamed(@)]
    [] x.k = "andthen" ->
         IF ~DIdle(x) THEN Early(x)
         ELSE LET f == DF(x.snd[1])
              IN  IF f.e = "IncompleteDecoding" THEN FHard(f.e)
                  ELSE [f EXCEPT !.x = [x EXCEPT !.snd = <<>>], !.soft = TRUE]
    [] x.k = "collect" ->
         IF ~x.done THEN Early(x)
         ELSE FOk([x EXCEPT !.items = <<>>, !.done = FALSE], VL(x.items))
    [] x.k = "collectn" ->
         IF x.rem # 0 THEN Early(x) ELSE FOk([x EXCEPT !.items = <<>>], VL(x.items))
    [] x.k = "length" ->
         IF x.rem # 0 \/ ~DIdle(x.in) THEN Early(x)
         ELSE FWrap([x EXCEPT !.rem = x.exp], DF(x.in))
    [] x.k = "maxb" -> IF ~DIdle(x.in) THEN Early(x) ELSE FWrap([x EXCEPT !.cnt = 0], DF(x.in))
    [] x.k = "maybe" -> IF ~DIdle(x.in) THEN Early(x) ELSE FWrap([x EXCEPT !.started = FALSE], DF(x.in))
    [] x.k = "slice" -> FWrap(x, DF(x.in))
    [] x.k = "omit" ->
         IF x.b THEN FOk(x, VNone) ELSE LET f == DF(x.in) IN FWrap(x, FMap(f, VSome(f.v)))
    [] x.k = "tuple" ->
         IF ~DIdle(x) THEN Early(x)
         ELSE DFTuple(x, 1, <<>>)

DFTuple(x, i, vs) ==
  IF i > Len(x.ps) THEN FOk(x, VT(vs))
  ELSE LET f == DF(x.ps[i])
       IN  IF f.e # "" THEN FHard(f.e)
           ELSE DFTuple([x EXCEPT !.ps[i] = f.x], i + 1, Append(vs, f.v))

---------------------------------------------------------------------------
(* Setters and getters of the node at path p (child indices from the root: *)
(* 1 for the inner decoder, i for the i-th part of a tuple).               *)
(* Result: [x, e, v].                                                      *)
COk(x, v) == [x |-> x, e |-> "", v |-> v]
CErr(x, e) == [x |-> x, e |-> e, v |-> NoV]

RECURSIVE DCtl(_, _, _, _)
DCtl(x, p, c, a) ==
  IF p # <<>>
  THEN IF x.k = "tuple"
       THEN LET r == DCtl(x.ps[p[1]], Tail(p), c, a) IN [r EXCEPT !.x = [x EXCEPT !.ps[p[1]] = r.x]]
       ELSE LET r == DCtl(x.in, Tail(p), c, a) IN [r EXCEPT !.x = [x EXCEPT !.in = r.x]]
  ELSE CASE c = "grant" -> COk([x EXCEPT !.g = a], NoV)
         [] c = "omit" -> COk([x EXCEPT !.b = (a = 1)], NoV)
         [] c = "setlen" -> IF x.rem # x.exp THEN CErr(x, "IncompleteDecoding")
                            ELSE COk([x EXCEPT !.rem = a, !.exp = a], NoV)
         [] c = "setmax" -> IF x.cnt > a THEN CErr(x, "InvalidInput") ELSE COk([x EXCEPT !.max = a], NoV)
         [] c = "setn" -> COk([x EXCEPT !.rem = a], NoV)
         [] c = "setbytes" -> COk([x EXCEPT !.n = a, !.buf = <<>>, !.have = TRUE, !.pre = 0, !.post = 0], NoV)
         [] c = "setpad" -> COk([x EXCEPT !.b = a], NoV)
         [] c = "peek" -> COk(x, IF x.has THEN VSome(x.v) ELSE VNone)
         [] c = "poke" -> IF x.has THEN COk([x EXCEPT !.v = VB(<<a>>)], VSome(VB(<<a>>))) ELSE COk(x, VNone)

RECURSIVE DAcc(_)
DAcc(x) ==
  CASE x.k = "length" -> <<x.exp, x.rem>> \o DAcc(x.in)
    [] x.k = "maxb" -> <<x.max, x.cnt>> \o DAcc(x.in)
    [] x.k = "slice" -> <<x.g, IF x.g = 0 THEN 1 ELSE 0>> \o DAcc(x.in)
    [] x.k = "omit" -> <<IF x.b THEN 1 ELSE 0>> \o DAcc(x.in)
    [] x.k = "collectn" -> <<x.rem>> \o DAcc(x.in)
    [] x.k = "peek" -> <<IF x.has THEN 1 ELSE 0>> \o DAcc(x.in)
    [] x.k = "pad" -> <<x.b>>
    [] x.k \in {"fix", "copy", "bytes", "rem", "null", "mono", "andthen", "dead"} -> <<>>
    [] x.k = "tuple" -> FlattenSeq([i \in 1..Len(x.ps) |-> DAcc(x.ps[i])])
    [] OTHER -> DAcc(x.in)
=============================================================================
