------------------------------- MODULE Meaning ------------------------------
(* What codecs mean, independently of how they work: the items that a byte  *)
(* stream stands for, and the bytes that an item stands for.  Nothing here  *)
(* mentions buffers, calls or partial progress.  The operational            *)
(* specification (Decoders, Encoders) is checked against this one.          *)
EXTENDS Encoders

(* P(s, w): the first item of the stream w (w is everything up to the end   *)
(* of the stream) for a decoder of shape s.                                 *)
(*   ok    item v, n bytes          ferr  n bytes, taking the item fails    *)
(*   perr  the message is rejected, the decoder stays usable                *)
(*   err   decoding fails           pend  neither an item nor an error      *)
(*   any   not specified (a precondition is violated)                       *)
(* .s is the shape that describes the decoder afterwards.                   *)
PR(st, v, n, s) == [st |-> st, v |-> v, n |-> n, s |-> s]
POk(v, n, s) == PR("ok", v, n, s)
PErr == PR("err", NoV, 0, [k |-> "dead"])
Worst(r) == IF r.st \in {"ferr", "perr"} THEN PErr ELSE r    \* a failure inside a composite is final

SpentBytes == [k |-> "spent"]

RECURSIVE P(_, _), PMany(_, _, _, _, _), PParts(_, _, _, _, _, _, _)
P(s, w) ==
  CASE s.k = "fix" -> IF Len(w) < FixW(s.ty) THEN PErr
                      ELSE POk(VB(FixValue(s.ty, Take(w, FixW(s.ty)))), FixW(s.ty), s)
    [] s.k = "copy" -> IF Len(w) < s.n THEN PErr ELSE POk(VB(Take(w, s.n)), s.n, s)
    [] s.k = "bytes" -> IF Len(w) < s.n THEN PErr
                        ELSE POk(VB(Rep(238, s.pre) \o Take(w, s.n) \o Rep(238, s.post)), s.n, SpentBytes)
    [] s.k = "spent" -> PR("ferr", NoV, 0, s)
    [] s.k = "rem" -> POk(VB(w), Len(w), s)
    [] s.k = "pad" -> IF s.b >= 0 /\ \E i \in 1..Len(w) : w[i] # s.b THEN PErr ELSE POk(VU, Len(w), s)
    [] s.k = "null" -> POk(VU, 0, s)
    [] s.k = "mono" -> LET p == ParseMono(s, w)
                       IN IF p.e = "" THEN POk(p.v, p.used, s) ELSE PR("perr", NoV, 0, s)
    [] s.k \in {"box", "ref", "maperr", "slice", "shy", "late"} ->
         LET r == P(s.in, w) IN [r EXCEPT !.s = [s EXCEPT !.in = r.s]]
    [] s.k = "map" ->
         LET r == P(s.in, w) IN [r EXCEPT !.s = [s EXCEPT !.in = r.s], !.v = IF r.st = "ok" THEN VM(r.v) ELSE r.v]
    [] s.k = "trymap" ->
         LET r == P(s.in, w)
             s1 == [s EXCEPT !.in = r.s]
         IN  IF r.st # "ok" THEN [r EXCEPT !.s = s1]
             ELSE IF Rejects(r.v) THEN PR("ferr", NoV, r.n, s1) ELSE POk(VM(r.v), r.n, s1)
    [] s.k = "utf8" ->
         LET r == P(s.in, w)
             s1 == [s EXCEPT !.in = r.s]
         IN  IF r.st = "ok" /\ ~IsUtf8(r.v[2]) THEN PR("ferr", NoV, r.n, s1) ELSE [r EXCEPT !.s = s1]
    [] s.k = "omit" ->
         IF s.b THEN POk(VNone, 0, s)
         ELSE LET r == P(s.in, w)
              IN [r EXCEPT !.s = [s EXCEPT !.in = r.s], !.v = IF r.st = "ok" THEN VSome(r.v) ELSE r.v]
    [] s.k = "peek" ->
         LET r == P(s.in, w) IN IF r.st = "ferr" THEN PErr ELSE [r EXCEPT !.s = [s EXCEPT !.in = r.s]]
    [] s.k = "maybe" ->
         IF w = <<>> /\ ~DIdle(DInit(s)) THEN PR("pend", NoV, 0, s)
         ELSE LET r == P(s.in, w) IN [r EXCEPT !.s = [s EXCEPT !.in = r.s]]
    [] s.k = "collect" -> PMany(s, w, -1, 0, <<>>)
    [] s.k = "collectn" -> LET r == PMany(s, w, s.n, 0, <<>>)
                           IN IF r.st = "ok" THEN [r EXCEPT !.s = [@ EXCEPT !.n = 0]] ELSE r
    [] s.k = "length" ->
         IF Len(w) < s.n THEN PErr
         ELSE LET r == P(s.in, Take(w, s.n))
              IN  CASE r.st = "ok" /\ r.n = s.n -> [r EXCEPT !.s = [s EXCEPT !.in = r.s]]
                    [] r.st = "ferr" /\ r.n = s.n -> [r EXCEPT !.s = [s EXCEPT !.in = r.s]]
                    [] r.st = "pend" -> r
                    [] OTHER -> PErr
    [] s.k = "maxb" ->
         LET r == P(s.in, w)
         IN  IF r.st \in {"ok", "ferr"} /\ r.n > s.n THEN PErr
             ELSE IF Len(w) > s.n THEN (IF r.st \in {"ok", "ferr"} THEN PR("any", NoV, 0, s) ELSE r)
             ELSE IF r.st = "perr" THEN PErr
             ELSE [r EXCEPT !.s = [s EXCEPT !.in = r.s]]
    [] s.k = "andthen" ->
         LET a == P(s.in, w)
         IN  IF a.st # "ok" THEN Worst(a)
             ELSE LET b == P(SecondShape(s, a.v), Drop(w, a.n))
                  IN  IF b.st \notin {"ok", "ferr"} THEN Worst(b)
                      ELSE [b EXCEPT !.n = a.n + b.n, !.s = [s EXCEPT !.in = a.s]]
    [] s.k = "tuple" -> PParts(s, w, 1, 0, <<>>, s.ps, FALSE)

\* items until the end of the stream (cnt < 0) or cnt items
PMany(s, w, cnt, off, vs) ==
  IF cnt = 0 \/ (cnt < 0 /\ off = Len(w)) THEN POk(VL(vs), off, s)
  ELSE LET r == P(s.in, Drop(w, off))
       IN  IF r.st # "ok" THEN Worst(r)
           ELSE IF cnt < 0 /\ r.n = 0 THEN PErr       \* items of no bytes never reach the end
           ELSE PMany([s EXCEPT !.in = r.s], w, cnt - 1, off + r.n, Append(vs, r.v))

PParts(s, w, i, off, vs, after, failed) ==
  IF i > Len(s.ps)
  THEN IF failed THEN PErr ELSE POk(VT(vs), off, [s EXCEPT !.ps = after])
  ELSE LET r == P(s.ps[i], Drop(w, off))
       IN  IF r.st \in {"ok", "ferr"}
           THEN PParts(s, w, i + 1, off + r.n, Append(vs, r.v), [after EXCEPT ![i] = r.s], failed \/ r.st = "ferr")
           ELSE Worst(r)

\* settings applied to a decoder between items
RECURSIVE SetAt(_, _, _, _)
SetAt(s, p, c, a) ==
  IF p # <<>>
  THEN IF s.k = "tuple" THEN [s EXCEPT !.ps[p[1]] = SetAt(@, Tail(p), c, a)]
       ELSE [s EXCEPT !.in = SetAt(@, Tail(p), c, a)]
  ELSE CASE c \in {"setlen", "setn", "setmax"} -> [s EXCEPT !.n = a]
         [] c = "setbytes" -> [k |-> "bytes", n |-> a, pre |-> 0, post |-> 0]
         [] c = "omit" -> [s EXCEPT !.b = (a = 1)]
         [] c = "setpad" -> [s EXCEPT !.b = a]
         [] OTHER -> s
RECURSIVE SetAll(_, _)
SetAll(s, cs) == IF cs = <<>> THEN s ELSE SetAll(SetAt(s, cs[1].p, cs[1].c, cs[1].a), Tail(cs))

\* What a user sees who decodes frames (each ends with an end of stream) with
\* one decoder, at most max items per frame, applying the settings cs between
\* items: a sequence of outcomes.
RECURSIVE OutFrame(_, _, _, _, _), OutFrames(_, _, _, _)
OItem(v, n) == [st |-> "item", v |-> v, n |-> n]
OSt(st, n) == [st |-> st, v |-> NoV, n |-> n]
OutFrame(s, w, max, cs, k) ==
  LET r == P(s, w)
      s1 == SetAll(r.s, cs)
      rest == Drop(w, r.n)
      more(o) == IF rest = <<>> \/ k = max THEN [o |-> <<o>>, s |-> s1, go |-> TRUE]
                 ELSE LET t == OutFrame(s1, rest, max, cs, k + 1) IN [t EXCEPT !.o = <<o>> \o @]
  IN  CASE r.st = "ok" -> more(OItem(r.v, r.n))
        [] r.st = "ferr" -> more(OSt("bad", r.n))
        [] r.st = "perr" -> [o |-> <<OSt("fail", 0)>>, s |-> r.s, go |-> TRUE]
        [] r.st = "err" -> [o |-> <<OSt("fail", 0)>>, s |-> r.s, go |-> FALSE]
        [] OTHER -> [o |-> <<OSt(r.st, 0)>>, s |-> r.s, go |-> FALSE]
OutFrames(s, ws, max, cs) ==
  IF ws = <<>> THEN <<>>
  ELSE LET f == OutFrame(s, ws[1], max, cs, 1)
       IN  <<f.o>> \o (IF f.go THEN OutFrames(f.s, Tail(ws), max, cs) ELSE <<>>)

---------------------------------------------------------------------------
(* R(s, v): what an encoder of shape s makes of the item v.                 *)
(*   ok    the bytes b, then (fill >= 0) that byte to the end of the stream *)
(*   none  no item                       sbad  refused                      *)
(*   ebad  accepted, encoding fails      any   not specified                *)
RR(st, b, fill) == [st |-> st, b |-> b, fill |-> fill]
ROkB(b) == RR("ok", b, -1)
RBad(st) == RR(st, <<>>, -1)

RECURSIVE R(_, _), RMany(_, _, _), RParts(_, _, _, _)
R(s, v) ==
  CASE s.k = "fix" -> IF FixFits(s.ty, v[2]) THEN ROkB(FixRaw(s.ty, v[2])) ELSE RBad("sbad")
    [] s.k \in {"bytes", "utf8"} -> ROkB(v[2])
    [] s.k = "pad" -> RR("ok", <<>>, v[2][1])
    [] s.k = "null" -> ROkB(<<>>)
    [] s.k = "mono" -> LET r == RenderMono(s, v) IN IF r.e = "" THEN ROkB(r.o) ELSE RBad("ebad")
    [] s.k = "opt" -> IF v = VNone THEN RBad("none") ELSE R(s.in, v[2][1])
    [] s.k = "mapfrom" -> R(s.in, v[2][1])
    [] s.k = "trymapfrom" -> IF Rejects(v) THEN RBad("sbad") ELSE R(s.in, v[2][1])
    [] s.k \in {"maperr", "box", "ref", "slice", "shy", "late"} -> R(s.in, v)
    [] s.k = "repeat" -> RMany(s.in, v[2], <<>>)
    [] s.k = "length" ->
         LET r == R(s.in, v)
         IN  CASE r.st \in {"sbad", "ebad", "any"} -> r
               [] r.st = "none" -> IF s.n = 0 THEN r ELSE RBad("sbad")
               [] r.fill >= 0 -> IF Len(r.b) > s.n THEN RBad("ebad") ELSE ROkB(r.b \o Rep(r.fill, s.n - Len(r.b)))
               [] OTHER -> IF Len(r.b) = s.n THEN r ELSE IF r.b = <<>> THEN RBad("bad") ELSE RBad("ebad")
    [] s.k = "maxb" ->
         LET r == R(s.in, v)
         IN  IF r.st # "ok" THEN r ELSE IF r.fill >= 0 THEN RBad("any")
             ELSE IF Len(r.b) > s.n THEN RBad("ebad") ELSE r
    [] s.k = "pre" ->
         LET r == R(s.in, v)
         IN  CASE r.st = "ebad" -> RBad("bad") [] r.st = "ok" /\ r.fill >= 0 -> RBad("bad")
               [] r.st = "none" -> ROkB(<<>>) [] OTHER -> r
    [] s.k = "tuple" -> RParts(s, v, 1, <<>>)
    [] s.k = "with" -> R(s.in, v)
    [] s.k = "last" -> \* whatever it holds, then the final item
         LET a == IF s.first = NoV THEN ROkB(<<>>) ELSE R(s.in, s.first)
             b == R(s.in, s.v)
         IN  IF a.st # "ok" \/ a.fill >= 0 THEN a
             ELSE CASE b.st = "ok" -> RR("ok", a.b \o b.b, b.fill) [] b.st = "none" -> a
                    [] b.st = "any" -> b [] OTHER -> RBad("ebad")

\* the elements of a repetition are given to the same encoder one by one
RMany(s, vs, b) ==
  IF vs = <<>> THEN ROkB(b)
  ELSE LET r == R(s, vs[1])
       IN  CASE r.st = "none" -> RMany(s, Tail(vs), b)
             [] r.st = "ok" -> IF r.fill >= 0 THEN RBad("any") ELSE RMany(s, Tail(vs), b \o r.b)
             [] r.st = "any" -> r
             [] OTHER -> RBad("ebad")

RParts(s, v, i, b) ==
  IF i > Len(s.ps) THEN ROkB(b)
  ELSE LET r == R(s.ps[i], v[2][i])
       IN  CASE r.st = "none" -> RParts(s, v, i + 1, b)
             [] r.st = "ok" ->
                  IF r.fill < 0 THEN RParts(s, v, i + 1, b \o r.b)
                  ELSE LET t == RParts(s, v, i + 1, <<>>)
                       IN  IF t.st = "ok" /\ t.b = <<>> /\ t.fill < 0 THEN RR("ok", b \o r.b, r.fill) ELSE RBad("any")
             [] r.st \in {"any", "bad"} -> r
             [] r.st = "sbad" -> IF i = 1 THEN r ELSE RBad("any")     \* known finding KF1
             [] OTHER -> RBad(IF \E j \in (i+1)..Len(s.ps) : R(s.ps[j], v[2][j]).st \in {"sbad", "bad", "any"}
                              THEN "any" ELSE "ebad")
=============================================================================
