-------------------------------- MODULE MCDrv -------------------------------
(* The helpers that process whole items, compared with what the stream and  *)
(* the items mean, under every behaviour of the reader or writer.           *)
(* A scenario (JSON):                                                       *)
(*   k = "dec": decoder s on a reader of the bytes w, at most max items,    *)
(*              settings cs between items                                   *)
(*   k = "enc": encoder s, items (held = 1: it holds an item already);      *)
(*              pre: room offered by hand before the helper is called       *)
(*   toks, n    every script of at most n of the tokens is tried            *)
(*   slices     1 for decode_from_bytes on every part of w, and             *)
(*              encode_into_bytes, instead                                  *)
EXTENDS Meaning, World, IOUtils, Json

Scen == JsonDeserialize(IOEnv.SCEN)
MORE == atoi(IOEnv.MORE)

VARIABLES sc, script, exp, w, k, seen, calls, outs, st, h
vars == <<sc, script, exp, w, k, seen, calls, outs, st, h>>
S == Scen[sc]
X == w.x
Seqs(T, n) == UNION {[1..i -> T] : i \in 0..n}
Toks(s) == {s.toks[i] : i \in 1..Len(s.toks)}

\* the stream that a reader with this script shows before its first end
RECURSIVE Shown(_, _)
Shown(b, t) == IF t = <<>> THEN b
               ELSE IF t[1] = 0 THEN <<>>
               ELSE IF t[1] < 0 THEN Shown(b, Tail(t))
               ELSE Take(b, t[1]) \o Shown(Drop(b, t[1]), Tail(t))   \* (at least this: a read may ask for less)

Init ==
  /\ sc \in 1..Len(Scen)
  /\ script \in IF Scen[sc].slices = 1
                THEN (IF Scen[sc].k = "dec" THEN {<<i>> : i \in (IF Len(Scen[sc].w) > 5000 THEN Len(Scen[sc].w) - 1 ELSE 0)..Len(Scen[sc].w)}
                      ELSE {<<>>})
                ELSE Seqs(Toks(Scen[sc]), Scen[sc].n + MORE)
  /\ exp = (IF Scen[sc].k = "dec"
            THEN (IF Scen[sc].slices = 1 THEN <<P(Scen[sc].s, Take(Scen[sc].w, script[1]))>>
                  ELSE OutFrame(Scen[sc].s, Scen[sc].w, Scen[sc].max, Scen[sc].cs, 1).o)
            ELSE [j \in 1..Len(Scen[sc].items) |-> R(Scen[sc].s, Scen[sc].items[j])])
  /\ w = WInit(Scen[sc].k, Scen[sc].s)
  /\ k = 0 /\ seen = 0 /\ calls = 0 /\ outs = <<>> /\ st = "start" /\ h = <<>>

Log(hh, op, r) == Append(hh, op @@ [x |-> r.obs])
Do(ops, w0, h0) ==
  FoldLeft(LAMBDA acc, op : IF WDead(acc.w) THEN acc
                            ELSE LET r == Apply(acc.w, op) IN [w |-> r.w, h |-> Log(acc.h, op, r), obs |-> r.obs],
           [w |-> w0, h |-> h0, obs |-> [e |-> ""]], ops)
Sets == [i \in 1..Len(S.cs) |-> [o |-> "c", p |-> S.cs[i].p, c |-> S.cs[i].c, a |-> S.cs[i].a]]
Same2(o) == sc' = sc /\ script' = script /\ exp' = exp

---------------------------------------------------------------------------
\* C17: one item after the other from the same reader
Begin ==
  /\ st = "start" /\ S.k = "dec" /\ S.slices = 0
  /\ LET d == Do(<<[o |-> "src", d |-> S.w, t |-> script]>>, w, h) IN w' = d.w /\ h' = d.h
  /\ st' = "run" /\ UNCHANGED <<sc, script, exp, k, seen, calls, outs>>

\* seen: bytes of the items dealt with.  The current item may have taken more of the reader already
\* (a call that failed with the reader's error).
DExactly ==
  /\ st = "run" /\ S.k = "dec"
  /\ LET d == Do(<<[o |-> "dx"]>>, w, h)
         o == d.obs
         left == Len(d.w.rd.d)
         used == Take(w.rd.t, Len(w.rd.t) - Len(d.w.rd.t))
         failing == used # <<>> /\ used[Len(used)] < 0        \* the reader's error ends the call
         ended == 0 \in {used[i] : i \in 1..Len(used)}
         ok == o.e = ""
         d2 == IF ok THEN Do(Sets, d.w, d.h) ELSE d
         n == Len(S.w) - left - seen
     IN  /\ w' = d2.w /\ h' = d2.h /\ calls' = calls + 1
         /\ k' = IF ok THEN k + 1 ELSE k
         /\ seen' = IF ok THEN seen + n ELSE seen
         /\ IF failing /\ ~WDead(d.w)
            THEN \* the reader's error, and everything read so far is kept
                 /\ Assert(o.e = (IF used[Len(used)] = -3 THEN "UnexpectedEos" ELSE "Other"), <<"reader's error", S, script, o>>)
                 /\ st' = "run" /\ outs' = outs
            ELSE IF ended THEN \* the reader ended the stream early: the item, or an error
                 /\ st' = "done" /\ outs' = outs
            ELSE /\ outs' = Append(outs, IF ok THEN OItem(o.v, n) ELSE OSt("fail", 0))
                 /\ st' = IF ok /\ left > 0 /\ k + 1 < S.max /\ calls < 40 THEN "run" ELSE "done"
  /\ UNCHANGED <<sc, script, exp>>

Fits2(got, want) ==
  \/ want.st = "any"
  \/ want.st = "item" /\ got = want
  \/ want.st \in {"bad", "fail", "pend"} /\ got.st = "fail"
Exactly == (S.k = "dec" /\ S.slices = 0) =>
             \/ \E i \in 1..Len(exp) : exp[i].st = "any"
             \/ \A i \in 1..Len(outs) : i <= Len(exp) /\ Fits2(outs[i], exp[i])
\* it always returns (a call that does not would be seen by TLC as an endless recursion), and each reader's
\* error is used up by one call
Returns == calls <= 40

\* C18: decode_from_bytes takes the whole slice or fails
DSlice ==
  /\ st = "start" /\ S.k = "dec" /\ S.slices = 1
  /\ LET b == Take(S.w, script[1])
         d == Do(<<[o |-> "db", b |-> b]>>, w, h)
         m == exp[1]
     IN  /\ w' = d.w /\ h' = d.h
         /\ Assert(CASE m.st = "any" -> TRUE
                     [] m.st = "ok" -> IF m.n = Len(b) THEN d.obs.e = "" /\ d.obs.v = m.v ELSE d.obs.e # ""
                     [] OTHER -> d.obs.e # "", <<"decode_from_bytes", S, b, d.obs, m>>)
  /\ st' = "done" /\ UNCHANGED <<sc, script, exp, k, seen, calls, outs>>

---------------------------------------------------------------------------
\* C18: encode_all, from the state in which `pre' bytes have been taken by hand
EAllTo ==
  /\ st \in {"start", "run"} /\ S.k = "enc" /\ S.slices = 0
  /\ k < Len(S.items)
  /\ \E c \in {S.pre[i] : i \in 1..Len(S.pre)} :
       LET held == S.held = 1 /\ k = 0
           m == exp[k + 1]
           d1 == IF held THEN Do(<<>>, w, h) ELSE Do(<<[o |-> "s", v |-> S.items[k + 1]]>>, w, h)
           d2 == IF c >= 0 /\ d1.obs.e = "" THEN Do(<<[o |-> "e", c |-> c, q |-> UNK]>>, d1.w, d1.h) ELSE d1
           taken == IF "b" \in DOMAIN d2.obs THEN d2.obs.b ELSE <<>>
           go == d1.obs.e = "" /\ d2.obs.e = "" /\ ~WDead(d2.w) /\ m.fill < 0
           d3 == IF go THEN Do(<<[o |-> "snk", t |-> script], [o |-> "ea"]>>, d2.w, d2.h) ELSE d2
           used == Take(script, Len(script) - Len(d3.w.wr.t))
           broken == \E i \in 1..Len(used) : used[i] <= 0
       IN  /\ w' = d3.w /\ h' = d3.h
           /\ k' = k + 1
           /\ outs' = Append(outs, [st |-> IF d3.obs.e = "" THEN "ok" ELSE "bad"])
           /\ st' = IF WDead(d3.w) \/ d3.obs.e # "" \/ m.fill >= 0 THEN "done" ELSE "run"
           /\ Assert(CASE m.st \in {"any", "bad"} \/ m.fill >= 0 -> TRUE
                       [] m.st = "ok" /\ go -> IF broken THEN d3.obs.e # ""
                                               ELSE /\ d3.obs.e = "" /\ taken \o d3.obs.b = m.b /\ EIdle(d3.w.x)
                       [] m.st = "none" -> d3.obs.e = "" /\ taken = <<>> /\ EIdle(d3.w.x)
                       [] m.st = "sbad" -> d1.obs.e # ""
                       [] OTHER -> d3.obs.e # "" \/ d2.obs.e # "" \/ d1.obs.e # "", <<"encode_all", S, k, script, d3.obs, m>>)
  /\ UNCHANGED <<sc, script, exp, seen, calls>>

\* C18: encode_into_bytes
EInto2 ==
  /\ st \in {"start", "run"} /\ S.k = "enc" /\ S.slices = 1 /\ S.held = 0
  /\ k < Len(S.items)
  /\ LET d == Do(<<[o |-> "ei", v |-> S.items[k + 1]]>>, w, h)
         m == exp[k + 1]
     IN  /\ w' = d.w /\ h' = d.h /\ k' = k + 1
         /\ outs' = Append(outs, [st |-> IF d.obs.e = "" THEN "ok" ELSE "bad"])
         /\ st' = IF WDead(d.w) THEN "done" ELSE "run"
         /\ Assert(CASE m.st \in {"any", "bad"} -> TRUE
                     [] m.st = "ok" /\ m.fill < 0 -> d.obs.e = "" /\ d.obs.b = m.b /\ EIdle(d.w.x)
                     [] m.st = "none" -> d.obs.e = "" /\ d.obs.b = <<>>
                     [] OTHER -> d.obs.e # "", <<"encode_into_bytes", S, k, d.obs, m>>)
  /\ UNCHANGED <<sc, script, exp, seen, calls>>

Next == Begin \/ DExactly \/ DSlice \/ EAllTo \/ EInto2
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
\* the end of each drive is shown, not every step of it
Over == st' = "done" \/ (S.k = "enc" /\ k' = Len(S.items))
Emit == Over => PrintT(ToJson([sc |-> sc, ops |-> h']))
=============================================================================
