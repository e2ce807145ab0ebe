------------------------------- MODULE MCDec --------------------------------
(* All ways of driving a decoder through a stream, compared with what the   *)
(* stream means.  A scenario (JSON) is                                      *)
(*   s      the decoder            ws    the frames of the stream; each      *)
(*   max    items per frame              ends with an end of stream          *)
(*   cs     settings applied between items: [p, c, a]                        *)
(*   gr     grants for slice nodes  bud  number of disturbances: an empty    *)
(*                                       chunk, a premature finish, a call   *)
(*                                       while an item waits, a peek, a call *)
(*                                       to a suspended decoder              *)
(* Chunks of every length are tried, and at every call the distance to the  *)
(* end of the frame is announced or not.                                    *)
EXTENDS Meaning, World, IOUtils, Json

Scen == JsonDeserialize(IOEnv.SCEN)
HIST == IOEnv.HIST = "1"

VARIABLES
  sc,    \* the scenario
  exp,   \* what its stream means
  act,   \* the last action
  w,     \* the world: decoder under test
  fr,    \* the current frame
  pos,   \* bytes of it consumed
  from,  \* position at which the current item begins
  outs,  \* outcomes so far, per frame
  need,  \* position before which the item cannot be complete (C05)
  told,  \* the end of the stream has been announced for the current item
  bud,   \* disturbances left
  st,    \* run, wait (finish pending settings), done
  h      \* the calls with their specified results
vars == <<sc, exp, act, w, fr, pos, from, outs, need, told, bud, st, h>>

X == w.x
S == Scen[sc]
Frame == S.ws[fr]
Idle == DIdle(X)

RECURSIVE Slices(_, _), Peeks(_, _)
Kids(x) == IF x.k = "tuple" THEN x.ps
           ELSE IF x.k \in {"fix","copy","bytes","rem","pad","null","mono","dead","andthen"} THEN <<>> ELSE <<x.in>>
Under(F(_, _), x, p) == FlattenSeq([i \in 1..Len(Kids(x)) |-> F(Kids(x)[i], Append(p, i))])
Slices(x, p) == (IF x.k = "slice" THEN << [p |-> p, g |-> x.g] >> ELSE <<>>) \o Under(Slices, x, p)
Peeks(x, p) == (IF x.k = "peek" THEN << p >> ELSE <<>>) \o Under(Peeks, x, p)
Starved(x) == SelectSeq(Slices(x, <<>>), LAMBDA n : n.g = 0)
Suspended(x) == Starved(x) # <<>>

Log(ops, w0) ==      \* run ops from world w0, append them to the history
  FoldLeft(LAMBDA acc, op :
             LET r == Apply(acc.w, op)
             IN  [w |-> r.w, h |-> IF HIST THEN Append(acc.h, op @@ [x |-> r.obs]) ELSE acc.h],
           [w |-> w0, h |-> h], ops)
Step(op) == Apply(w, op)
Note(op, r) == IF HIST THEN Append(h, op @@ [x |-> r.obs]) ELSE h

Init ==
  /\ sc \in 1..Len(Scen)
  /\ exp = OutFrames(Scen[sc].s, Scen[sc].ws, Scen[sc].max, Scen[sc].cs)
  /\ act = "init"
  /\ w = WInit("dec", Scen[sc].s)
  /\ fr = 1 /\ pos = 0 /\ from = 0 /\ outs = << <<>> >>
  /\ need = (IF IsFin(DReq(w.x)) /\ ~DIdle(w.x) THEN DReq(w.x) ELSE 0)
  /\ told = FALSE
  /\ bud = Scen[sc].bud
  /\ st = "run" /\ h = <<>>

Out(o) == [outs EXCEPT ![fr] = Append(@, o)]

\* the frame is over: go on with the next one, if the decoder is still usable
EndFrame(x, o) ==
  /\ IF IsDead(x) \/ fr = Len(S.ws)
     THEN /\ st' = "done" /\ outs' = o /\ UNCHANGED <<fr>> /\ pos' = pos /\ from' = from
     ELSE /\ st' = "run" /\ fr' = fr + 1 /\ outs' = Append(o, <<>>) /\ pos' = 0 /\ from' = 0
  /\ told' = FALSE
  /\ need' = IF ~IsDead(x) /\ IsFin(DReq(x)) /\ ~DIdle(x) THEN DReq(x) ELSE 0

DoGrant ==
  /\ st = "run" /\ ~Idle /\ Suspended(X)
  /\ \E a \in {S.gr[i] : i \in 1..Len(S.gr)} :
       LET ops == [i \in 1..Len(Starved(X)) |-> [o |-> "c", p |-> Starved(X)[i].p, c |-> "grant", a |-> a]]
           l == Log(ops, w)
       IN  w' = l.w /\ h' = l.h
  /\ UNCHANGED <<sc, fr, pos, from, outs, need, told, bud, st>>

Feed ==
  /\ st = "run" /\ ~Idle
  /\ \E len \in 0..(Len(Frame) - pos) :
     \E q \in {UNK, Len(Frame) - pos - len} :
       LET buf == SubSeq(Frame, pos + 1, pos + len)
           r == Step([o |-> "d", b |-> buf, q |-> q])
           x1 == r.w.x
           n == IF r.obs.e = "" THEN r.obs.n ELSE 0
           costs == (len = 0 /\ ~(pos = Len(Frame) /\ q = 0)) \/ Suspended(X)
       IN  /\ costs => bud > 0
           /\ bud' = IF costs THEN bud - 1 ELSE bud
           /\ w' = r.w
           /\ h' = Note([o |-> "d", b |-> buf, q |-> q], r)
           /\ sc' = sc
           /\ IF r.obs.e # "" THEN EndFrame(x1, Out(OSt("fail", 0)))
              ELSE \* C01: everything is consumed unless an item is complete or the decoder is suspended
                   /\ Assert(n = len \/ DIdle(x1) \/ Suspended(x1), <<"leftover", S.s, pos, len, q>>)
                   /\ pos' = pos + n
                   /\ told' = (told \/ q = 0)
                   /\ need' = IF IsFin(DReq(x1)) /\ ~DIdle(x1) THEN Max2(need, SatAdd(pos + n, DReq(x1))) ELSE need
                   /\ UNCHANGED <<from, fr>>
                   /\ IF len = 0 /\ q = 0 /\ ~DIdle(x1) /\ ~Suspended(X)
                      THEN st' = "done" /\ outs' = Out(OSt("pend", 0))
                      ELSE UNCHANGED <<st, outs>>

\* asking too early
Early1 ==
  /\ st = "run" /\ ~Idle /\ bud > 0
  /\ LET r == Step([o |-> "f"])
     IN  /\ w' = r.w /\ h' = Note([o |-> "f"], r)
  /\ bud' = bud - 1
  /\ UNCHANGED <<sc, fr, pos, from, outs, need, told, st>>

\* a call while an item waits
Probe ==
  /\ st = "run" /\ Idle /\ bud > 0 /\ S.probe = 1
  /\ \E b \in {<<>>, Drop(Frame, pos), Drop(Frame, pos) \o <<1, 2>>, <<0>>} :
     \E q \in {UNK} \cup (IF DF(X).e = "IncompleteDecoding" THEN {} ELSE {0, Max2(0, Len(Frame) - pos - Len(b))}) :
       LET op == [o |-> "d", b |-> b, q |-> q]
           r == Step(op)
       IN  w' = r.w /\ h' = Note(op, r)
  /\ bud' = bud - 1
  /\ UNCHANGED <<sc, fr, pos, from, outs, need, told, st>>

Peek ==
  /\ st = "run" /\ bud > 0
  /\ \E i \in 1..Len(Peeks(X, <<>>)) :
       LET op == [o |-> "c", p |-> Peeks(X, <<>>)[i], c |-> "peek", a |-> 0]
           r == Step(op)
       IN  w' = r.w /\ h' = Note(op, r)
  /\ bud' = bud - 1
  /\ UNCHANGED <<sc, fr, pos, from, outs, need, told, st>>

\* taking the item, then the settings
TakeItem ==
  /\ st = "run" /\ Idle
  /\ LET r == Step([o |-> "f"])
         hard == r.obs.e = "IncompleteDecoding" \/ IsDead(r.w.x)
         o == CASE r.obs.e = "" -> OItem(r.obs.v, pos - from)
                [] hard -> OSt("fail", 0)
                [] OTHER -> OSt("bad", pos - from)
         ops == [i \in 1..Len(S.cs) |-> [o |-> "c", p |-> S.cs[i].p, c |-> S.cs[i].c, a |-> S.cs[i].a]]
         h1 == Note([o |-> "f"], r)
         l == IF hard THEN [w |-> r.w, h |-> h1]
              ELSE FoldLeft(LAMBDA acc, op :
                       LET t == Apply(acc.w, op)
                       IN  [w |-> t.w, h |-> IF HIST THEN Append(acc.h, op @@ [x |-> t.obs]) ELSE acc.h],
                     [w |-> r.w, h |-> h1], ops)
         x1 == l.w.x
     IN  /\ w' = l.w /\ h' = l.h /\ sc' = sc /\ bud' = bud
         /\ IF hard THEN st' = "done" /\ outs' = Out(o) /\ UNCHANGED <<fr, pos, from, told, need>>
            ELSE IF pos = Len(Frame) \/ Len(outs[fr]) + 1 = S.max THEN EndFrame(x1, Out(o))
            ELSE /\ st' = "run" /\ outs' = Out(o) /\ from' = pos /\ told' = FALSE
                 /\ need' = IF IsFin(DReq(x1)) /\ ~DIdle(x1) THEN SatAdd(pos, DReq(x1)) ELSE pos
                 /\ UNCHANGED <<fr, pos>>

Act(A, name) == A /\ act' = name /\ exp' = exp
Done == st = "done" /\ UNCHANGED vars
Next == \/ Act(DoGrant, "grant") \/ Act(Feed, "feed") \/ Act(Early1, "early") \/ Act(Probe, "probe")
        \/ Act(Peek, "peek") \/ Act(TakeItem, "take") \/ Done
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* C01, C06, C08, C09, C11-C16, C23: the outcomes are what the stream means
Same(got, want) ==
  /\ Len(got) <= Len(want)
  /\ \A i \in 1..Len(got) : got[i] = want[i]
Open == \E i \in 1..Len(exp) : \E j \in 1..Len(exp[i]) : exp[i][j].st = "any"
Faithful ==
  \/ Open
  \/ /\ Len(outs) <= Len(exp)
     /\ \A i \in 1..Len(outs) : Same(outs[i], exp[i])
     /\ st = "done" => outs = exp

\* C05: a finite requirement is a lower bound, unless the stream ends; nothing is required once an item waits
Truthful ==
  st = "run" /\ Idle /\ DF(X).e # "IncompleteDecoding" =>
    /\ told \/ pos >= need
    /\ DF(X).e = "" => DReq(X) = 0

\* C03: too early: refused without a trace (with an error that an error mapping may replace)
EarlyIsHarmless == [][act' = "early" /\ st = "run" => X' = X /\ DF(X).e \in {"IncompleteDecoding", "Other", "InconsistentState"}]_vars
\* C03: an idle decoder consumes nothing
ProbeIsIgnored == [][act' = "probe" /\ st = "run" => X' = X]_vars
\* C10: a slice pays for what it consumes
Pays == [][(act' = "feed" /\ st = "run" /\ X.k = "slice" /\ fr' = fr /\ X'.k = "slice") => X'.g = X.g - (pos' - pos)]_vars
\* C08: a length window is never exceeded, and its count is kept
Window == X.k = "length" /\ st = "run" => pos - from = X.exp - X.rem
\* C09: the running count of a size limit
Counts == X.k = "maxb" /\ st = "run" /\ ~Idle => X.cnt = pos - from

\* (no dead end before the end: deadlock checking)

---------------------------------------------------------------------------
(* Behaviours for the implementation.  States are identified without their  *)
(* history, but with the last calls (DEPTH of them), so that every way of   *)
(* continuing after every such sequence of calls is tried.  Each is run on  *)
(* to the end of the frame in one go, so that a difference in hidden state  *)
(* has a chance to show.                                                    *)
DEPTH == atoi(IOEnv.DEPTH)
LastOps == [i \in 1..Min2(DEPTH, Len(h)) |-> LET o == h[Len(h) + 1 - i] IN [o EXCEPT !.x = <<>>]]
View == <<sc, w, fr, pos, from, outs, need, told, bud, st, LastOps>>

RECURSIVE Finish(_, _, _, _, _)
Finish(w1, p, frame, fuel, out) ==
  IF fuel = 0 \/ IsDead(w1.x) THEN out
  ELSE LET idle == DIdle(w1.x)
           op == IF idle THEN [o |-> "f"]
                 ELSE IF Suspended(w1.x)
                      THEN [o |-> "c", p |-> Starved(w1.x)[1].p, c |-> "grant", a |-> 50]
                      ELSE [o |-> "d", b |-> Drop(frame, p), q |-> 0]
           r == Apply(w1, op)
           p1 == IF op.o = "d" /\ r.obs.e = "" THEN p + r.obs.n ELSE p
           out1 == Append(out, op @@ [x |-> r.obs])
       IN  IF r.obs.e # "" \/ (op.o = "d" /\ p = Len(frame) /\ ~DIdle(r.w.x)) THEN out1
           ELSE IF op.o = "f" /\ p = Len(frame) THEN out1
           ELSE Finish(r.w, p1, frame, fuel - 1, out1)

Emit == HIST /\ st = "run" => PrintT(ToJson([sc |-> sc,
                               ops |-> h' \o (IF st' = "run" THEN Finish(w', pos', S.ws[fr'], 8, <<>>) ELSE <<>>)]))
=============================================================================
