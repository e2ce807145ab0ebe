------------------------------- MODULE MCEnc --------------------------------
(* All ways of driving an encoder, compared with what the items stand for.  *)
(* A scenario (JSON) is                                                     *)
(*   s       the encoder          items  the items given to it in turn      *)
(*   held    1 if it holds the first item already (and takes no other)      *)
(*   rooms   sizes of the output stream (-1: unlimited)                     *)
(*   caps    sizes of the output buffers offered                            *)
(*   gr      grants for slice nodes, cs: settings applied between items     *)
(*   into    1: items may also be encoded with encode_into_bytes            *)
(*   bud     number of disturbances: a start while busy, an empty buffer,   *)
(*           a call to an idle or suspended encoder                         *)
EXTENDS Meaning, World, IOUtils, Json

Scen == JsonDeserialize(IOEnv.SCEN)
HIST == IOEnv.HIST = "1"
DEPTH == atoi(IOEnv.DEPTH)

VARIABLES
  sc, exp, act, w,
  k,      \* number of items dealt with
  busy,   \* an item is being encoded
  out,    \* its bytes so far
  room,   \* what is left of the output stream
  outs,   \* outcomes so far
  bud, st, h
vars == <<sc, exp, act, w, k, busy, out, room, outs, bud, st, h>>

S == Scen[sc]
X == w.x
Idle == EIdle(X)

RECURSIVE Slices(_, _)
Kids(x) == IF x.k = "tuple" THEN x.ps
           ELSE IF x.k \in {"fix","bytes","utf8","pad","null","mono","dead"} THEN <<>> ELSE <<x.in>>
Slices(x, p) == (IF x.k = "slice" THEN << [p |-> p, g |-> x.g] >> ELSE <<>>)
                \o FlattenSeq([i \in 1..Len(Kids(x)) |-> Slices(Kids(x)[i], Append(p, i))])
Starved(x) == SelectSeq(Slices(x, <<>>), LAMBDA n : n.g = 0)
Suspended(x) == Starved(x) # <<>>

Note(hh, op, r) == IF HIST THEN Append(hh, op @@ [x |-> r.obs]) ELSE hh

Init ==
  /\ sc \in 1..Len(Scen)
  /\ exp = [j \in 1..Len(Scen[sc].items) |-> R(IF j = 1 THEN Scen[sc].s ELSE SetAll(Scen[sc].s, Scen[sc].cs), Scen[sc].items[j])]
  /\ act = "init"
  /\ w = WInit("enc", Scen[sc].s)
  /\ k = (IF Scen[sc].held = 1 THEN 1 ELSE 0)
  /\ busy = (Scen[sc].held = 1)
  /\ out = <<>> /\ outs = <<>>
  /\ room \in {Scen[sc].rooms[i] : i \in 1..Len(Scen[sc].rooms)}
  /\ bud = Scen[sc].bud
  /\ st = "run" /\ h = <<>>

O(stt, b) == [st |-> stt, b |-> b]
\* item k is over; the settings are applied
Over(w1, h1, o) ==
  LET l == IF IsDead(w1.x) THEN [w |-> w1, h |-> h1]
           ELSE FoldLeft(LAMBDA acc, c :
                   LET op == [o |-> "c", p |-> c.p, c |-> c.c, a |-> c.a]
                       t == Apply(acc.w, op)
                   IN  [w |-> t.w, h |-> Note(acc.h, op, t)],
                 [w |-> w1, h |-> h1], S.cs)
  IN  /\ w' = l.w /\ h' = l.h
      /\ outs' = Append(outs, o)
      /\ out' = <<>> /\ busy' = FALSE
      /\ st' = IF k' = Len(S.items) \/ o.st = "err" \/ IsDead(w1.x) \/ ~EIdle(w1.x) THEN "done" ELSE "run"

Start ==
  /\ st = "run" /\ ~busy
  /\ LET op == [o |-> "s", v |-> S.items[k + 1]]
         r == Apply(w, op)
     IN  /\ k' = k + 1
         /\ IF r.obs.e # "" THEN Over(r.w, Note(h, op, r), O("refused", <<>>))
            ELSE IF EIdle(r.w.x) THEN Over(r.w, Note(h, op, r), O("ok", <<>>))
            ELSE /\ busy' = TRUE /\ w' = r.w /\ h' = Note(h, op, r)
                 /\ UNCHANGED <<out, outs, st>>
  /\ UNCHANGED <<sc, room, bud>>

Into ==
  /\ st = "run" /\ ~busy /\ S.into = 1 /\ ~Suspended(X)
  /\ LET op == [o |-> "ei", v |-> S.items[k + 1]]
         r == Apply(w, op)
     IN  /\ k' = k + 1
         /\ Over(r.w, Note(h, op, r), IF r.obs.e = "" THEN O("ok", r.obs.b) ELSE O("into", <<>>))
  /\ UNCHANGED <<sc, room, bud>>

DoGrant ==
  /\ st = "run" /\ busy /\ Suspended(X)
  /\ \E a \in {S.gr[i] : i \in 1..Len(S.gr)} :
       LET ops == [i \in 1..Len(Starved(X)) |-> [o |-> "c", p |-> Starved(X)[i].p, c |-> "grant", a |-> a]]
           l == FoldLeft(LAMBDA acc, op : LET t == Apply(acc.w, op) IN [w |-> t.w, h |-> Note(acc.h, op, t)],
                         [w |-> w, h |-> h], ops)
       IN  w' = l.w /\ h' = l.h
  /\ UNCHANGED <<sc, k, busy, out, room, outs, bud, st>>

Enc ==
  /\ st = "run" /\ busy
  /\ \E cap \in {S.caps[i] : i \in 1..Len(S.caps)} \cup (IF room >= 0 THEN {room} ELSE {}) :
     /\ room >= 0 => cap <= room
     /\ \E q \in {UNK} \cup (IF room >= 0 THEN {room - cap} ELSE {}) :
       LET op == [o |-> "e", c |-> cap, q |-> q]
           r == Apply(w, op)
           x1 == r.w.x
           costs == (cap = 0 /\ ~(room = 0 /\ q = 0)) \/ Suspended(X)
           o == IF r.obs.e = "" THEN r.obs.b ELSE <<>>
       IN  /\ costs => bud > 0
           /\ bud' = IF costs THEN bud - 1 ELSE bud
           /\ UNCHANGED <<sc, k>>
           /\ IF r.obs.e # "" THEN room' = room /\ Over(r.w, Note(h, op, r), O("err", <<>>))
              ELSE /\ \* C02, C07: the buffer is filled, and the end of the stream is respected
                      Assert(Len(o) = cap \/ EIdle(x1) \/ Suspended(x1), <<"not filled", S.s, k, op, r.obs>>)
                   /\ Assert(q = 0 => EIdle(x1) \/ Suspended(x1), <<"no room", S.s, k, op, r.obs>>)
                   /\ room' = IF room >= 0 THEN room - Len(o) ELSE room
                   /\ IF EIdle(x1) THEN Over(r.w, Note(h, op, r), O("ok", out \o o))
                      ELSE /\ w' = r.w /\ h' = Note(h, op, r) /\ out' = out \o o
                           /\ UNCHANGED <<busy, outs, st>>

\* a start while an item is being encoded
Refuse ==
  /\ st = "run" /\ busy /\ bud > 0 /\ S.s.k # "last"
  /\ \E i \in {k, Min2(k + 1, Len(S.items))} :
       /\ exp[i].st # "none"
       /\ LET op == [o |-> "s", v |-> S.items[i]]
              r == Apply(w, op)
          IN  /\ Assert(r.obs.e # "", <<"accepted while busy", S.s, k, op>>)
              /\ w' = r.w /\ h' = Note(h, op, r)
  /\ bud' = bud - 1
  /\ UNCHANGED <<sc, k, busy, out, room, outs, st>>

\* a call to an idle encoder
Probe ==
  /\ st = "run" /\ ~busy /\ bud > 0
  /\ \E cap \in {0, 3} : \E q \in {UNK, 0} :
       LET op == [o |-> "e", c |-> cap, q |-> q]
           r == Apply(w, op)
       IN  /\ Assert(r.obs.e = "" /\ r.obs.b = <<>>, <<"an idle encoder writes", S.s, r.obs>>)
           /\ w' = r.w /\ h' = Note(h, op, r)
  /\ bud' = bud - 1
  /\ UNCHANGED <<sc, k, busy, out, room, outs, st>>

Act(A, name) == A /\ act' = name /\ exp' = exp
Over1 == (st = "done" \/ Len(S.items) = 0) /\ UNCHANGED vars
Next == \/ Act(Start, "start") \/ Act(Into, "into") \/ Act(DoGrant, "grant") \/ Act(Enc, "enc")
        \/ Act(Refuse, "refuse") \/ Act(Probe, "probe") \/ Over1
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* C02, C07, C08, C09, C11-C16: every item ends as it should, given the room before it
RoomBefore(i) ==
  IF room < 0 THEN -1
  ELSE room + Len(out) + FoldLeft(LAMBDA a, o : a + Len(o.b), 0, SubSeq(outs, i, Len(outs)))
Fits(m, r) == r < 0 \/ Len(m.b) <= r
Whole(m, r) == IF m.fill < 0 THEN m.b ELSE m.b \o Rep(m.fill, r - Len(m.b))
Right(i) ==
  LET m == exp[i]
      o == outs[i]
      r == RoomBefore(i)
  IN  CASE m.st = "any" -> TRUE
        [] m.st = "none" -> o = O("ok", <<>>)
        [] m.st = "sbad" -> o.st \in {"refused", "into"}
        [] m.st = "bad" -> o.st \in {"refused", "err", "into"}
        [] m.st = "ebad" -> o.st \in {"err", "into"}
        [] o.st = "into" -> m.fill >= 0
        [] OTHER -> IF Fits(m, r) THEN o = O("ok", Whole(m, r)) ELSE o.st = "err"
Open == \E j \in 1..Len(exp) : exp[j].st = "any"
\* (with encode_into_bytes nothing goes to the stream)
Faithful == (S.into = 0 \/ room < 0) /\ ~Open => \A i \in 1..Len(outs) : Right(i)
Growing ==
  busy /\ ~Open /\ exp[k].st = "ok" =>
    LET m == exp[k]
    IN  IF m.fill < 0 THEN IsPrefix(out, m.b)
        ELSE IsPrefix(out, m.b \o Rep(m.fill, Len(out)))

\* C05: announced sizes are exact
Truthful ==
  ~Open =>
    /\ (~busy /\ ~IsDead(X) /\ Idle => EReq(X) = 0 /\ (ESized(X) => EExact(X) = 0))
    /\ (busy /\ exp[k].st = "ok" /\ exp[k].fill < 0 =>
          LET left == Len(exp[k].b) - Len(out)
          IN  /\ IsFin(EReq(X)) => EReq(X) = left
              /\ ESized(X) => EExact(X) = left)

\* C04: idle between items, busy during them; refused items leave no trace
Ready == st = "run" => (busy <=> ~Idle)
RefusalIsHarmless == [][act' = "refuse" /\ st = "run" => X' = X]_vars
ProbeIsIgnored == [][act' = "probe" /\ st = "run" => X' = X]_vars
\* C10
Pays == [][(act' = "enc" /\ st = "run" /\ X.k = "slice" /\ X'.k = "slice" /\ k' = k /\ busy') => X'.g = X.g - (Len(out') - Len(out))]_vars
\* C08
Window == X.k = "length" /\ busy => Len(out) = X.exp - X.rem

---------------------------------------------------------------------------
LastOps == [i \in 1..Min2(DEPTH, Len(h)) |-> LET o == h[Len(h) + 1 - i] IN [o EXCEPT !.x = <<>>]]
View == <<sc, w, k, busy, out, room, outs, bud, st, LastOps>>

RECURSIVE Finish(_, _, _, _, _)
Finish(w1, kk, rm, fuel, o) ==
  IF fuel = 0 \/ IsDead(w1.x) THEN o
  ELSE LET idle == EIdle(w1.x)
           cap == IF rm >= 0 THEN Min2(40, rm) ELSE 40
           op == IF idle THEN [o |-> "s", v |-> S.items[kk + 1]]
                 ELSE IF Suspended(w1.x)
                      THEN [o |-> "c", p |-> Starved(w1.x)[1].p, c |-> "grant", a |-> 50]
                      ELSE [o |-> "e", c |-> cap, q |-> IF rm >= 0 THEN rm - cap ELSE UNK]
       IN  IF idle /\ (kk = Len(S.items) \/ S.s.k = "last") THEN o
           ELSE LET r == Apply(w1, op)
                    rm1 == IF rm >= 0 /\ op.o = "e" /\ r.obs.e = "" THEN rm - Len(r.obs.b) ELSE rm
                    o1 == Append(o, op @@ [x |-> r.obs])
                IN  Finish(r.w, IF idle THEN kk + 1 ELSE kk, rm1, fuel - 1, o1)

Emit == HIST /\ st = "run" /\ Len(S.items) > 0 => PrintT(ToJson([sc |-> sc,
                               ops |-> h' \o (IF st' = "run" THEN Finish(w', k', room', 8, <<>>) ELSE <<>>)]))
=============================================================================
