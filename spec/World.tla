-------------------------------- MODULE World -------------------------------
(* A session is a sequence of public calls on one object.  Apply(w, op)     *)
(* gives the world after the call and everything a caller can observe.      *)
(*                                                                          *)
(* Kinds of sessions:                                                       *)
(*   dec   a decoder and a reader        enc   an encoder and a writer      *)
(*   io    a buffered stream with a decoder and an encoder attached         *)
(*         (waiting: a task waits for room in the write buffer; prd, pwr: a *)
(*         task that was told to wait for the stream)                       *)
(*   alg   byte counts and end-of-stream distances                          *)
(*   tag   a tag-dispatching decoder behind a box or a reference            *)
(*   multi encoders and decoders (dec, enc) and a channel between them      *)
EXTENDS Streams, Counts, TLC

Rd0 == [d |-> <<>>, t |-> <<>>, idle |-> FALSE]
Wr0 == [got |-> <<>>, t |-> <<>>, idle |-> FALSE]

WInit(kind, s) ==
  CASE kind = "dec" -> [k |-> "dec", x |-> DInit(s), rd |-> Rd0]
    [] kind = "enc" -> [k |-> "enc", x |-> EInit(s), wr |-> Wr0]
    [] kind = "io"  -> [k |-> "io", x |-> DInit(s.dec), y |-> EInit(s.enc),
                        r |-> BufInit(s.rcap), u |-> BufInit(s.wcap),
                        rd |-> [Rd0 EXCEPT !.idle = TRUE], wr |-> [Wr0 EXCEPT !.idle = TRUE],
                        waiting |-> 0, prd |-> 0, pwr |-> 0]
    [] kind = "alg" -> [k |-> "alg"]
    [] kind = "tag" -> [k |-> "tag", cur |-> -1, in |-> DInit([k |-> "fix", ty |-> "u8"])]
    [] kind = "multi" -> [ k |-> "multi", ch |-> <<>>,
                           ws |-> [i \in 1..Len(s) |-> IF s[i].k = "dec" THEN [k |-> "dec", x |-> DInit(s[i].s), rd |-> Rd0]
                                                       ELSE [k |-> "enc", x |-> EInit(s[i].s), wr |-> Wr0]] ]

\* Observations.  e: "" or the error kind; the other fields are present only
\* when they are specified (not after an unspecified error).
DSee(x) == IF IsDead(x) THEN [dead |-> 1] ELSE [i |-> DIdle(x), r |-> DReq(x), a |-> DAcc(x)]
ESee(x) == IF IsDead(x) THEN [dead |-> 1]
           ELSE [i |-> EIdle(x), r |-> EReq(x), a |-> EAcc(x)]
                @@ (IF ESized(x) THEN [x |-> EExact(x)] ELSE [i |-> EIdle(x)])
IfOk(e, f) == IF e = "" THEN f ELSE [dead |-> 0]

\* taking a codec apart: the inner codec (part i of a sequence), as it is
Part(x, i) == IF x.k = "tuple" THEN x.ps[i] ELSE x.in

ApplyDec(w, op) ==
  CASE op.o = "d" -> LET r == DD(w.x, op.b, op.q)
                     IN [w |-> [w EXCEPT !.x = r.x], obs |-> [e |-> r.e] @@ IfOk(r.e, [n |-> r.n]) @@ DSee(r.x)]
    [] op.o = "f" -> LET r == DF(w.x)
                     IN [w |-> [w EXCEPT !.x = r.x], obs |-> [e |-> r.e] @@ IfOk(r.e, [v |-> r.v]) @@ DSee(r.x)]
    [] op.o = "c" -> LET r == DCtl(w.x, op.p, op.c, op.a)
                     IN [w |-> [w EXCEPT !.x = r.x], obs |-> [e |-> r.e] @@ IfOk(r.e, [v |-> r.v]) @@ DSee(r.x)]
    [] op.o = "in" -> LET x1 == Part(w.x, op.a) IN [w |-> [w EXCEPT !.x = x1], obs |-> [e |-> ""] @@ DSee(x1)]
    [] op.o = "src" -> [w |-> [w EXCEPT !.rd = [d |-> op.d, t |-> op.t, idle |-> FALSE]], obs |-> [e |-> ""]]
    [] op.o = "dx" -> LET r == DExact(w.x, w.rd)
                      IN [w |-> [w EXCEPT !.x = r.x, !.rd = r.rd],
                          obs |-> [e |-> r.e] @@ IfOk(r.e, [v |-> r.v, left |-> Len(r.rd.d)]) @@ DSee(r.x)]
    [] op.o = "db" -> LET r == DBytes(w.x, op.b)
                      IN [w |-> [w EXCEPT !.x = r.x], obs |-> [e |-> r.e] @@ IfOk(r.e, [v |-> r.v]) @@ DSee(r.x)]

ApplyEnc(w, op) ==
  CASE op.o = "s" -> LET r == ES(w.x, op.v)
                     IN [w |-> [w EXCEPT !.x = r.x], obs |-> [e |-> r.e] @@ ESee(r.x)]
    [] op.o = "e" -> LET r == EE(w.x, op.c, op.q)
                     IN [w |-> [w EXCEPT !.x = r.x], obs |-> [e |-> r.e] @@ IfOk(r.e, [b |-> r.o]) @@ ESee(r.x)]
    [] op.o = "c" -> LET r == ECtl(w.x, op.p, op.c, op.a)
                     IN [w |-> [w EXCEPT !.x = r.x], obs |-> [e |-> r.e] @@ ESee(r.x)]
    [] op.o = "in" -> LET x1 == Part(w.x, op.a) IN [w |-> [w EXCEPT !.x = x1], obs |-> [e |-> ""] @@ ESee(x1)]
    [] op.o = "snk" -> [w |-> [w EXCEPT !.wr = [got |-> <<>>, t |-> op.t, idle |-> FALSE]], obs |-> [e |-> ""]]
    [] op.o = "ea" -> LET r == EWrite(w.x, [w.wr EXCEPT !.got = <<>>])
                      IN [w |-> [w EXCEPT !.x = r.x, !.wr = r.wr],
                          obs |-> [e |-> r.e] @@ IfOk(r.e, [b |-> r.wr.got]) @@ ESee(r.x)]
    [] op.o = "ei" -> LET r == EInto(w.x, op.v)
                      IN [w |-> [w EXCEPT !.x = r.x], obs |-> [e |-> r.e] @@ IfOk(r.e, [b |-> r.o]) @@ ESee(r.x)]

IoSee(w) ==
  [ rl |-> Len(w.r.b), rr |-> BRoom(w.r), re |-> BEmpty(w.r), rf |-> BFull(w.r), rs |-> w.r.st, rc |-> w.r.cap,
    wl |-> Len(w.u.b), wr |-> BRoom(w.u), we |-> BEmpty(w.u), wf |-> BFull(w.u), ws |-> w.u.st, wc |-> w.u.cap,
    eos |-> w.r.st = "Eos" \/ w.u.st = "Eos",
    wb |-> w.r.st = "WouldBlock" /\ (BEmpty(w.u) \/ w.u.st = "WouldBlock"),
    a |-> <<1, w.r.cap, w.r.cap, w.u.cap, w.u.cap>>,   \* the stream and the buffers are those given
    got |-> w.wr.got, left |-> Len(w.rd.d), rt |-> Len(w.rd.t), wt |-> Len(w.wr.t) ]

\* a task that waits for room in the write buffer must be woken when there is room
\* (tasks are numbered; 0: no task.  Task k makes a polling call: field k of the call, 1 if there is none)
Task(op) == IF "k" \in DOMAIN op THEN op.k ELSE 1
Wake(w0, w1) == IF w0.waiting # 0 /\ ~BFull(w1.u)
                THEN [w |-> [w1 EXCEPT !.waiting = 0], wk |-> w0.waiting]
                ELSE [w |-> w1, wk |-> 0]
Pend(p) == IF p THEN 1 ELSE 0

IoOut(w1, wk, obs) == [w |-> w1, obs |-> obs @@ (IF wk # 0 THEN [wk |-> wk] ELSE [e |-> ""]) @@ IoSee(w1)]

ApplyIo(w, op) ==
  CASE op.o = "src" -> LET w1 == [w EXCEPT !.rd = [d |-> w.rd.d \o op.d, t |-> w.rd.t \o op.t, idle |-> TRUE]]
                       IN IoOut([w1 EXCEPT !.prd = 0], w.prd, [e |-> ""])
    [] op.o = "snk" -> LET w1 == [w EXCEPT !.wr.t = @ \o op.t]
                       IN IoOut([w1 EXCEPT !.pwr = 0], w.pwr, [e |-> ""])
    [] op.o \in {"fill", "pfill"} ->
         LET f == Fill(w.r, w.rd)
             w1 == [w EXCEPT !.r = f.u, !.rd = f.rd, !.prd = IF op.o = "pfill" THEN Pend(f.pend) * Task(op) ELSE @]
         IN  IoOut(w1, 0, [e |-> f.e] @@ (IF op.o = "pfill" THEN [pd |-> Pend(f.pend)] ELSE [e |-> f.e]))
    [] op.o \in {"flush", "pflush"} ->
         LET f == Flush(w.u, w.wr)
             k == Wake(w, [w EXCEPT !.u = f.u, !.wr = f.wr, !.pwr = IF op.o = "pflush" THEN Pend(f.pend) * Task(op) ELSE @])
         IN  IoOut(k.w, k.wk, [e |-> f.e] @@ (IF op.o = "pflush" THEN [pd |-> Pend(f.pend)] ELSE [e |-> f.e]))
    [] op.o = "io" ->
         LET f == Fill(w.r, w.rd)
             w1 == [w EXCEPT !.r = f.u, !.rd = f.rd]
         IN  IF f.e # "" THEN IoOut(w1, 0, [e |-> f.e])
             ELSE LET g == Flush(w.u, w.wr)
                      k == Wake(w, [w1 EXCEPT !.u = g.u, !.wr = g.wr])
                  IN  IoOut(k.w, k.wk, [e |-> g.e])
    [] op.o = "pio" ->
         LET f == Fill(w.r, w.rd)
             g == Flush(w.u, w.wr)
             both == Pend(f.pend /\ g.pend) * Task(op)
             k == Wake(w, [w EXCEPT !.r = f.u, !.rd = f.rd, !.u = g.u, !.wr = g.wr, !.prd = both, !.pwr = both])
         IN  IoOut(k.w, k.wk, [e |-> IF f.e # "" THEN f.e ELSE g.e, pd |-> Pend(f.pend /\ g.pend)])
    [] op.o = "read" ->
         LET o == Take(w.r.b, op.n)
             w1 == [w EXCEPT !.r = BTake(@, Len(o))]
         IN  IoOut(w1, 0, [e |-> "", b |-> o])
    [] op.o = "write" ->
         LET n == Min2(Len(op.b), BRoom(w.u))
             w1 == [w EXCEPT !.u = BPut(@, Take(op.b, n))]
         IN  IoOut(w1, 0, [e |-> "", n |-> n])
    [] op.o = "renew" ->      \* into_stream, and a new buffered stream of the same capacities around it
         IoOut([w EXCEPT !.r = BufInit(w.r.cap), !.u = BufInit(w.u.cap), !.waiting = 0], 0, [e |-> ""])
    [] op.o = "rst" -> IoOut([w EXCEPT !.r.st = op.s], 0, [e |-> ""])      \* stream_state_mut
    [] op.o = "wst" -> IoOut([w EXCEPT !.u.st = op.s], 0, [e |-> ""])
    [] op.o = "dec" ->
         LET r == DD(w.x, w.r.b, EosOf(w.r.st = "Eos"))
             w1 == [w EXCEPT !.x = r.x, !.r = IF r.e = "" THEN BTake(@, r.n) ELSE @]
         IN  IoOut(w1, 0, [e |-> r.e] @@ (IF IsDead(r.x) THEN [e |-> r.e] ELSE [i |-> DIdle(r.x)]))
    [] op.o = "fin" ->
         LET r == DF(w.x)
             w1 == [w EXCEPT !.x = r.x]
         IN  IoOut(w1, 0, [e |-> r.e] @@ IfOk(r.e, [v |-> r.v]))
    [] op.o = "start" ->
         LET r == ES(w.y, op.v)
             w1 == [w EXCEPT !.y = r.x]
         IN  IoOut(w1, 0, [e |-> r.e])
    [] op.o \in {"enc", "enca"} ->
         LET r == EE(w.y, BRoom(w.u), EosOf(w.u.st = "Eos"))
             w1 == [w EXCEPT !.y = r.x, !.u = IF r.e = "" THEN BPut(@, r.o) ELSE @]
             w2 == IF op.o = "enca" /\ r.e = ""
                   THEN [w1 EXCEPT !.waiting = Pend(~EIdle(r.x) /\ BFull(w1.u)) * Task(op)] ELSE w1
         IN  IoOut(w2, 0, [e |-> r.e] @@ (IF IsDead(r.x) THEN [e |-> r.e] ELSE [i |-> EIdle(r.x)]))

\* byte counts and distances (counts as in Counts): pure functions
ApplyAlg(w, op) ==
  [ w |-> w,
    obs |-> [e |-> ""] @@ (
            CASE op.o = "adddec" -> [n |-> CAddDec(op.a, op.b)]
              [] op.o = "addenc" -> [n |-> CAddEnc(op.a, op.b)]
              [] op.o \in {"cmp", "eoscmp"} -> [s |-> CCmp(op.a, op.b)]
              [] op.o = "eq" -> [n |-> IF op.a = op.b THEN 1 ELSE 0]
              [] op.o = "hash" -> IF op.a = op.b THEN [n |-> 1] ELSE [e |-> ""]     \* equal counts have equal hashes
              [] op.o = "is" -> [a |-> << IF CFin(op.a) THEN 1 ELSE 0, IF op.a = CInf THEN 1 ELSE 0,
                                          IF op.a = CUnk THEN 1 ELSE 0, IF CFin(op.a) THEN op.a ELSE <<>> >>]
              [] op.o = "eosis" -> [n |-> op.a, i |-> CReached(op.a)]
              [] op.o = "back" -> [n |-> CBack(op.a, op.b), i |-> CReached(CBack(op.a, op.b))]
              [] op.o = "eosnew" -> [n |-> IF op.a = <<1>> THEN C0 ELSE CUnk, i |-> op.a = <<1>>]
              [] op.o = "default" -> [n |-> CUnk]) ]

\* a decoder of one-byte items for tags 0..9; tag 255 is unknown
ApplyTag(w, op) ==
  CASE op.o = "start" ->
         IF w.cur >= 0 THEN [w |-> w, obs |-> [e |-> "IncompleteDecoding"]]
         ELSE IF op.a = 255 THEN [w |-> w, obs |-> [e |-> "InvalidInput"]]
         ELSE [w |-> [w EXCEPT !.cur = op.a], obs |-> [e |-> ""]]
    [] op.o = "try" ->
         IF w.cur >= 0 THEN [w |-> w, obs |-> [e |-> "IncompleteDecoding"]]
         ELSE IF op.a = 255 THEN [w |-> w, obs |-> [e |-> "", n |-> 0]]
         ELSE [w |-> [w EXCEPT !.cur = op.a], obs |-> [e |-> "", n |-> 1]]
    [] op.o = "d" ->
         LET r == DD(w.in, op.b, op.q)
         IN  [w |-> [w EXCEPT !.in = r.x], obs |-> [e |-> r.e] @@ IfOk(r.e, [n |-> r.n]) @@ DSee(r.x)]
    [] op.o = "f" ->
         LET r == DF(w.in)
         IN  [w |-> [w EXCEPT !.in = r.x, !.cur = IF r.e = "" THEN -1 ELSE @],
              obs |-> [e |-> r.e] @@ IfOk(r.e, [v |-> VT(<<VB(<<Max2(w.cur, 0)>>), r.v>>)]) @@ DSee(r.x)]

\* Encoders write into the channel; decoders are offered bytes from its front, and remove what they consume.
\*   m    a call on object i           dch  decode the first n bytes of the channel with object i
\*   left the number of bytes in the channel
ApplyMulti(w, op) ==
  CASE op.o = "m" ->
         LET r == IF w.ws[op.i].k = "dec" THEN ApplyDec(w.ws[op.i], op.op) ELSE ApplyEnc(w.ws[op.i], op.op)
         IN  [w |-> [w EXCEPT !.ws[op.i] = r.w, !.ch = IF "b" \in DOMAIN r.obs THEN @ \o r.obs.b ELSE @], obs |-> r.obs]
    [] op.o = "dch" ->
         LET r == ApplyDec(w.ws[op.i], [o |-> "d", b |-> Take(w.ch, op.n), q |-> op.q])
         IN  [w |-> [w EXCEPT !.ws[op.i] = r.w, !.ch = IF "n" \in DOMAIN r.obs THEN Drop(@, r.obs.n) ELSE @], obs |-> r.obs]
    [] op.o = "left" -> [w |-> w, obs |-> [e |-> "", left |-> Len(w.ch)]]

WDead(w) == CASE w.k \in {"dec", "enc"} -> IsDead(w.x)
              [] w.k = "io" -> IsDead(w.x) \/ IsDead(w.y)
              [] w.k = "tag" -> IsDead(w.in)
              [] w.k = "multi" -> \E i \in 1..Len(w.ws) : IsDead(w.ws[i].x)
              [] OTHER -> FALSE

Apply(w, op) ==
  CASE w.k = "dec" -> ApplyDec(w, op)
    [] w.k = "enc" -> ApplyEnc(w, op)
    [] w.k = "io" -> ApplyIo(w, op)
    [] w.k = "alg" -> ApplyAlg(w, op)
    [] w.k = "tag" -> ApplyTag(w, op)
    [] w.k = "multi" -> ApplyMulti(w, op)

---------------------------------------------------------------------------
(* Agreement of an observation `got' of the implementation with the        *)
(* specified one, on the fields F that a property speaks about.            *)
(* "E" stands for: the call fails or not, whatever the error kind.         *)
Disagreement(spec, got, F) ==
  IF "e" \in DOMAIN got /\ got.e \in {"panic", "alloc"} THEN got.e
  ELSE IF "E" \in F /\ "e" \in DOMAIN spec /\ (got.e = "") # (spec.e = "") THEN "E"
  ELSE IF "wk" \in F /\ "wk" \in DOMAIN spec /\ got.wk[spec.wk] < 1 THEN "wk"
  ELSE LET bad == {f \in (F \cap DOMAIN spec) \ {"dead", "wk"} : ~(f \in DOMAIN got /\ got[f] = spec[f])}
       IN  IF bad = {} THEN "" ELSE CHOOSE f \in bad : TRUE
=============================================================================
