------------------------------- MODULE Streams ------------------------------
(* Blocking helpers on readers and writers, the read and write buffers, the *)
(* buffered stream, and their poll-based counterparts.                      *)
(*                                                                          *)
(* A reader is [d, t]: the bytes still to come and a script of tokens, one  *)
(* per read call:                                                           *)
(*   k > 0  at most k bytes are delivered      0  end of stream (Ok(0))     *)
(*   -1     would-block (poll: pending)       -2  an error of kind Other    *)
(*   -3     an error of kind UnexpectedEof                                  *)
(* A writer is a script of tokens likewise (k: at most k bytes accepted).   *)
(* After its script a reader delivers whatever is asked for (end of stream  *)
(* when it has no bytes left) and a writer accepts everything, unless the   *)
(* world says that an exhausted script blocks (field `idle').               *)
EXTENDS Encoders

\* one read of at most `want' bytes: [e, o, rd]
ReadOnce(rd, want) ==
  LET tok == IF rd.t # <<>> THEN rd.t[1] ELSE IF rd.idle THEN -1 ELSE MAXC
      t1 == IF rd.t = <<>> THEN <<>> ELSE Tail(rd.t)
      o == IF tok > 0 THEN Take(rd.d, Min2(want, tok)) ELSE <<>>
  IN  [ e |-> CASE tok >= 0 -> "" [] tok = -1 -> "block" [] tok = -2 -> "Other" [] OTHER -> "UnexpectedEos",
        o |-> o,
        rd |-> [rd EXCEPT !.t = t1, !.d = Drop(@, Len(o))] ]

\* one write of the bytes b: [e, n, wr]
WriteOnce(wr, b) ==
  LET tok == IF wr.t # <<>> THEN wr.t[1] ELSE IF wr.idle THEN -1 ELSE MAXC
      t1 == IF wr.t = <<>> THEN <<>> ELSE Tail(wr.t)
      n == IF tok > 0 THEN Min2(tok, Len(b)) ELSE 0
  IN  [ e |-> CASE tok >= 0 -> "" [] tok = -1 -> "block" [] tok = -2 -> "Other" [] OTHER -> "UnexpectedEos",
        n |-> n,
        wr |-> [wr EXCEPT !.t = t1, !.got = @ \o Take(b, n)] ]

IoErr(e) == IF e = "block" THEN "Other" ELSE e

---------------------------------------------------------------------------
(* decode_exact, one round of its loop per step: [x, rd, e, v, st] with st *)
(* "go" while the loop continues.                                          *)
DXStep(x, rd) ==
  LET rq == DReq(x)
      size == IF IsFin(rq) THEN Min2(rq, HELPER) ELSE IF rq = INF THEN HELPER ELSE 1
      ro == IF size = 0 THEN [e |-> "", o |-> <<>>, rd |-> rd] ELSE ReadOnce(rd, size)
      eos == size # 0 /\ ro.o = <<>>
      fail(x1, e, soft) == [x |-> IF soft THEN x1 ELSE Dead, rd |-> ro.rd, e |-> e, v |-> NoV, st |-> "done"]
  IN  IF ro.e # "" THEN fail(x, IoErr(ro.e), TRUE)
      ELSE LET r == DD(x, ro.o, EosOf(eos))
           IN  IF r.e # "" THEN fail(r.x, r.e, r.soft)
               ELSE IF r.n # Len(ro.o) THEN fail(x, "InconsistentState", FALSE)
               ELSE IF DIdle(r.x)
                    THEN LET f == DF(r.x)
                         IN [x |-> f.x, rd |-> ro.rd, e |-> f.e, v |-> f.v, st |-> "done"]
               ELSE IF eos THEN fail(r.x, "UnexpectedEos", TRUE)
               ELSE IF size = 0 /\ DReq(r.x) = 0 THEN fail(r.x, "InconsistentState", TRUE)
               ELSE [x |-> r.x, rd |-> ro.rd, e |-> "", v |-> NoV, st |-> "go"]

RECURSIVE DExact(_, _)
DExact(x, rd) == LET r == DXStep(x, rd) IN IF r.st = "go" THEN DExact(r.x, r.rd) ELSE r

\* decode_from_bytes
DBytes(x, b) ==
  LET r == DD(x, b, 0)
  IN  IF r.e # "" THEN [x |-> r.x, e |-> r.e, v |-> NoV]
      ELSE IF r.n # Len(b) THEN [x |-> Dead, e |-> "InvalidInput", v |-> NoV]
      ELSE LET f == DF(r.x) IN [x |-> f.x, e |-> f.e, v |-> f.v]

---------------------------------------------------------------------------
(* encode_all: write everything through write_all.                         *)
RECURSIVE WriteAll(_, _)
WriteAll(wr, b) ==
  IF b = <<>> THEN [e |-> "", wr |-> wr]
  ELSE LET w == WriteOnce(wr, b)
       IN  IF w.e # "" THEN [e |-> IoErr(w.e), wr |-> w.wr]
           ELSE IF w.n = 0 THEN [e |-> "Other", wr |-> w.wr]
           ELSE WriteAll(w.wr, Drop(b, w.n))

\* one round of the loop
EAStep(x, wr) ==
  IF EIdle(x) THEN [x |-> x, wr |-> wr, e |-> "", st |-> "done"]
  ELSE LET r == EE(x, HELPER, UNK)
       IN  IF r.e # "" THEN [x |-> r.x, wr |-> wr, e |-> r.e, st |-> "done"]
           ELSE LET w == WriteAll(wr, r.o)
                IN  IF w.e # "" THEN [x |-> Dead, wr |-> w.wr, e |-> w.e, st |-> "done"]
                    ELSE IF ~EIdle(r.x) /\ r.o = <<>> THEN [x |-> r.x, wr |-> w.wr, e |-> "Other", st |-> "done"]
                    ELSE [x |-> r.x, wr |-> w.wr, e |-> "", st |-> "go"]
RECURSIVE EWrite(_, _)
EWrite(x, wr) == LET r == EAStep(x, wr) IN IF r.st = "go" THEN EWrite(r.x, r.wr) ELSE r

---------------------------------------------------------------------------
(* Buffers: [cap, head, b, st]: b are the bytes between head and tail.     *)
BufInit(cap) == [cap |-> cap, head |-> 0, b |-> <<>>, st |-> "Normal"]
BTail(u) == u.head + Len(u.b)
BRoom(u) == u.cap - BTail(u)
BEmpty(u) == u.b = <<>>
BFull(u) == BTail(u) = u.cap
BTake(u, n) == IF n = Len(u.b) THEN [u EXCEPT !.b = <<>>, !.head = 0]
               ELSE [u EXCEPT !.b = Drop(@, n), !.head = @ + n]
BPut(u, bs) == [u EXCEPT !.b = @ \o bs]

\* fill: [u, rd, e, pend]
RECURSIVE Fill(_, _)
Fill(u, rd) ==
  IF BFull(u) THEN [u |-> u, rd |-> rd, e |-> "", pend |-> FALSE]
  ELSE LET r == ReadOnce(rd, BRoom(u))
       IN  CASE r.e = "block" -> [u |-> [u EXCEPT !.st = "WouldBlock"], rd |-> r.rd, e |-> "", pend |-> TRUE]
             [] r.e # "" /\ r.e # "block" -> [u |-> [u EXCEPT !.st = "Error"], rd |-> r.rd, e |-> r.e, pend |-> FALSE]
             [] r.e = "" /\ r.o = <<>> -> [u |-> [u EXCEPT !.st = "Eos"], rd |-> r.rd, e |-> "", pend |-> FALSE]
             [] OTHER -> Fill([BPut(u, r.o) EXCEPT !.st = "Normal"], r.rd)

\* flush: [u, wr, e, pend]
RECURSIVE Flush(_, _)
Flush(u, wr) ==
  IF BEmpty(u) THEN [u |-> u, wr |-> wr, e |-> "", pend |-> FALSE]
  ELSE LET r == WriteOnce(wr, u.b)
       IN  CASE r.e = "block" -> [u |-> [u EXCEPT !.st = "WouldBlock"], wr |-> r.wr, e |-> "", pend |-> TRUE]
             [] r.e # "" /\ r.e # "block" -> [u |-> [u EXCEPT !.st = "Error"], wr |-> r.wr, e |-> r.e, pend |-> FALSE]
             [] r.e = "" /\ r.n = 0 -> [u |-> [u EXCEPT !.st = "Eos"], wr |-> r.wr, e |-> "", pend |-> FALSE]
             [] OTHER -> Flush([BTake(u, r.n) EXCEPT !.st = "Normal"], r.wr)
=============================================================================
