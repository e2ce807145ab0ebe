------------------------------ MODULE MCRound -------------------------------
(* C27: an encoder and a decoder connected by a channel.  Writing and       *)
(* reading proceed in steps of all sizes, in any order; the end of the      *)
(* stream is announced late, early or not at all.  A scenario (JSON):       *)
(*   s      <<[k "enc", s], [k "dec", s]>>                                  *)
(*   items  what is sent           want  what must be received              *)
(*   caps   sizes of the output buffers  ns  numbers of bytes offered       *)
EXTENDS World, IOUtils, Json

Scen == JsonDeserialize(IOEnv.SCEN)
HIST == IOEnv.HIST = "1"
DEPTH == atoi(IOEnv.DEPTH)

VARIABLES sc, w, sent, outs, h
vars == <<sc, w, sent, outs, h>>
S == Scen[sc]

Init == /\ sc \in 1..Len(Scen)
        /\ w = WInit("multi", Scen[sc].s)
        /\ sent = 0 /\ outs = <<>> /\ h = <<>>

On(i, op) == [o |-> "m", i |-> i, op |-> op]
Sealed(w1, sent1) == sent1 = Len(S.items) /\ EIdle(w1.ws[1].x)
Do(op) ==
  LET r == Apply(w, op)
  IN  /\ Assert(r.obs.e = "", <<"failure", S, h, op, r.obs>>)
      /\ w' = r.w /\ sc' = sc
      /\ h' = IF HIST THEN Append(h, op @@ [x |-> r.obs]) ELSE h

Start == /\ sent < Len(S.items) /\ EIdle(w.ws[1].x)
         /\ Do(On(1, [o |-> "s", v |-> S.items[sent + 1]]))
         /\ sent' = sent + 1 /\ outs' = outs
Write == /\ ~EIdle(w.ws[1].x)
         /\ \E c \in {S.caps[i] : i \in 1..Len(S.caps)} : Do(On(1, [o |-> "e", c |-> c, q |-> UNK]))
         /\ UNCHANGED <<sent, outs>>
Read == /\ ~DIdle(w.ws[2].x)
        /\ \E n \in {m \in {S.ns[i] : i \in 1..Len(S.ns)} : m <= Len(w.ch)} \cup {Len(w.ch)} :
           \E q \in {UNK} \cup (IF Sealed(w, sent) THEN {Len(w.ch) - n} ELSE {}) :
             /\ n > 0 \/ (q = 0 /\ w.ch = <<>>)
             /\ Do([o |-> "dch", i |-> 2, n |-> n, q |-> q])
        /\ UNCHANGED <<sent, outs>>
TakeItem == /\ DIdle(w.ws[2].x)
            /\ LET r == Apply(w, On(2, [o |-> "f"])) IN outs' = Append(outs, r.obs.v)
            /\ Do(On(2, [o |-> "f"]))
            /\ sent' = sent
Next == /\ Len(outs) < Len(S.want)
        /\ Start \/ Write \/ Read \/ TakeItem
Spec == Init /\ [][Next]_vars

Restored == outs = Take(S.want, Len(outs))

---------------------------------------------------------------------------
RECURSIVE Complete(_, _, _, _, _)
Complete(w1, sent1, outs1, fuel, acc) ==
  LET x == w1.ws[1].x   y == w1.ws[2].x
      busy == Len(outs1) < Len(S.want)
      op == CASE sent1 < Len(S.items) /\ EIdle(x) -> On(1, [o |-> "s", v |-> S.items[sent1 + 1]])
              [] ~EIdle(x) -> On(1, [o |-> "e", c |-> 9, q |-> UNK])
              [] busy /\ DIdle(y) -> On(2, [o |-> "f"])
              [] busy -> [o |-> "dch", i |-> 2, n |-> Len(w1.ch), q |-> 0]
              [] OTHER -> [o |-> "left"]
      r == Apply(w1, op)
      acc1 == Append(acc, op @@ [x |-> r.obs])
  IN  IF op.o = "left" \/ fuel = 0 \/ r.obs.e # ""
      THEN [h |-> acc1, ok |-> op.o = "left" /\ outs1 = S.want /\ w1.ch = <<>>]
      ELSE Complete(r.w, IF op.o = "m" /\ op.op.o = "s" THEN sent1 + 1 ELSE sent1,
                    IF op.o = "m" /\ op.op.o = "f" THEN Append(outs1, r.obs.v) ELSE outs1, fuel - 1, acc1)
\* from every state everything can be received, and nothing is left over
Emit == HIST =>
          LET l == Complete(w', sent', outs', 60 + 4 * Len(w'.ch), <<>>)
          IN  /\ Assert(l.ok, <<"not restored", S, h', l.h>>)
              /\ PrintT(ToJson([sc |-> sc, ops |-> h' \o l.h]))
LastOps == [i \in 1..Min2(DEPTH, Len(h)) |-> LET o == h[Len(h) + 1 - i] IN [o EXCEPT !.x = <<>>]]
View == <<sc, w, sent, outs, LastOps>>
=============================================================================
