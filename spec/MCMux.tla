------------------------------- MODULE MCMux --------------------------------
(* C10: two sliced encoders share a channel, in frames of any granted size  *)
(* and in any order; the receiver grants each of its two sliced decoders    *)
(* what the frames hold.  The decoders are offered all that the channel     *)
(* holds, so that only the grants keep them apart.  A scenario (JSON):      *)
(*   s      encoder 1, encoder 2, decoder 1, decoder 2 (sliced)             *)
(*   items, want  of each pair          gr  grants                          *)
(*   caps   sizes of the output buffers       ahead  frames on the way      *)
EXTENDS World, IOUtils, Json

Scen == JsonDeserialize(IOEnv.SCEN)
HIST == IOEnv.HIST = "1"
DEPTH == atoi(IOEnv.DEPTH)

VARIABLES sc, w, sent, outs,
          fs,     \* frames on the way: <<pair, size>>; the first one may have been read in part
          cur,    \* the pair of the frame that is being received (0: none)
          h
vars == <<sc, w, sent, outs, fs, cur, h>>
S == Scen[sc]
X(i) == w.ws[i].x
On(i, op) == [o |-> "m", i |-> i, op |-> op]
Grant(i, a) == On(i, [o |-> "c", p |-> <<>>, c |-> "grant", a |-> a])
Bytes(w1, i) == [o |-> "dch", i |-> i + 2, n |-> Len(w1.ch), q |-> UNK]

Init == /\ sc \in 1..Len(Scen)
        /\ w = WInit("multi", Scen[sc].s)
        /\ sent = <<0, 0>> /\ outs = << <<>>, <<>> >> /\ fs = <<>> /\ cur = 0 /\ h = <<>>

Run(ops) ==
  FoldLeft(LAMBDA acc, op : LET r == Apply(acc.w, op)
                            IN  [w |-> r.w, obs |-> r.obs, h |-> Append(acc.h, op @@ [x |-> r.obs])],
           [w |-> w, obs |-> [e |-> ""], h |-> h], ops)
Do(l) == /\ Assert(l.obs.e = "", <<"failure", S, l.h>>)
         /\ w' = l.w /\ sc' = sc /\ h' = IF HIST THEN l.h ELSE h

\* a frame of an encoder: what it makes of a grant, in buffers that are larger than the grant or not
Send ==
  /\ Len(fs) < S.ahead
  /\ \E i \in 1..2 :
       /\ sent[i] < Len(S.items[i]) \/ ~EIdle(X(i))
       /\ \E g \in {S.gr[j] : j \in 1..Len(S.gr)}, c \in {S.caps[j] : j \in 1..Len(S.caps)} :
            LET st == IF EIdle(X(i)) THEN << On(i, [o |-> "s", v |-> S.items[i][sent[i] + 1]]) >> ELSE <<>>
                l == Run(st \o << Grant(i, g), On(i, [o |-> "e", c |-> c, q |-> UNK]) >>)
                k == Len(l.w.ch) - Len(w.ch)
            IN  /\ Do(l)
                /\ sent' = IF st = <<>> THEN sent ELSE [sent EXCEPT ![i] = @ + 1]
                /\ Assert(k <= g /\ l.w.ws[i].x.g = g - k, <<"not paid", S, l.h>>)
                /\ fs' = IF k = 0 THEN fs ELSE Append(fs, <<i, k>>)
  /\ UNCHANGED <<outs, cur>>

\* the next frame; an item that is complete is taken first
Accept ==
  /\ cur = 0 /\ fs # <<>>
  /\ cur' = fs[1][1]
  /\ Do(Run(<< Grant(fs[1][1] + 2, fs[1][2]) >>))
  /\ UNCHANGED <<sent, outs, fs>>
Receive ==
  /\ cur # 0
  /\ IF DIdle(X(cur + 2))
     THEN LET l == Run(<< On(cur + 2, [o |-> "f"]) >>)
          IN  /\ Do(l)
              /\ outs' = [outs EXCEPT ![cur] = Append(@, l.obs.v)]
              /\ UNCHANGED <<fs, cur>>
     ELSE LET l == Run(<< Bytes(w, cur) >>)
              k == Len(w.ch) - Len(l.w.ch)
          IN  /\ Do(l) /\ outs' = outs
              /\ fs' = IF k = fs[1][2] THEN Tail(fs) ELSE [fs EXCEPT ![1][2] = @ - k]
              /\ Assert(k <= fs[1][2], <<"too much", S, l.h>>)
              /\ cur' = IF k = fs[1][2] THEN 0 ELSE cur
  /\ sent' = sent
\* what is complete without further bytes
Ready ==
  /\ cur = 0
  /\ \E i \in 1..2 : /\ DIdle(X(i + 2)) /\ Len(outs[i]) < Len(S.want[i])
                     /\ LET l == Run(<< On(i + 2, [o |-> "f"]) >>)
                        IN  Do(l) /\ outs' = [outs EXCEPT ![i] = Append(@, l.obs.v)]
  /\ UNCHANGED <<sent, fs, cur>>

AllSent == sent = <<Len(S.items[1]), Len(S.items[2])>> /\ EIdle(X(1)) /\ EIdle(X(2))
Next == Send \/ Accept \/ Receive \/ Ready
Spec == Init /\ [][Next]_vars

Restored == \A i \in 1..2 : outs[i] = Take(S.want[i], Len(outs[i]))
Complete == (AllSent /\ fs = <<>> /\ ~ENABLED Ready) => outs = S.want /\ w.ch = <<>>
---------------------------------------------------------------------------
\* sending the rest and receiving everything: the same behaviour, without choice
RECURSIVE Rest(_, _, _, _, _, _, _)
Rest(w1, sent1, outs1, fs1, cur1, fuel, acc) ==
  LET x(i) == w1.ws[i].x
      Go(op) == Apply(w1, op)
      more(op, r, s2, o2, f2, c2) == Rest(r.w, s2, o2, f2, c2, fuel - 1, Append(acc, op @@ [x |-> r.obs]))
      idle(i) == DIdle(x(i + 2))
      s == {i \in 1..2 : ~EIdle(x(i))}
      t == {i \in 1..2 : EIdle(x(i)) /\ sent1[i] < Len(S.items[i])}
      z == {i \in 1..2 : idle(i) /\ Len(outs1[i]) < Len(S.want[i])}
  IN  IF fuel = 0 THEN [h |-> acc, ok |-> FALSE]
      ELSE IF cur1 # 0 /\ idle(cur1)
      THEN LET op == On(cur1 + 2, [o |-> "f"])  r == Go(op)
           IN  more(op, r, sent1, [outs1 EXCEPT ![cur1] = Append(@, r.obs.v)], fs1, cur1)
      ELSE IF cur1 # 0
      THEN LET op == Bytes(w1, cur1)  r == Go(op)  k == Len(w1.ch) - Len(r.w.ch)
           IN  IF k = fs1[1][2] THEN more(op, r, sent1, outs1, Tail(fs1), 0)
               ELSE more(op, r, sent1, outs1, [fs1 EXCEPT ![1][2] = @ - k], cur1)
      ELSE IF fs1 # <<>>
      THEN LET op == Grant(fs1[1][1] + 2, fs1[1][2]) IN more(op, Go(op), sent1, outs1, fs1, fs1[1][1])
      ELSE IF \E i \in s : x(i).g = 0
      THEN LET i == CHOOSE i \in s : x(i).g = 0  op == Grant(i, 50) IN more(op, Go(op), sent1, outs1, fs1, 0)
      ELSE IF s # {}
      THEN LET i == CHOOSE i \in s : TRUE  op == On(i, [o |-> "e", c |-> 60, q |-> UNK])  r == Go(op)  k == Len(r.w.ch) - Len(w1.ch)
           IN  more(op, r, sent1, outs1, IF k = 0 THEN fs1 ELSE Append(fs1, <<i, k>>), 0)
      ELSE IF t # {}
      THEN LET i == CHOOSE i \in t : TRUE  op == On(i, [o |-> "s", v |-> S.items[i][sent1[i] + 1]])
           IN  more(op, Go(op), [sent1 EXCEPT ![i] = @ + 1], outs1, fs1, 0)
      ELSE IF z # {}
      THEN LET i == CHOOSE i \in z : TRUE  op == On(i + 2, [o |-> "f"])  r == Go(op)
           IN  more(op, r, sent1, [outs1 EXCEPT ![i] = Append(@, r.obs.v)], fs1, 0)
      ELSE LET op == [o |-> "left"]  r == Go(op)
           IN  [h |-> Append(acc, op @@ [x |-> r.obs]), ok |-> outs1 = S.want /\ w1.ch = <<>>]
Emit == HIST =>
          LET l == Rest(w', sent', outs', fs', cur', 200, <<>>)
          IN  /\ Assert(l.ok, <<"not restored", S, h', l.h>>)
              /\ PrintT(ToJson([sc |-> sc, ops |-> h' \o l.h]))
LastOps == [i \in 1..Min2(DEPTH, Len(h)) |-> LET o == h[Len(h) + 1 - i] IN [o EXCEPT !.x = <<>>]]
View == <<sc, w, sent, outs, fs, cur, LastOps>>
=============================================================================
