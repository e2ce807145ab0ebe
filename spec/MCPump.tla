------------------------------- MODULE MCPump -------------------------------
(* C21: an application that goes on calling I/O moves all bytes, when the   *)
(* stream goes on making progress.  One step is one round of its loop: I/O  *)
(* (blocking or polling), reading at most `chunk' bytes, writing what is    *)
(* left of its output.  A scenario (JSON):                                  *)
(*   s      the stream (decoder, encoder, capacities)                       *)
(*   sd, od the bytes to receive and to send                                *)
(*   rts, wts  what the stream may do in a round   io  "io" or "pio"        *)
(*   chunk, n  (n: rounds of every kind before the stream is only good)     *)
EXTENDS World, IOUtils, Json

Scen == JsonDeserialize(IOEnv.SCEN)
HIST == IOEnv.HIST = "1"
MORE == atoi(IOEnv.MORE)

VARIABLES sc, w, out, got, n, good, h
vars == <<sc, w, out, got, n, good, h>>
S == Scen[sc]
Good == <<1, -1>>

Start(i) == LET s == Scen[i] IN [WInit("io", s.s) EXCEPT !.rd.d = s.sd]
Init == /\ sc \in 1..Len(Scen)
        /\ w = Start(sc) /\ out = Scen[sc].od /\ got = <<>>
        /\ n = 0 /\ good = <<FALSE, FALSE>> /\ h = <<>>

\* one round: the world, what is left to send, what has been received, the calls with their results
Round(w0, out0, got0, rt, wt) ==
  LET o1 == [o |-> "src", d |-> <<>>, t |-> rt]          a1 == Apply(w0, o1)
      o2 == [o |-> "snk", t |-> wt]                      a2 == Apply(a1.w, o2)
      o3 == [o |-> S.io]                                 a3 == Apply(a2.w, o3)
      o4 == [o |-> "read", n |-> S.chunk]                a4 == Apply(a3.w, o4)
      o5 == [o |-> "write", b |-> out0]                  a5 == Apply(a4.w, o5)
  IN  [ w |-> a5.w, out |-> Drop(out0, a5.obs.n), got |-> got0 \o a4.obs.b,
        h |-> << o1 @@ [x |-> a1.obs], o2 @@ [x |-> a2.obs], o3 @@ [x |-> a3.obs], o4 @@ [x |-> a4.obs], o5 @@ [x |-> a5.obs] >> ]

Scripts(ts, t) == IF t = <<>> THEN {ts[i] : i \in 1..Len(ts)} ELSE {<<>>}
Step(rt, wt) ==
  LET r == Round(w, out, got, rt, wt)
  IN  /\ w' = r.w /\ out' = r.out /\ got' = r.got
      /\ h' = IF HIST THEN h \o r.h ELSE h
      /\ good' = <<rt = Good, wt = Good>>
Next == /\ sc' = sc
        /\ n' = IF HIST THEN n + 1 ELSE n
        /\ HIST => n < S.n + MORE
        /\ \E rt \in Scripts(S.rts, w.rd.t), wt \in Scripts(S.wts, w.wr.t) : Step(rt, wt)
\* the application goes on, and each direction of the stream makes progress again and again
Spec == Init /\ [][Next]_vars
Fair == WF_vars(Next) /\ SF_vars(Next /\ good'[1]) /\ SF_vars(Next /\ good'[2])
Live == Spec /\ Fair

---------------------------------------------------------------------------
Moved == /\ got = S.sd /\ w.rd.d = <<>> /\ w.r.b = <<>>
         /\ w.wr.got = S.od /\ out = <<>> /\ w.u.b = <<>>
\* nothing is lost, repeated or reordered on the way
Conserved == /\ S.sd = got \o w.r.b \o w.rd.d
             /\ S.od = w.wr.got \o w.u.b \o out
\* everything arrives
Arrives == <>[]Moved

---------------------------------------------------------------------------
\* After the rounds of every kind, good rounds only: everything arrives within as many rounds as there are bytes
RECURSIVE Pump(_, _, _, _, _)
Pump(w0, out0, got0, fuel, acc) ==
  IF fuel = 0 THEN [w |-> w0, out |-> out0, got |-> got0, h |-> acc]
  ELSE LET r == Round(w0, out0, got0, Good, Good)
       IN  Pump(r.w, r.out, r.got, fuel - 1, acc \o r.h)
\* (a script that is not used up yet comes first: 4 more rounds)
Fuel == 2 * (Len(S.sd) + Len(S.od)) + 6
Emit == HIST /\ n' = S.n + MORE =>
          LET l == Pump(w', out', got', Fuel, <<>>)
              first == [o |-> "src", d |-> S.sd, t |-> <<>>, x |-> [e |-> ""]]
          IN  /\ Assert(/\ l.got = S.sd /\ l.w.rd.d = <<>> /\ l.w.r.b = <<>>
                        /\ l.w.wr.got = S.od /\ l.out = <<>> /\ l.w.u.b = <<>>, <<"not moved", S, l.w, l.out, l.got>>)
              /\ PrintT(ToJson([sc |-> sc, ops |-> <<first>> \o h' \o l.h]))
View == <<sc, w, out, got, n, good>>
=============================================================================
