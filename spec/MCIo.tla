-------------------------------- MODULE MCIo --------------------------------
(* A buffered stream between an application and a peer, in every order of   *)
(* public calls and under every behaviour of the stream.  A scenario (JSON) *)
(*   s      [dec, enc, rcap, wcap]      ops  the calls of the application   *)
(*   rts    scripts the source may follow next                              *)
(*   sd     the bytes the source will deliver                               *)
(*   wts    scripts the sink may follow next                                *)
(*   vs     the items to encode          ws  the chunks to write            *)
(*   rb, wb, pb   how many scripts (source, sink) and items or chunks       *)
(*   gb     how many settings of the stream states by the application       *)
EXTENDS World, IOUtils, Json

Scen == JsonDeserialize(IOEnv.SCEN)
HIST == IOEnv.HIST = "1"
DEPTH == atoi(IOEnv.DEPTH)
MORE == atoi(IOEnv.MORE)

VARIABLES sc, w,
          src, taken, put,     \* ghosts: bytes the source had, bytes taken out, bytes put in
          rb, wb, pb, gb,      \* budgets
          op, obs, h
vars == <<sc, w, src, taken, put, rb, wb, pb, gb, op, obs, h>>
S == Scen[sc]

Init == /\ sc \in 1..Len(Scen)
        /\ w = WInit("io", Scen[sc].s)
        /\ src = <<>> /\ taken = <<>> /\ put = <<>>
        /\ rb = Scen[sc].rb /\ wb = Scen[sc].wb /\ pb = Scen[sc].pb /\ gb = Scen[sc].gb
        /\ op = [o |-> "none"] /\ obs = [e |-> ""] /\ h = <<>>

DeadNow(o) == (o \in {"dec", "fin"} /\ IsDead(w.x)) \/ (o \in {"start", "enc", "enca"} /\ IsDead(w.y))

Do(p) ==
  LET r == Apply(w, p)
  IN  /\ ~DeadNow(p.o)
      /\ w' = r.w /\ op' = p /\ obs' = r.obs /\ sc' = sc
      /\ h' = IF HIST THEN Append(h, p) ELSE h
      /\ src' = IF p.o = "src" THEN src \o p.d ELSE src
      /\ taken' = IF p.o \in {"read", "dec"}
                  THEN taken \o Take(w.r.b, Len(w.r.b) - Len(r.w.r.b)) ELSE taken
      /\ put' = IF p.o \in {"write", "enc", "enca"} THEN put \o Drop(r.w.u.b, Len(w.u.b)) ELSE put

Calls == \E i \in 1..Len(S.ops) : Do(S.ops[i]) /\ UNCHANGED <<rb, wb, pb, gb>>
Source == /\ rb > 0 /\ w.rd.t = <<>>
          /\ \E i \in 1..Len(S.rts) :
               \E n \in {0, Len(S.sd) - Len(src)} :
                 Do([o |-> "src", d |-> SubSeq(S.sd, Len(src) + 1, Len(src) + n), t |-> S.rts[i]])
          /\ rb' = rb - 1 /\ UNCHANGED <<wb, pb, gb>>
Sink == /\ wb > 0 /\ w.wr.t = <<>>
        /\ \E i \in 1..Len(S.wts) : Do([o |-> "snk", t |-> S.wts[i]])
        /\ wb' = wb - 1 /\ UNCHANGED <<rb, pb, gb>>
Items == /\ pb > 0
         /\ \/ \E i \in 1..Len(S.vs) : Do([o |-> "start", v |-> S.vs[i]])
            \/ \E i \in 1..Len(S.ws) : Do([o |-> "write", b |-> S.ws[i]])
         /\ pb' = pb - 1 /\ UNCHANGED <<rb, wb, gb>>
Settings == /\ gb > 0
            /\ \E st \in {"Normal", "WouldBlock", "Eos"} : \E o \in {"rst", "wst"} : Do([o |-> o, s |-> st])
            /\ gb' = gb - 1 /\ UNCHANGED <<rb, wb, pb>>
Next == Calls \/ Source \/ Sink \/ Items \/ Settings
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* C19, C20: in order, complete, once
ReadOrder == src = taken \o w.r.b \o w.rd.d
WriteOrder == put = w.wr.got \o w.u.b
\* C19, C20: the reports agree with the content
Buffer(u, l, rm, em, fl, c) ==
  /\ l = Len(u.b) /\ c = u.cap /\ l + rm <= c
  /\ em = (l = 0) /\ fl = (rm = 0)
  /\ em => rm = c
Reports ==
  "rl" \in DOMAIN obs =>
    /\ Buffer(w.r, obs.rl, obs.rr, obs.re, obs.rf, obs.rc)
    /\ Buffer(w.u, obs.wl, obs.wr, obs.we, obs.wf, obs.wc)
    /\ obs.rs = w.r.st /\ obs.ws = w.u.st
    \* C21
    /\ obs.eos = (w.r.st = "Eos" \/ w.u.st = "Eos")
    /\ obs.wb = (w.r.st = "WouldBlock" /\ (w.u.b = <<>> \/ w.u.st = "WouldBlock"))

\* C19: the state of the read buffer is that of the last operation on the source
Reads == {"fill", "pfill", "io", "pio"}
Writes == {"flush", "pflush", "io", "pio"}
LastRead ==
  [][op' # op /\ op'.o \in Reads =>
       LET n == Len(w.rd.t) - Len(w'.rd.t)                  \* tokens used
           used == Take(w.rd.t, n)
           asked == ~BFull(w.r)
       IN  /\ ~asked => w'.r = w.r /\ w'.rd = w.rd
           /\ asked => CASE BFull(w'.r) -> w'.r.st = "Normal"
                         [] n = 0 -> w'.r.st = "WouldBlock"
                         [] used[n] = -1 -> w'.r.st = "WouldBlock"
                         [] used[n] < -1 -> w'.r.st = "Error"
                         [] used[n] = 0 -> w'.r.st = "Eos"
                         [] OTHER -> w'.r.st \in (IF w'.rd.t # <<>> THEN {"Eos"}
                                                  ELSE IF w'.rd.d # <<>> THEN {"WouldBlock"}
                                                  ELSE {"Eos", "WouldBlock"})]_vars
LastWrite ==
  [][op' # op /\ op'.o \in Writes =>
       LET n == Len(w.wr.t) - Len(w'.wr.t)
           used == Take(w.wr.t, n)
           skipped == op'.o = "io" /\ obs'.e # "" /\ w'.u = w.u
       IN  skipped \/ (CASE BEmpty(w.u) -> w'.u = w.u /\ w'.wr = w.wr
                         [] ~BEmpty(w.u) /\ BEmpty(w'.u) -> w'.u.st = "Normal"
                         [] ~BEmpty(w.u) /\ ~BEmpty(w'.u) /\ n = 0 -> w'.u.st = "WouldBlock"
                         [] OTHER -> w'.u.st \in (CASE used[n] = -1 -> {"WouldBlock"} [] used[n] < -1 -> {"Error"}
                                                    [] used[n] = 0 -> {"Eos"} [] OTHER -> {"WouldBlock"}))]_vars
\* C21: a failure of either direction is reported, and costs no byte (ReadOrder, WriteOrder)
Failures ==
  [][op' # op /\ op'.o \in {"io", "pio"} =>
       LET bad(t, t2) == LET n == Len(t) - Len(t2) IN n > 0 /\ t[n] < -1
       IN  (obs'.e # "") = (bad(w.rd.t, w'.rd.t) \/ bad(w.wr.t, w'.wr.t))]_vars
\* C22: pending only while the stream is
Pending ==
  [][op' # op /\ "pd" \in DOMAIN obs' /\ obs'.pd = 1 =>
       /\ obs'.e = ""
       /\ op'.o \in {"pfill", "pio"} => w'.r.st = "WouldBlock"
       /\ op'.o \in {"pflush", "pio"} => w'.u.st = "WouldBlock"]_vars
\* C22: nobody waits for room that is there
NoLostWakeUp == w.waiting # 0 => BFull(w.u)
\* C22: who was told to wait is woken
Woken == [][op' # op =>
              /\ op'.o = "src" /\ w.prd # 0 => "wk" \in DOMAIN obs' /\ obs'.wk = w.prd
              /\ op'.o = "snk" /\ w.pwr # 0 => "wk" \in DOMAIN obs' /\ obs'.wk = w.pwr
              /\ w.waiting # 0 /\ op'.o \notin {"enca", "renew"} /\ w'.waiting = 0 => "wk" \in DOMAIN obs' /\ obs'.wk = w.waiting
              /\ op'.o = "pfill" => w'.prd = obs'.pd * Task(op')
              /\ op'.o = "pflush" => w'.pwr = obs'.pd * Task(op')]_vars
\* C19: the decoder hears of the end exactly when the source has ended (the state is Eos)
\* (specified in ApplyIo: EosOf(st = "Eos"))

---------------------------------------------------------------------------
LastOps == [i \in 1..Min2(DEPTH, Len(h)) |-> LET o == h[Len(h) + 1 - i] IN o]
View == <<sc, [w EXCEPT !.wr.got = <<>>], rb, wb, pb, gb, LastOps>>
\* what is left comes out
Rest == << [o |-> "read", n |-> 100], [o |-> "src", d |-> <<91, 92, 93>>, t |-> <<1, 100, 0>>], [o |-> "snk", t |-> <<1, 100>>],
           [o |-> "pio"], [o |-> "dec"], [o |-> "read", n |-> 100], [o |-> "snk", t |-> <<100>>], [o |-> "enca"], [o |-> "pflush"],
           [o |-> "snk", t |-> <<100>>], [o |-> "flush"], [o |-> "io"], [o |-> "read", n |-> 100], [o |-> "io"] >>
\* (the results of the earlier calls were shown when the states on the way were reached)
NoX == [z |-> 0]
Before == [i \in 1..Len(h) |-> h[i] @@ [x |-> NoX]]
Whole ==
  FoldLeft(LAMBDA acc, t :
             IF (t.o = "dec" /\ IsDead(acc.w.x)) \/ (t.o = "enca" /\ IsDead(acc.w.y)) THEN acc
             ELSE LET r == Apply(acc.w, t) IN [w |-> r.w, h |-> Append(acc.h, t @@ [x |-> r.obs])],
           [w |-> w', h |-> Append(Before, op' @@ [x |-> obs'])], Rest)
Emit == HIST => PrintT(ToJson([sc |-> sc, ops |-> Whole.h]))
=============================================================================
