------------------------------- MODULE MCAny --------------------------------
(* Every order of public calls on one object.  A scenario (JSON) is         *)
(*   k, s   the kind of session and the object                              *)
(*   ops    the calls to choose from       tail  calls made at the end, to  *)
(*   n      number of calls                      show what state is left    *)
(* Nothing is assumed about the caller, and the properties are those that   *)
(* do not depend on what it wants.                                          *)
EXTENDS World, IOUtils, Json

Scen == JsonDeserialize(IOEnv.SCEN)
HIST == IOEnv.HIST = "1"
DEPTH == atoi(IOEnv.DEPTH)
MORE == atoi(IOEnv.MORE)

VARIABLES sc, w, n, op, obs, h
vars == <<sc, w, n, op, obs, h>>
S == Scen[sc]

Init == /\ sc \in 1..Len(Scen)
        /\ w = WInit(Scen[sc].k, Scen[sc].s)
        /\ n = 0 /\ op = [o |-> "none"] /\ obs = [e |-> ""] /\ h = <<>>

Next == /\ n < S.n + MORE /\ ~WDead(w)
        /\ \E i \in 1..Len(S.ops) :
             LET r == Apply(w, S.ops[i])
             IN  /\ w' = r.w /\ op' = S.ops[i] /\ obs' = r.obs
                 /\ h' = IF HIST THEN Append(h, S.ops[i] @@ [x |-> r.obs]) ELSE h
        /\ n' = n + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Dec == w.k = "dec"
Enc == w.k = "enc"
Ok == obs'.e = ""
Dead2 == WDead(w')
RECURSIVE Holds(_, _)
Holds(s, ks) == \/ s.k \in ks
                \/ "in" \in DOMAIN s /\ Holds(s.in, ks)
                \/ "b" \in DOMAIN s /\ s.k = "andthen" /\ Holds(s.b, ks)
                \/ "ps" \in DOMAIN s /\ \E i \in 1..Len(s.ps) : Holds(s.ps[i], ks)

\* C01, C03: never more than the buffer, nothing while an item waits
InBounds == [][(Dec /\ op'.o = "d" /\ Ok) =>
                 /\ obs'.n \in 0..Len(op'.b)
                 /\ DIdle(w.x) => obs'.n = 0 /\ w'.x = w.x]_vars
\* C03: too early is harmless and never gives an item
EarlyIsHarmless == [][(Dec /\ op'.o = "f" /\ ~DIdle(w.x)) =>
                        /\ ~Ok
                        /\ w'.x = w.x]_vars
\* C03, C05: an item that waits can be taken, and needs nothing more (a length window must be used up first;
\* a counted collection is made once unless it is set again, a one-shot buffer likewise)
Waiting == [][(Dec /\ op'.o = "f" /\ DIdle(w.x) /\ ~Holds(S.s, {"length", "andthen", "trymap", "utf8", "bytes", "mono", "peek"})) =>
                 Ok /\ DReq(w.x) = 0]_vars
\* C05: a finite requirement is not undercut, except by the end of the stream
Needs == [][(Dec /\ op'.o = "d" /\ Ok /\ ~DIdle(w.x) /\ IsFin(DReq(w.x)) /\ ~Reached(op'.q)
              /\ ~Holds(S.s, {"length", "andthen", "maybe", "slice"})) =>
                 (DIdle(w'.x) => obs'.n >= DReq(w.x))]_vars
\* C10: a slice pays for what passes through it
Pays == [][(Dec /\ op'.o = "d" /\ Ok /\ w.x.k = "slice" /\ w'.x.k = "slice") => w'.x.g = w.x.g - obs'.n /\ w'.x.g >= 0]_vars
\* C09: the count never exceeds the limit
Limited == [][(Dec /\ w'.x.k = "maxb" /\ op'.o = "d" /\ Ok) => w'.x.cnt <= w'.x.max]_vars
\* C08: the window is never exceeded
Window == [][(Dec /\ w'.x.k = "length") => w'.x.rem >= 0 /\ w'.x.rem <= w'.x.exp]_vars

\* C02, C04: never more than the buffer, nothing from an idle encoder
Fits == [][(Enc /\ op'.o = "e" /\ Ok) =>
             /\ Len(obs'.b) <= op'.c
             /\ EIdle(w.x) => obs'.b = <<>> /\ (w'.x = w.x \/ Holds(S.s, {"maxb"}))]_vars
\* C04: a busy encoder refuses, without a trace
Refuses == [][(Enc /\ op'.o = "s" /\ ~EIdle(w.x) /\ ~Holds(S.s, {"opt", "null"})) => ~Ok /\ w'.x = w.x]_vars
\* C05: a finite requirement is exact
Exact == [][(Enc /\ op'.o = "e" /\ Ok /\ IsFin(EReq(w.x)) /\ ~Holds(S.s, {"opt", "length"}) /\ IsFin(EReq(w'.x))) =>
              EReq(w'.x) = EReq(w.x) - Len(obs'.b)]_vars
\* C02: an encoder that is not done has filled the buffer
Fills == [][(Enc /\ op'.o = "e" /\ Ok /\ ~EIdle(w'.x) /\ ~Holds(S.s, {"slice", "late"})) => Len(obs'.b) = op'.c]_vars
\* C06, C07: the end of the stream leaves nothing unfinished
Ends == [][(((Dec /\ op'.o = "d") \/ (Enc /\ op'.o = "e")) /\ Ok /\ Reached(op'.q)
             /\ ~Holds(S.s, {"slice", "maybe", "length", "late"})) =>
             (IF Dec THEN DIdle(w'.x) ELSE EIdle(w'.x))]_vars

---------------------------------------------------------------------------
LastOps == [i \in 1..Min2(DEPTH, Len(h)) |-> LET o == h[Len(h) + 1 - i] IN [o EXCEPT !.x = <<>>]]
View == <<sc, w, LastOps>>
Tail2 == LET l == FoldLeft(LAMBDA acc, t :
                     IF WDead(acc.w) THEN acc
                     ELSE LET r == Apply(acc.w, t) IN [w |-> r.w, h |-> Append(acc.h, t @@ [x |-> r.obs])],
                   [w |-> w', h |-> h'], S.tail)
         IN l.h
Emit == HIST => PrintT(ToJson([sc |-> sc, ops |-> Tail2]))
=============================================================================
