-------------------------------- MODULE Trace -------------------------------
(* Checks sessions recorded from the implementation: every observation must *)
(* agree with the specification on the fields in question.  A session is a  *)
(* record [k, s, ops, obs]; sessions are independent initial states.        *)
EXTENDS World, IOUtils, Json

Sessions == JsonDeserialize(IOEnv.SESSIONS)
Fields == LET s == JsonDeserialize(IOEnv.FIELDS) IN {s[i] : i \in 1..Len(s)}

VARIABLES sid, pos, w, ok

Init == /\ sid \in 1..Len(Sessions)
        /\ pos = 0
        /\ w = WInit(Sessions[sid].k, Sessions[sid].s)
        /\ ok = ""

Next ==
  /\ ok = ""
  /\ pos < Len(Sessions[sid].ops)
  /\ pos' = pos + 1
  /\ sid' = sid
  /\ LET op == Sessions[sid].ops[pos + 1]
         got == Sessions[sid].obs[pos + 1]
     IN  IF WDead(w) \/ (w.k = "io" /\ IsDead(w.x) /\ op.o \in {"dec", "fin"})
         THEN \* unspecified: any result, but a result
              /\ w' = w
              /\ ok' = IF got.e \in {"panic", "alloc"} THEN got.e ELSE ""
         ELSE LET r == Apply(w, op)
                  bad == Disagreement(r.obs, got, Fields)
              IN  /\ w' = r.w
                  /\ ok' = bad

Spec == Init /\ [][Next]_<<sid, pos, w, ok>>

Conforms == ok = ""
=============================================================================
