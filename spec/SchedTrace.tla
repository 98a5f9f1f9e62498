------------------------------ MODULE SchedTrace ------------------------------
(***************************************************************************)
(* Plans made by the real code: [cases], a case being                      *)
(*  - "next": one call: [sched, spread (s), q, last, hist, rel, now, time, *)
(*    tags, again (tags of a second call), err]                            *)
(*  - "chain": such calls one after another, each at the time the previous *)
(*    one planned, with the backups made in between: [steps, ...]          *)
(*  - "spread": a job's spread computed in several processes               *)
(*  - "retry": [errors, now, next]: what the job waits for after failures  *)
(***************************************************************************)
EXTENDS Sched, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
VARIABLES t, i
Set(s) == {s[j] : j \in DOMAIN s}
Step1(c, s) ==
  LET p == Plan(c.sched, c.spread * c.q, s.last, s.hist, s.rel, s.now, c.q)
  IN  IF s.err # "" THEN {"planning-failed"}
      ELSE (IF s.time # p.time THEN {"wrong-time"} ELSE {})
           \cup (IF Set(s.tags) # p.tags THEN {"wrong-tags"} ELSE {})
           \cup (IF s.time <= s.now /\ ~(s.hist /\ s.time = s.now /\ Missed(c.sched, s.last, s.now) # {}) /\ s.rel >= s.now
                 THEN {"not-in-the-future"} ELSE {})
           \cup (IF s.time2 # s.time \/ Set(s.tags2) # Set(s.tags) THEN {"second-answer-differs"} ELSE {})
(* every grid point that has passed was planned for, once *)
Skipped(c) ==
  LET n == Len(c.steps)
      first == c.steps[1].now
      end == c.steps[n].now
  IN  IF \E j \in 1..n : c.steps[j].err # "" THEN {}
      ELSE UNION {IF \E k \in 0..((end - first) \div c.sched[g].interval) :
                       LET pt == NextGrid(c.sched[g], c.spread * c.q, first) + k * c.sched[g].interval
                       IN  pt <= end /\ Cardinality({j \in 1..(n - 1) : c.steps[j].time = pt /\ c.steps[j].now < pt /\ g \in Set(c.steps[j].tags)}) # 1
                  THEN {"grid-point-missed"} ELSE {} : g \in DOMAIN c.sched}
Bad(c) ==
  CASE c.kind = "next" -> Step1(c, c.steps[1])
    [] c.kind = "chain" -> UNION {Step1(c, c.steps[j]) : j \in DOMAIN c.steps} \cup Skipped(c)
    [] c.kind = "spread" -> IF Cardinality(Set(c.values)) # 1 THEN {"unstable-spread"}
                            ELSE IF ~(c.values[1] >= 0 /\ c.values[1] <= c.max) THEN {"spread-out-of-range"} ELSE {}
TraceInit == t \in DOMAIN Data /\ i = 0
Step == /\ i = 0
        /\ \A k \in DOMAIN Data[t].cases : \A p \in Bad(Data[t].cases[k]) :
             PrintT("@@" \o ToJson([t |-> t, i |-> k, k |-> p, op |-> Data[t].cases[k].kind]))
        /\ PrintT("@@" \o ToJson([t |-> t, i |-> 0, k |-> "DONE", op |-> ""]))
        /\ i' = 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][Step]_<<t, i>>
=============================================================================
