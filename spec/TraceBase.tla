----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Validation of recorded executions.                                      *)
(*                                                                         *)
(* The trace is a sequence of events, each the return of one call of the   *)
(* public API: the operation (op), its arguments (a), the kind of outcome  *)
(* (k: "ok", "none" for Python's None, "exc" for an exception, "timeout",  *)
(* "malformed" for a result of the wrong shape, "nonfinite" for an         *)
(* infinite number or nan), the result (r, if k is "ok") and whether the   *)
(* arguments were modified (mut).  Events with new = TRUE begin a session, *)
(* in which the specification starts in its initial state.                 *)
(*                                                                         *)
(* Judge(st, ev) is the specification of the property being decided: the   *)
(* clauses that apply to event ev in state st, with their truth values,    *)
(* and the state after ev.  Every event is judged: an event that violates  *)
(* a clause is reported with the names of its false clauses, and because   *)
(* no state follows from it, the rest of its session is skipped.           *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Judge(_, _),   \* [cl |-> sequence of [c |-> name, ok |-> BOOLEAN], st |-> state]
          Start          \* the initial state of a session

VARIABLES tix,      \* the index of the next event
          tst,     \* the state of the specification
          skip,   \* an event of this session was rejected
          cov,    \* how often each clause was judged
          rej     \* number of rejected events

tvars == <<tix, tst, skip, cov, rej>>

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

TraceInit == /\ tix = 1
             /\ tst = Start
             /\ skip = FALSE
             /\ cov = << >>
             /\ rej = 0

RECURSIVE Count(_, _)
Count(c, cl) == IF cl = <<>> THEN c
                ELSE LET n == Head(cl).c
                     IN  Count(IF n \in DOMAIN c THEN [c EXCEPT ![n] = @ + 1] ELSE c @@ (n :> 1), Tail(cl))

Failed(cl) == {cl[i].c : i \in {j \in DOMAIN cl : ~cl[j].ok}}

\* modules of the library must be importable
Judge1(s, ev) == IF ev.op = "import"
                 THEN [cl |-> <<[c |-> "module can be imported", ok |-> ev.k = "ok"]>>, st |-> s]
                 ELSE Judge(s, ev)

TraceNext ==
    /\ tix <= Len(Trace)
    /\ tix' = tix + 1
    /\ LET ev == Trace[tix]
       IN  IF skip /\ ~ev.new
           THEN UNCHANGED <<tst, skip, cov, rej>>
           ELSE LET j == Judge1(IF ev.new THEN Start ELSE tst, ev)
                    bad == Failed(j.cl)
                IN  /\ cov' = Count(cov, j.cl)
                    /\ skip' = (bad # {})
                    /\ tst' = IF bad # {} THEN Start ELSE j.st
                    /\ rej' = IF bad # {} THEN rej + 1 ELSE rej
                    /\ bad # {} => PrintT("REJECT " \o ToJson([i |-> ev.i, bad |-> bad]))
    /\ tix = Len(Trace) => PrintT("JUDGED " \o ToJson([events |-> tix, rejected |-> rej', clauses |-> cov']))

\* every event was judged
TraceJudged == TLCGet("stats").diameter - 1 = Len(Trace)

-----------------------------------------------------------------------------
(* Building verdicts *)

Cl(name, cond) == <<[c |-> name, ok |-> cond]>>
None == <<>>
If(p, cl) == IF p THEN cl ELSE <<>>
\* the clauses of an event that must return a value of the right shape
Ok(ev, cl) == IF ev.k = "ok" THEN Cl("returns", TRUE) \o cl ELSE Cl("returns", FALSE)
Pure(ev) == Cl("arguments unchanged", ~ev.mut)
\* a verdict without state
V(st0, cl) == [cl |-> cl, st |-> st0]
\* all clauses of a sequence of clause sequences
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
=============================================================================
