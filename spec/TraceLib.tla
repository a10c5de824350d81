------------------------------ MODULE TraceLib ------------------------------
(* Reading recorded traces, and total verdicts: a failing clause is named and printed, the trace is read to its end. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Range(s) == {s[i] : i \in 1..Len(s)}

\* clauses: a function from clause names to BOOLEAN; the names of those that fail
Failing(c) == {k \in DOMAIN c : ~c[k]}

\* an event in which the code under test raised an exception
Raised(e) == e.op = "raised"

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
=============================================================================
