------------------------------ MODULE TraceLib ------------------------------
(* Shared by all trace-validation modules: the recorded trace, positions,    *)
(* rejection messages.  Register 1 holds the number of events explained.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Reject(n, why) == PrintT("REJECT " \o ToString(n) \o " " \o ToString(why))
\* Postcondition of stateful trace specifications: all events were explained.
Accepted == \/ TLCGet(1) = Len(Trace)
            \/ Reject(TLCGet(1) + 1, Trace[TLCGet(1) + 1]) /\ FALSE
\* Stateless trace specifications go on after a rejection: Judge always holds.
Judge(n, failed) == IF failed = {} THEN TRUE ELSE Reject(n, failed)
SetOf(q) == {q[i] : i \in DOMAIN q}
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol
\* If(c, x): the set {x} when the check c fails
Fail(c, x) == IF c THEN {} ELSE {x}
=============================================================================
