------------------------------ MODULE T_Threads ------------------------------
(* Trace specification: a run of a parallel operation is the outcome of       *)
(* MC_Slabs: the serial result, whatever the number of threads and the order. *)
EXTENDS F64, TraceBase

EventFaults(e) ==
  CASE e.ev = "threads" ->
    UNION { Req(<< "result does not depend on the threads", e.runs[i].threads >>, e.runs[i].bits = e.serial)
            : i \in DOMAIN e.runs }
    \cup Req("finite", e.finite /\ \A i \in DOMAIN e.runs : e.runs[i].finite)
=============================================================================
