-------------------------------- MODULE Cost --------------------------------
(***************************************************************************)
(* Bounds on the work an operation may ask of the user's functions, as a   *)
(* function of the size of the container.  Executions recorded from large  *)
(* containers (harness/cost.cpp) are judged event by event.                *)
(*   w = <<comparisons, hashes, equalities, constructions, assignments,    *)
(*         allocations>>                                                   *)
(* st = pointer dereferences, steps inside the data structures (recorded   *)
(* through an allocator with counting pointers; generous constants, since  *)
(* only the growth matters).                                               *)
(* n is the size after the call, no the number of ordered indices involved,*)
(* dk the number of distinct keys in the bucket looked up, g the number of *)
(* elements counted or the further elements of a range erased.             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

RECURSIVE Lg(_)
Lg(n) == IF n <= 1 THEN 0 ELSE 1 + Lg(n \div 2)
\* no path of a red-black tree with n inner nodes is longer
Height(n) == 2 * (Lg(n + 1) + 1)

F(ok, what) == IF ok THEN {} ELSE {<<"P23", what>>}

Err(ev) ==
  LET h == Height(ev.n + 1)
      cmp == ev.w[1]   hash == ev.w[2]   eq == ev.w[3]   ctor == ev.w[4]   alloc == ev.w[6]
      Steps(m) == F(ev.st <= m, "steps inside the data structures: " \o ev.op)
      zero == cmp = 0 /\ eq = 0 /\ ctor = 0
  IN
  CASE ev.op = "ins"   -> F(cmp <= ev.no * (h + 3), "insertion is not logarithmic")
                          \cup F(ctor <= 1, "insertion constructs more than one element")
                          \cup Steps(40 * h + 200)
    [] ev.op = "hint"  -> F(cmp <= 6, "insertion with an exact hint is not constant")
                          \cup F(ctor <= 1, "insertion constructs more than one element")
                          \cup Steps(40 * h + 200)
    [] ev.op \in {"find", "bound"} -> F(cmp <= h + 3, "lookup is not logarithmic") \cup Steps(12 * h + 60)
    [] ev.op = "eqr" -> F(cmp <= 2 * h + 6, "equal range is not logarithmic") \cup Steps(24 * h + 60)
    \* only a ranked index counts without visiting the elements counted
    [] ev.op = "count" -> F(cmp <= 2 * h + 6, "count is not logarithmic")
                          \cup Steps(24 * h + 60 + (IF ev.k \in {"ru", "rn"} THEN 0 ELSE 20 * ev.g))
    [] ev.op = "range" -> F(cmp <= 3 * h + 9, "range is not logarithmic") \cup Steps(36 * h + 60)
    [] ev.op = "nth"   -> F(zero, "compares or constructs: rank") \cup Steps(24 * h + 60)
    [] ev.op = "repl"  -> F(cmp <= ev.no * (h + 8), "replacement is not logarithmic")
                          \cup F(ctor = 0, "replacement constructs") \cup Steps(60 * h + 300)
    [] ev.op = "modi"  -> F(cmp <= ev.no * (2 * h + 16), "modification is not logarithmic")
                          \cup F(ctor = 0, "modification constructs") \cup Steps(60 * h + 300)
    [] ev.op = "xfer"  -> F(cmp <= ev.no * (h + 3) /\ ctor = 0, "transfer") \cup Steps(60 * h + 300)
    [] ev.op = "xlin"  -> F(cmp <= ev.no * (h + 3) /\ ctor = 0, "transfer") \cup Steps(40 * ev.n + 60 * h + 300)
    [] ev.op = "erase" -> F(zero, "compares or constructs: erase") \cup Steps((1 + ev.g) * (40 * h + 200))
    [] ev.op \in {"move", "swap"} -> F(zero, "compares or constructs: " \o ev.op) \cup Steps(400)
    [] ev.op \in {"mlin", "elin", "lin", "walk"} ->
         F(zero, "compares or constructs: " \o ev.op) \cup Steps(60 * ev.n + 40 * h + 400)
    [] ev.op = "hfind" -> F(hash <= 1 /\ eq <= 2 * ev.dk, "hashed lookup compares outside its bucket or with every element of a group")
                          \cup Steps(40 * ev.dk + 20 * ev.g + 100)
    [] ev.op = "hins"  -> F(ctor <= 1, "insertion constructs more than one element")
    \* n insertions: rehashing is amortized, comparisons per key met, not per element
    [] ev.op = "hall"  -> F(hash <= 8 * ev.n + 200, "rehashing is not amortized")
                          \cup F(eq <= 8 * ev.n + 200, "equality tests of insertions")
                          \cup F(alloc <= ev.n + 60, "allocations of insertions")
                          \cup Steps(400 * ev.n + 10000)
    [] ev.op = "lall"  -> F(alloc <= ev.n + 90, "allocations of insertions") \cup Steps((400 + 40 * h) * ev.n + 10000)
    [] ev.op = "sort"  -> F(cmp <= ev.n * (Lg(ev.n) + 3) + 20 /\ ctor = 0, "sort") \cup Steps(30 * ev.n * (Lg(ev.n) + 3) + 1000)
    [] ev.op = "crash" -> {<<"ALL", "crash or hang">>}
    [] OTHER -> {}

Report(err) == IF err = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson(<<l, err>>))
Init == l = 1
Next == /\ l <= Len(Log)
        /\ Report(Err(Log[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
