-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Composite keys as virtual tuples, key extractors as functions of the    *)
(* element designated by their argument, and lookups by partial keys.      *)
(* Executions recorded by harness/keys.cpp are judged event by event.      *)
(*                                                                         *)
(* A component function i is given by a divisor d[i] and a sign s[i]: it   *)
(* compares s[i] * (x[i] \div d[i]); calls are recorded as <<id, x, y>>.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Min(a, b) == IF a < b THEN a ELSE b
Range(f) == {f[i] : i \in DOMAIN f}
C(x, d, s) == s * (x \div d)
\* the first component in which x and y differ, or one past the last common one
FirstDiff(x, y, d) ==
  LET m == Min(Len(x), Len(y))
      D == {i \in 1..m : x[i] \div d[i] # y[i] \div d[i]}
  IN IF D = {} THEN m + 1 ELSE CHOOSE i \in D : \A k \in D : i <= k
Equiv(x, y, d) == FirstDiff(x, y, d) > Min(Len(x), Len(y))
LexLess(x, y, d, s) ==
  LET i == FirstDiff(x, y, d)
  IN i <= Min(Len(x), Len(y)) /\ C(x[i], d[i], s[i]) < C(y[i], d[i], s[i])

F(ok, what) == IF ok THEN {} ELSE {<<"P21", what>>}
B(x) == IF x THEN 1 ELSE 0

\* component functions are only asked about their own components, in order,
\* and none beyond the one that settles the result
Calls(cl, x, y, d, per) ==
  LET last == FirstDiff(x, y, d) IN
  /\ \A k \in DOMAIN cl : /\ cl[k][1] <= Min(last, Min(Len(x), Len(y)))
                          /\ \/ cl[k][2] = x[cl[k][1]] /\ cl[k][3] = y[cl[k][1]]
                             \/ cl[k][2] = y[cl[k][1]] /\ cl[k][3] = x[cl[k][1]]
  /\ \A k \in 1..(Len(cl) - 1) : cl[k][1] <= cl[k + 1][1]
  /\ \A i \in 1..10 : Cardinality({k \in DOMAIN cl : cl[k][1] = i}) <= per

Ops(x, y) ==
  LET d == [i \in 1..10 |-> 1]
      lt == LexLess(x, y, d, d)   gt == LexLess(y, x, d, d)
      eq == IF Len(x) = Len(y) THEN B(x = y) ELSE -1
      ne == IF Len(x) = Len(y) THEN B(x # y) ELSE -1
  IN <<eq, ne, B(lt), B(gt), B(~gt), B(~lt)>>

-----------------------------------------------------------------------------
\* an index over elements <<id, k1, k2, k3>> whose key has nc components
Cont(ev) ==
  LET els == ev.els
      n == Len(els)
      ids == {e[1] : e \in Range(els)}
      key == [i \in ids |-> LET e == CHOOSE e \in Range(els) : e[1] = i IN <<e[2], e[3], e[4]>>]
      Key(i, nc) == SubSeq(key[i], 1, nc)
      Perm(t) == Len(t) = n /\ Range(t) = ids
      Sorted(t, nc) == \A k \in 1..(n - 1) : ~LexLess(Key(t[k + 1], nc), Key(t[k], nc), ev.d, ev.s)
      OrdOK(ts, nc) == \A t \in Range(ts) : Perm(t) /\ Sorted(t, nc) /\ t = ts[1]
      Grouped(t, nc) == \A a, b \in 1..n : (a < b /\ Equiv(Key(t[a], nc), Key(t[b], nc), ev.d))
                                             => \A c \in a..b : Equiv(Key(t[a], nc), Key(t[c], nc), ev.d)
      HashOK(ts, nc) == \A t \in Range(ts) : Perm(t) /\ Grouped(t, nc)
      \* lookups with the leading components p
      QueryOK(q) ==
        IF q.or = 1
        THEN LET lb == Cardinality({i \in ids : LexLess(key[i], q.p, ev.d, ev.s)})
                 ub == n - Cardinality({i \in ids : LexLess(q.p, key[i], ev.d, ev.s)})
             IN /\ SubSeq(q.r, 1, 6) = <<lb, ub, lb, ub, ub - lb, B(ub > lb)>>
                /\ IF ub > lb THEN q.r[7] >= lb /\ q.r[7] < ub ELSE q.r[7] = n
        ELSE LET m == {i \in ids : Equiv(key[i], q.p, ev.d)}
                 g == SubSeq(q.r, 4, Len(q.r))
             IN /\ q.r[1] = Cardinality(m) /\ q.r[2] = B(m # {})
                /\ IF m = {} THEN q.r[3] = 0 ELSE q.r[3] \in m
                /\ Len(g) = Cardinality(m) /\ Range(g) = m
  IN F(Cardinality(ids) = n, "elements")
     \cup F(OrdOK(ev.o3, 3), "composite keys specified in different ways order differently")
     \cup F(OrdOK(ev.o1, 1), "keys specified in different ways order differently")
     \cup F(HashOK(ev.h3, 3), "composite keys specified in different ways group differently")
     \cup F(HashOK(ev.h1, 1), "keys specified in different ways group differently")
     \cup F(\A q \in Range(ev.q) : QueryOK(q), "lookup by (partial) key")

Err(ev) ==
  CASE ev.op = "cmp" -> F((ev.res = 1) = LexLess(ev.x, ev.y, ev.d, ev.s), "composite comparison: " \o ev.fm)
                        \cup F(ev.cnt = 1 => Calls(ev.cl, ev.x, ev.y, ev.d, 2), "component comparisons: " \o ev.fm)
    [] ev.op = "eq"  -> F((ev.res = 1) = Equiv(ev.x, ev.y, ev.d), "composite equality: " \o ev.fm)
                        \cup F(ev.cnt = 1 => Calls(ev.cl, ev.x, ev.y, ev.d, 1), "component equalities: " \o ev.fm)
    [] ev.op = "ops" -> F(ev.o = Ops(ev.x, ev.y), "composite key operators: " \o ev.fm)
    [] ev.op = "hash" -> F(\A h \in Range(ev.hs) : h = ev.hs[1], "hash values of one key differ")
                         \cup F(Equiv(ev.x, ev.y, ev.d) => ev.same = 1, "equivalent keys hash differently")
                         \cup F(ev.cnt = 1 => \A cl \in Range(ev.cl) :
                                  /\ Len(cl) = Len(ev.x)
                                  /\ Range(cl) = {<<i, ev.x[i], 0>> : i \in 1..Len(ev.x)}, "component hashes")
    [] ev.op = "ex"  -> F(ev.res = ev.x[ev.c], "extracted value: " \o ev.st \o " on " \o ev.fm)
                        \cup F(ev.same # 0, "extracted object: " \o ev.st \o " on " \o ev.fm)
    [] ev.op = "cn"  -> Cont(ev)
    [] ev.op = "crash" -> {<<"ALL", "crash or hang">>}
    [] OTHER -> {}

Report(err) == IF err = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson(<<l, err>>))
Init == l = 1
Next == /\ l <= Len(Log)
        /\ Report(Err(Log[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
