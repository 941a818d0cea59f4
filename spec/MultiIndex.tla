----------------------------- MODULE MultiIndex -----------------------------
(***************************************************************************)
(* Abstract semantics of boost::multi_index_container.                     *)
(*                                                                         *)
(* A container is a record                                                 *)
(*    ix : sequence of index descriptors [k |-> kind, p |-> key parts]     *)
(*    q  : for each index, its traversal: a sequence of element identities *)
(*    e  : identity -> value, a value being <<a, b, c, tag>>               *)
(*                                                                         *)
(* Kinds: ou/on ordered unique/non-unique, ru/rn ranked, hu/hn hashed,     *)
(* sq sequenced, ra random access.  A key is the tuple of its parts        *)
(* <<field, divisor, sign>>, compared lexicographically; a divisor above 1 *)
(* gives an equivalence coarser than equality.                             *)
(*                                                                         *)
(* Every operation is a pure function from containers and arguments to     *)
(* containers.  The place of elements in hashed indices is unspecified     *)
(* beyond the constraints of HashedOK; where the semantics leave it open   *)
(* the functions below pick one representative ("end of its group, else    *)
(* end") and conformance is judged by HashedOK instead of by equality.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y

Unique(d)  == d.k \in {"ou", "ru", "hu"}
Ordered(d) == d.k \in {"ou", "on", "ru", "rn"}
Ranked(d)  == d.k \in {"ru", "rn"}
Hashed(d)  == d.k \in {"hu", "hn"}
Listy(d)   == d.k \in {"sq", "ra"}

(* --------------------------------- keys -------------------------------- *)

Part(p, v)   == p[3] * (v[p[1]] \div p[2])
Key(d, v)    == [m \in 1..Len(d.p) |-> Part(d.p[m], v)]

RECURSIVE KCmp(_, _, _, _)
KCmp(x, y, m, n) == IF m > n THEN 0
                    ELSE IF x[m] < y[m] THEN -1
                    ELSE IF x[m] > y[m] THEN 1
                    ELSE KCmp(x, y, m + 1, n)
(* comparison over the leading parts both keys have: a shorter tuple       *)
(* matches by prefix                                                       *)
Cmp(x, y) == KCmp(x, y, 1, Min2(Len(x), Len(y)))
KLess(x, y) == Cmp(x, y) < 0
KLeq(x, y)  == Cmp(x, y) <= 0
KEq(x, y)   == Cmp(x, y) = 0

(* ----------------------------- sequences ------------------------------- *)

PosOf(q, s)     == IF \E m \in 1..Len(q) : q[m] = s
                   THEN CHOOSE m \in 1..Len(q) : q[m] = s ELSE 0
(* number of elements before s in q; 0 designates the end                  *)
Before(q, s)    == IF s = 0 THEN Len(q) ELSE PosOf(q, s) - 1
InsertAfter(q, n, s) == SubSeq(q, 1, n) \o <<s>> \o SubSeq(q, n + 1, Len(q))
Without(q, S)   == SelectSeq(q, LAMBDA s : s \notin S)
Only(q, S)      == SelectSeq(q, LAMBDA s : s \in S)
(* the element after position m of q, 0 for the end *)
AtOr0(q, m) == IF m >= 1 /\ m <= Len(q) THEN q[m] ELSE 0
(* elements [f,l) of q, 0 meaning the end *)
Slice(q, f, l) == SubSeq(q, Before(q, f) + 1, Before(q, l))

StableSort(q, Less(_, _)) ==
  LET P == [m \in 1..Len(q) |-> <<q[m], m>>]
      R == SortSeq(P, LAMBDA x, y : \/ Less(x[1], y[1])
                                    \/ ~Less(y[1], x[1]) /\ x[2] < y[2])
  IN  [m \in 1..Len(q) |-> R[m][1]]

(* ----------------------------- containers ------------------------------ *)

Empty(ix) == [ix |-> ix, q |-> [j \in 1..Len(ix) |-> <<>>], e |-> <<>>]
Elems(X)  == DOMAIN X.e
KeyOf(X, j, s) == Key(X.ix[j], X.e[s])

(* the reference index: the first whose order is fully specified           *)
RefIx(ix) == LET J == {j \in 1..Len(ix) : ~Hashed(ix[j])}
             IN  IF J = {} THEN 1 ELSE Min(J)

(* number of elements of index j with key less / not greater than k        *)
CountLess(X, j, k) == Len(SelectSeq(X.q[j], LAMBDA s : KLess(KeyOf(X, j, s), k)))
CountLeq(X, j, k)  == Len(SelectSeq(X.q[j], LAMBDA s : KLeq(KeyOf(X, j, s), k)))
Matching(X, j, k)  == SelectSeq(X.q[j], LAMBDA s : KEq(KeyOf(X, j, s), k))

(* elements other than x that ban the presence of value v                  *)
BlockersX(X, v, x) ==
  {s \in Elems(X) \ {x} :
     \E j \in 1..Len(X.ix) :
       Unique(X.ix[j]) /\ KEq(KeyOf(X, j, s), Key(X.ix[j], v))}
Blockers(X, v) == BlockersX(X, v, 0)
Accepts(X, v)  == Blockers(X, v) = {}

(* ------------------------------ invariants ------------------------------ *)

Agree(X) == \A j \in 1..Len(X.ix) :
              /\ Len(X.q[j]) = Cardinality(Elems(X))
              /\ ToSet(X.q[j]) = Elems(X)
SortedIx(X, j) == \A m \in 1..(Len(X.q[j]) - 1) :
                    LET c == Cmp(KeyOf(X, j, X.q[j][m]), KeyOf(X, j, X.q[j][m + 1]))
                    IN  c < 0 \/ (c = 0 /\ ~Unique(X.ix[j]))
GroupedIx(X, j) ==
  LET q == X.q[j]
      starts == {m \in 1..Len(q) : m = 1 \/ ~KEq(KeyOf(X, j, q[m - 1]), KeyOf(X, j, q[m]))}
      keys == {KeyOf(X, j, s) : s \in Elems(X)}
  IN  /\ Cardinality(starts) = Cardinality(keys)
      /\ Unique(X.ix[j]) => Cardinality(keys) = Len(q)
Sorted(X)  == \A j \in 1..Len(X.ix) : Ordered(X.ix[j]) => SortedIx(X, j)
Grouped(X) == \A j \in 1..Len(X.ix) : Hashed(X.ix[j]) => GroupedIx(X, j)
Valid(X)   == Agree(X) /\ Sorted(X) /\ Grouped(X)

(* q1 -> q2 is a legal evolution of a hashed index whose elements S kept   *)
(* their key: equivalent ones among S keep their relative order            *)
HashedOK(q1, q2, S, K(_)) ==
  LET r == Only(q2, S)
  IN  \A m \in 1..(Len(r) - 1) :
        KEq(K(r[m]), K(r[m + 1])) => PosOf(q1, r[m]) < PosOf(q1, r[m + 1])

(* ------------------------------- insertion ------------------------------ *)

(* how many elements of index j precede a new element of value v; at says  *)
(* the insertion is through j with a position/hint h (0: end)              *)
Place(X, j, v, at, h) ==
  LET d == X.ix[j]
      q == X.q[j]
  IN  IF Ordered(d) THEN
        LET ub == CountLeq(X, j, Key(d, v))
        IN  IF at THEN Max2(CountLess(X, j, Key(d, v)), Min2(Before(q, h), ub)) ELSE ub
      ELSE IF Listy(d) THEN IF at THEN Before(q, h) ELSE Len(q)
      ELSE LET G == {m \in 1..Len(q) : KEq(KeyOf(X, j, q[m]), Key(d, v))}
           IN  IF G = {} THEN Len(q) ELSE Max(G)

(* link element s of value v, through index i: hk 0 no position, otherwise *)
(* before h.  J: the ordered indices where a hint may be followed too      *)
LinkAt(X, s, v, i, hk, h, J) ==
  [X EXCEPT !.q = [j \in 1..Len(X.ix) |->
                     InsertAfter(X.q[j], Place(X, j, v, hk # 0 /\ (j = i \/ j \in J), h), s)],
            !.e = (s :> v) @@ X.e]
Link(X, s, v, i, hk, h) == LinkAt(X, s, v, i, hk, h, {})
OrderedIxs(X) == {j \in 1..Len(X.ix) : Ordered(X.ix[j])}
Insert(X, s, v, i, hk, h) == IF Accepts(X, v) THEN Link(X, s, v, i, hk, h) ELSE X

(* values vs inserted one by one; identities of the accepted ones taken    *)
(* from fresh in order (a negative one if fresh runs out)                  *)
RECURSIVE InsertAll(_, _, _, _, _, _)
InsertAll(X, vs, fresh, i, hk, h) ==
  IF vs = <<>> THEN [X |-> X, f |-> fresh]
  ELSE LET v == Head(vs)
       IN  IF ~Accepts(X, v) THEN InsertAll(X, Tail(vs), fresh, i, hk, h)
           ELSE InsertAll(Link(X, IF fresh = <<>> THEN 0 - Len(vs) ELSE Head(fresh), v, i, hk, h),
                          Tail(vs), IF fresh = <<>> THEN <<>> ELSE Tail(fresh), i, hk, h)

(* the blocker found in the first index that bans v *)
FirstBlocker(X, v) ==
  LET J == {j \in 1..Len(X.ix) : Unique(X.ix[j]) /\ Matching(X, j, Key(X.ix[j], v)) # <<>>}
      j == Min(J)
  IN  Matching(X, j, Key(X.ix[j], v))[1]
(* the same with each insertion hinted, in every ordered index, by the     *)
(* position following the previous outcome in the first one (how           *)
(* containers are constructed from ranges)                                 *)
RECURSIVE InsertChained(_, _, _, _)
InsertChained(X, vs, fresh, h) ==
  IF vs = <<>> THEN [X |-> X, f |-> fresh]
  ELSE LET v == Head(vs)
           ok == Accepts(X, v)
           s == IF fresh = <<>> THEN 0 - Len(vs) ELSE Head(fresh)
           X1 == IF ~ok THEN X
                 ELSE IF OrderedIxs(X) = {} THEN Link(X, s, v, 1, 0, 0)
                 ELSE LinkAt(X, s, v, Min(OrderedIxs(X)), 1, h, OrderedIxs(X))
           at == IF ok THEN s ELSE FirstBlocker(X, v)
           h1 == AtOr0(X1.q[1], PosOf(X1.q[1], at) + 1)
       IN  InsertChained(X1, Tail(vs),
                         IF ok /\ fresh # <<>> THEN Tail(fresh) ELSE fresh, h1)

(* -------------------------------- erasure ------------------------------- *)

Erase(X, S) ==
  IF S \cap Elems(X) = {} THEN X
  ELSE [X EXCEPT !.q = [j \in 1..Len(X.ix) |-> Without(X.q[j], S)],
                 !.e = [s \in Elems(X) \ S |-> X.e[s]]]
(* element following position of s in index i *)
Following(X, i, s) == AtOr0(X.q[i], PosOf(X.q[i], s) + 1)

(* list-style equality: f = 0 the value's ==, otherwise field f modulo or  *)
(* divided by d                                                            *)
SameVal(v, w)      == v[1] = w[1] /\ v[2] = w[2] /\ v[3] = w[3]
RemoveSet(X, f, d, v) == {s \in Elems(X) : IF f = 0 THEN SameVal(X.e[s], v)
                                           ELSE X.e[s][f] % d = v[f] % d}
RECURSIVE DupSet(_, _, _, _, _)
DupSet(X, q, f, d, kept) ==
  IF q = <<>> THEN {}
  ELSE LET s == Head(q)
           dup == /\ kept # 0
                  /\ IF f = 0 THEN SameVal(X.e[s], X.e[kept])
                     ELSE X.e[s][f] \div d = X.e[kept][f] \div d
       IN  IF dup THEN {s} \cup DupSet(X, Tail(q), f, d, kept)
           ELSE DupSet(X, Tail(q), f, d, s)

(* ------------------------------ modification ---------------------------- *)

(* where s stands in index j after its value became v: it stays if that is *)
(* consistent, otherwise goes to the upper bound of its key                *)
Repositioned(X, j, s, v) ==
  LET d == X.ix[j]
      q == X.q[j]
      k == Key(d, v)
      p == PosOf(q, s)
      Y == [X EXCEPT !.q[j] = Without(q, {s})]
      fits == /\ p = 1 \/ KLeq(KeyOf(X, j, q[p - 1]), k)
              /\ p = Len(q) \/ KLeq(k, KeyOf(X, j, q[p + 1]))
      G == {m \in 1..Len(Y.q[j]) : KEq(KeyOf(X, j, Y.q[j][m]), k)}
  IN  IF Listy(d) THEN q
      ELSE IF Ordered(d) THEN IF fits THEN q ELSE InsertAfter(Y.q[j], CountLeq(Y, j, k), s)
      ELSE IF KEq(KeyOf(X, j, s), k) THEN q
      ELSE InsertAfter(Y.q[j], IF G = {} THEN Len(Y.q[j]) ELSE Max(G), s)

Modify(X, s, v) ==
  [X EXCEPT !.q = [j \in 1..Len(X.ix) |-> Repositioned(X, j, s, v)],
            !.e = [X.e EXCEPT ![s] = v]]
ModifyOK(X, s, v) == BlockersX(X, v, s) = {}
(* hashed indices whose order a change of s to v may alter                 *)
Rekeyed(X, s, v) == {j \in 1..Len(X.ix) :
                       Hashed(X.ix[j]) /\ ~KEq(KeyOf(X, j, s), Key(X.ix[j], v))}

(* s holding value v in its old place *)
InPlace(X, s, v) == [X EXCEPT !.e = [X.e EXCEPT ![s] = v]]
(* definitely consistent with its original position in every index         *)
StaysPut(X, s, v) == /\ BlockersX(X, v, s) = {}
                     /\ Rekeyed(X, s, v) = {}
                     /\ Sorted(InPlace(X, s, v))

(* ----------------------------- list operations -------------------------- *)

ValLess(f, sg, v, w) ==
  IF f = 0 THEN \/ v[1] < w[1]
                \/ v[1] = w[1] /\ v[2] < w[2]
                \/ v[1] = w[1] /\ v[2] = w[2] /\ v[3] < w[3]
  ELSE IF sg > 0 THEN v[f] < w[f] ELSE w[f] < v[f]
SetOrder(X, i, q)   == [X EXCEPT !.q[i] = q]
Sort(X, i, f, sg)   == SetOrder(X, i, StableSort(X.q[i], LAMBDA s, t : ValLess(f, sg, X.e[s], X.e[t])))
Reversed(X, i)      == SetOrder(X, i, Reverse(X.q[i]))
(* the elements of seg moved, in that order, right before pos              *)
Relocate(X, i, pos, seg) ==
  IF pos \in ToSet(seg) THEN X
  ELSE LET r == Without(X.q[i], ToSet(seg))
           n == Before(r, pos)
       IN  SetOrder(X, i, SubSeq(r, 1, n) \o seg \o SubSeq(r, n + 1, Len(r)))

(* ------------------------------- transfers ------------------------------ *)

(* the elements seg of S offered one by one to D, through index i of D     *)
RECURSIVE Transfer(_, _, _, _, _, _)
Transfer(D, S, seg, i, hk, h) ==
  IF seg = <<>> THEN [D |-> D, S |-> S]
  ELSE LET s == Head(seg)
       IN  IF Accepts(D, S.e[s])
           THEN Transfer(Link(D, s, S.e[s], i, hk, h), Erase(S, {s}), Tail(seg), i, hk, h)
           ELSE Transfer(D, S, Tail(seg), i, hk, h)
(* the same by copy and erasure, identities of the copies taken from fresh *)
RECURSIVE TransferCopy(_, _, _, _, _, _, _)
TransferCopy(D, S, seg, fresh, i, hk, h) ==
  IF seg = <<>> THEN [D |-> D, S |-> S]
  ELSE LET s == Head(seg)
           n == IF fresh = <<>> THEN 0 - Len(seg) ELSE Head(fresh)
       IN  IF Accepts(D, S.e[s])
           THEN TransferCopy(Link(D, n, S.e[s], i, hk, h), Erase(S, {s}), Tail(seg),
                             IF fresh = <<>> THEN <<>> ELSE Tail(fresh), i, hk, h)
           ELSE TransferCopy(D, S, Tail(seg), fresh, i, hk, h)

(* m : identity -> identity *)
Rename(X, m) ==
  [X EXCEPT !.q = [j \in 1..Len(X.ix) |-> [x \in 1..Len(X.q[j]) |-> m[X.q[j][x]]]],
            !.e = [t \in {m[s] : s \in Elems(X)} |->
                     X.e[CHOOSE s \in Elems(X) : m[s] = t]]]

(* -------------------------------- queries ------------------------------- *)

LowerBound(X, j, k) == AtOr0(X.q[j], CountLess(X, j, k) + 1)
UpperBound(X, j, k) == AtOr0(X.q[j], CountLeq(X, j, k) + 1)
FindFirst(X, j, k)  == LET g == Matching(X, j, k) IN IF g = <<>> THEN 0 ELSE g[1]

(* equality and lexicographical comparison of traversals by value          *)
SeqEqual(v, w) == Len(v) = Len(w) /\ \A m \in 1..Len(v) : SameVal(v[m], w[m])
RECURSIVE SeqLess(_, _)
SeqLess(v, w) == IF w = <<>> THEN FALSE
                 ELSE IF v = <<>> THEN TRUE
                 ELSE IF ValLess(0, 1, Head(v), Head(w)) THEN TRUE
                 ELSE IF ValLess(0, 1, Head(w), Head(v)) THEN FALSE
                 ELSE SeqLess(Tail(v), Tail(w))
Vals(X, j) == [m \in 1..Len(X.q[j]) |-> X.e[X.q[j][m]]]
Occ(q, v)  == Cardinality({m \in 1..Len(q) : SameVal(q[m], v)})
SamePermutation(v, w) == Len(v) = Len(w) /\ \A m \in 1..Len(v) : Occ(v, v[m]) = Occ(w, v[m])
(* hashed equality: for every key the same values up to permutation        *)
HashedEqual(X, Y, j) == SamePermutation(Vals(X, j), Vals(Y, j))
=============================================================================
