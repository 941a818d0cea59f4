------------------------------- MODULE MIModel -------------------------------
(***************************************************************************)
(* Bounded model of two multi_index containers and a node handle, built    *)
(* from the operators of MultiIndex: every history of the enabled          *)
(* operations over a small set of values is explored.                      *)
(*                                                                         *)
(* The listed properties are stated here independently of how the          *)
(* operators compute (invariants and action properties) and checked by TLC;*)
(* every transition is also emitted as a command for the conformance       *)
(* driver, so that walks covering the state graph are replayed in the real *)
(* code and validated against MITrace.                                     *)
(***************************************************************************)
EXTENDS MultiIndex, Json

CONSTANTS Ixs,      \* descriptors of the indices of container 1 and 2
          Cs,       \* the numbers of these containers in the driver
          Vals3,    \* values <<a, b, c>>
          MaxN,     \* elements per container
          Ops,      \* enabled operations
          Through,  \* indices operations go through
          Bs        \* containers operated upon (positions in Cs)

VARIABLES W,        \* the containers
          h,        \* the value held by the handle, or <<>>
          op        \* the transition that led here: name, arguments,
                    \* containers before and after, identities kept
vars == <<W, h, op>>
View == <<W, h>>

V4(v) == <<v[1], v[2], v[3], 0>>
Values == {V4(v) : v \in Vals3}
B == {1, 2}
On(o) == o \in Ops
Size(X) == Cardinality(Elems(X))

(* ------------------------- canonical identities ------------------------- *)

\* hashed order is unspecified: by key, then by the reference index
CanonHashed(X) ==
  LET r == RefIx(X.ix)
      kc(j, s, t) == KLess(KeyOf(X, j, s), KeyOf(X, j, t))
  IN  [X EXCEPT !.q = [j \in 1..Len(X.ix) |->
          IF Hashed(X.ix[j]) THEN StableSort(X.q[r], LAMBDA s, t : kc(j, s, t)) ELSE X.q[j]]]
CanonFrom(X, base) ==
  LET Y == CanonHashed(X)
      r == RefIx(X.ix)
      \* without an index of specified order, the elements go by value
      q == IF Hashed(X.ix[r]) THEN StableSort(Y.q[r], LAMBDA s, t : ValLess(0, 1, X.e[s], X.e[t])) ELSE Y.q[r]
  IN  Rename(Y, [s \in Elems(X) |-> base + PosOf(q, s)])
Canon(C) == <<CanonFrom(C[1], 0), CanonFrom(C[2], MaxN)>>
NewId == 100

(* ------------------------------ transitions ----------------------------- *)

\* the command: code c i ri p p2 c2 i2 way k values permutation
Cmd(code, c, i, p, p2, c2, i2, way, k, vs, pm) ==
  <<code, Cs[c], i - 1, RefIx(Ixs[c]) - 1, p, p2, Cs[c2], i2 - 1, way, k>>
  \o <<Len(vs)>> \o FoldLeft(LAMBDA x, v : x \o <<v[1], v[2], v[3]>>, <<>>, vs)
  \o <<Len(pm)>> \o pm
\* 0-based position of s in the reference index, or in index i
RefPos(X, s)   == Before(X.q[RefIx(X.ix)], s)
Pos0(X, i, s)  == Before(X.q[i], s)
Places(X)      == Elems(X) \cup {0}

Step(name, C2, h2, a, cmd) ==
  /\ W' = Canon(C2)
  /\ h' = h2
  /\ op' = [name |-> name, a |-> a, pre |-> W, post |-> C2, hpre |-> h, cmd |-> cmd]
Put(c, X) == [W EXCEPT ![c] = X]
RoomFor(c, n) == Size(W[c]) + n <= MaxN
\* (IF keeps TLC from taking the disjuncts for alternative steps)
May(c, v) == IF RoomFor(c, 1) THEN TRUE ELSE ~Accepts(W[c], v)
Ix(c) == {i \in 1..Len(Ixs[c]) : i \in Through}
Lists(c) == {i \in Ix(c) : Listy(Ixs[c][i])}
Keyed(c) == {i \in Ix(c) : ~Listy(Ixs[c][i])}

Ins == \E c \in Bs : \E i \in Ix(c), v \in Values :
  \/ /\ On("ins") /\ i \in Keyed(c) /\ May(c, v)
     /\ Step("ins", Put(c, Insert(W[c], NewId, v, i, 0, 0)), h, [c |-> c, i |-> i, v |-> v, hk |-> 0, e |-> 0],
             Cmd(1, c, i, 0, 0, c, 1, 0, 0, <<v>>, <<>>))
  \/ /\ On("hint") /\ i \in Keyed(c) /\ May(c, v)
     /\ \E e \in Places(W[c]) :
          Step("ins", Put(c, Insert(W[c], NewId, v, i, 1, e)), h, [c |-> c, i |-> i, v |-> v, hk |-> 1, e |-> e],
               Cmd(1, c, i, RefPos(W[c], e), 0, c, 1, 3, 0, <<v>>, <<>>))
  \/ /\ On("ins") /\ i \in Lists(c) /\ May(c, v)
     /\ \E e \in Places(W[c]) :
          Step("ins", Put(c, Insert(W[c], NewId, v, i, 2, e)), h, [c |-> c, i |-> i, v |-> v, hk |-> 2, e |-> e],
               Cmd(1, c, i, RefPos(W[c], e), 0, c, 1, 6, 0, <<v>>, <<>>))

Era == \E c \in Bs : \E i \in Ix(c), e \in Elems(W[c]) :
  /\ On("era")
  /\ Step("era", Put(c, Erase(W[c], {e})), h, [c |-> c, i |-> i, S |-> {e}],
          Cmd(3, c, i, RefPos(W[c], e), 0, c, 1, 0, 0, <<>>, <<>>))
Errg == \E c \in Bs : \E i \in {x \in Ix(c) : ~Hashed(Ixs[c][x])} : \E x, y \in 0..Size(W[c]) :
  /\ On("errg") /\ x <= y
  /\ LET S == ToSet(SubSeq(W[c].q[i], x + 1, y))
     IN  Step("era", Put(c, Erase(W[c], S)), h, [c |-> c, i |-> i, S |-> S],
              Cmd(4, c, i, x, y, c, 1, 0, 0, <<>>, <<>>))
Erk == \E c \in Bs : \E i \in Keyed(c), v \in Values :
  /\ On("erk")
  /\ LET S == ToSet(Matching(W[c], i, Key(Ixs[c][i], v)))
     IN  Step("era", Put(c, Erase(W[c], S)), h, [c |-> c, i |-> i, S |-> S],
              Cmd(5, c, i, 0, 0, c, 1, 0, 0, <<v>>, <<>>))
Clr == \E c \in Bs : \E i \in Ix(c) :
  /\ On("clr")
  /\ Step("era", Put(c, Empty(Ixs[c])), h, [c |-> c, i |-> i, S |-> Elems(W[c])],
          Cmd(6, c, i, 0, 0, c, 1, 0, 0, <<>>, <<>>))
Rem == \E c \in Bs : \E i \in Lists(c), v \in Values, f \in {0, 1, 2} :
  /\ On("rem")
  /\ LET S == RemoveSet(W[c], f, 2, v)
     IN  Step("era", Put(c, Erase(W[c], S)), h, [c |-> c, i |-> i, S |-> S],
              Cmd(7, c, i, 0, 0, c, 1, 0, f, <<v>>, <<>>))
Unq == \E c \in Bs : \E i \in Lists(c), f \in {0, 1, 2} :
  /\ On("unq")
  /\ LET S == DupSet(W[c], W[c].q[i], f, 1, 0)
     IN  Step("era", Put(c, Erase(W[c], S)), h, [c |-> c, i |-> i, S |-> S],
              Cmd(8, c, i, 0, 0, c, 1, 0, f, <<V4(<<0, 0, 0>>)>>, <<>>))

Repl == \E c \in Bs : \E i \in Ix(c), e \in Elems(W[c]), v \in Values :
  /\ On("repl")
  /\ Step("repl", Put(c, IF ModifyOK(W[c], e, v) THEN Modify(W[c], e, v) ELSE W[c]), h,
          [c |-> c, i |-> i, e |-> e, v |-> v], Cmd(9, c, i, RefPos(W[c], e), 0, c, 1, 0, 0, <<v>>, <<>>))
Modi == \E c \in Bs : \E i \in Ix(c), e \in Elems(W[c]), v \in Values, bk \in {0, 1} :
  /\ On("modi")
  /\ Step("modi", Put(c, IF ModifyOK(W[c], e, v) THEN Modify(W[c], e, v)
                         ELSE IF bk = 1 THEN W[c] ELSE Erase(W[c], {e})), h,
          [c |-> c, i |-> i, e |-> e, v |-> v, bk |-> bk],
          Cmd(10, c, i, RefPos(W[c], e), 0, c, 1, bk, 0, <<v>>, <<>>))

Ext == \E c \in Bs : \E i \in Ix(c), e \in Elems(W[c]) :
  /\ On("node")
  /\ Step("ext", Put(c, Erase(W[c], {e})), W[c].e[e], [c |-> c, i |-> i, S |-> {e}],
          Cmd(11, c, i, RefPos(W[c], e), 0, c, 1, 0, 0, <<>>, <<>>))
Extk == \E c \in Bs : \E i \in {x \in Keyed(c) : ~Hashed(Ixs[c][x])}, v \in Values :
  /\ On("node")
  /\ LET s == FindFirst(W[c], i, Key(Ixs[c][i], v))
     IN  IF s = 0 THEN Step("nhx", W, <<>>, [c |-> c], Cmd(12, c, i, 0, 0, c, 1, 0, 0, <<v>>, <<>>))
         ELSE Step("ext", Put(c, Erase(W[c], {s})), W[c].e[s], [c |-> c, i |-> i, S |-> {s}],
                   Cmd(12, c, i, 0, 0, c, 1, 0, 0, <<v>>, <<>>))
Nhi == \E c \in Bs : \E i \in Ix(c) : \E e \in (IF i \in Lists(c) \/ On("hint") THEN Places(W[c]) ELSE {0}) :
  /\ On("node") /\ (IF h = <<>> THEN TRUE ELSE May(c, h))
  /\ LET hk == IF i \in Lists(c) THEN 2 ELSE IF On("hint") THEN 1 ELSE 0
         ok == h # <<>> /\ Accepts(W[c], h)
     IN  Step("nhi", IF ok THEN Put(c, Link(W[c], NewId, h, i, hk, e)) ELSE W, IF ok THEN <<>> ELSE h,
              [c |-> c, i |-> i, v |-> h, hk |-> hk, e |-> e],
              Cmd(13, c, i, RefPos(W[c], e), 0, c, 1, IF hk = 1 THEN 1 ELSE 0, 0, <<>>, <<>>))
Nhm == \E v \in Values :
  /\ On("node") /\ h # <<>>
  /\ Step("nhm", W, v, [c |-> 1], Cmd(14, 1, 1, 0, 0, 1, 1, 0, 0, <<v>>, <<>>))
Nhx == /\ On("node") /\ h # <<>>
       /\ Step("nhx", W, <<>>, [c |-> 1], Cmd(15, 1, 1, 0, 0, 1, 1, 0, 0, <<>>, <<>>))

Xfer(c, d, i, i2, seg, pos, cmd) ==
  LET list == Listy(Ixs[c][i])
      R == Transfer(W[c], W[d], seg, i, IF list THEN 2 ELSE 0, pos)
  IN  /\ Size(R.D) <= MaxN
      /\ Step("mrg", [W EXCEPT ![c] = R.D, ![d] = R.S], h,
              [c |-> c, d |-> d, i |-> i, seg |-> seg, pos |-> pos, list |-> list], cmd)
Mrg == \E c \in Bs : LET d == 3 - c IN
  \E i \in Ix(c), i2 \in 1..Len(Ixs[d]) : \E pos \in (IF i \in Lists(c) THEN Places(W[c]) ELSE {0}) :
    LET k == RefPos(W[c], pos) IN
    \/ /\ On("mrg") /\ ~Hashed(Ixs[d][i2])
       /\ Xfer(c, d, i, i2, W[d].q[i2], pos, Cmd(16, c, i, 0, 0, d, i2, 0, k, <<>>, <<>>))
    \/ /\ On("mrg1") /\ ~Hashed(Ixs[d][i2])
       /\ \E e \in Elems(W[d]) :
            Xfer(c, d, i, i2, <<e>>, pos, Cmd(16, c, i, Pos0(W[d], i2, e), 0, d, i2, 1, k, <<>>, <<>>))
    \/ /\ On("mrgr") /\ ~Hashed(Ixs[d][i2])
       /\ \E x, y \in 0..Size(W[d]) : x < y /\
            Xfer(c, d, i, i2, SubSeq(W[d].q[i2], x + 1, y), pos, Cmd(16, c, i, x, y, d, i2, 2, k, <<>>, <<>>))
SortedBy(X, i, f) == \A m \in 1..(Size(X) - 1) : ~ValLess(f, 1, X.e[X.q[i][m + 1]], X.e[X.q[i][m]])
Smg == \E c \in Bs : LET d == 3 - c IN \E i \in Lists(c), f \in {0, 1, 2} :
  /\ On("smg") /\ Ixs[c] = Ixs[d] /\ SortedBy(W[c], i, f) /\ SortedBy(W[d], i, f)
  /\ LET R == Transfer(W[c], W[d], W[d].q[i], i, 0, 0)
     IN  /\ Size(R.D) <= MaxN
         /\ Step("smg", [W EXCEPT ![c] = Sort(R.D, i, f, 1), ![d] = R.S], h,
                 [c |-> c, d |-> d, i |-> i, f |-> f, seg |-> W[d].q[i], list |-> FALSE],
                 Cmd(17, c, i, 0, 0, d, 1, 0, f, <<>>, <<>>))

Srt == \E c \in Bs : \E i \in Lists(c), f \in {0, 1, 2}, sg \in {1, -1} :
  /\ On("sort") /\ (f = 0 => sg = 1)
  /\ Step("sort", Put(c, Sort(W[c], i, f, sg)), h, [c |-> c, i |-> i, f |-> f, sg |-> sg],
          Cmd(18, c, i, 0, 0, c, 1, 0, f + (IF sg = 1 THEN 0 ELSE 4), <<>>, <<>>))
Rev == \E c \in Bs : \E i \in Lists(c) :
  /\ On("rev")
  /\ Step("rev", Put(c, Reversed(W[c], i)), h, [c |-> c, i |-> i], Cmd(19, c, i, 0, 0, c, 1, 0, 0, <<>>, <<>>))
Rel1 == \E c \in Bs : \E i \in Lists(c), e \in Elems(W[c]), pos \in Places(W[c]) :
  /\ On("rel1")
  /\ Step("rel", Put(c, IF pos = e THEN W[c] ELSE Relocate(W[c], i, pos, <<e>>)), h,
          [c |-> c, i |-> i, seg |-> <<e>>, pos |-> pos],
          Cmd(20, c, i, RefPos(W[c], pos), RefPos(W[c], e), c, 1, 0, 0, <<>>, <<>>))
Relr == \E c \in Bs : \E i \in Lists(c) : \E x, y, p \in 0..Size(W[c]) :
  /\ On("relr") /\ x <= y /\ ~(p >= x /\ p < y)
  /\ LET seg == SubSeq(W[c].q[i], x + 1, y)
         pos == AtOr0(W[c].q[i], p + 1)
     IN  Step("rel", Put(c, Relocate(W[c], i, pos, seg)), h, [c |-> c, i |-> i, seg |-> seg, pos |-> pos],
              Cmd(21, c, i, x, y, c, 1, 0, p, <<>>, <<>>))
\* permutations by Lehmer code
RECURSIVE Lehmer(_, _)
Lehmer(q, code) == IF q = <<>> THEN <<>>
                   ELSE <<q[code[1] + 1]>> \o Lehmer(RemoveAt(q, code[1] + 1), Tail(code))
Codes(n) == {f \in [1..n -> 0..(n - 1)] : \A m \in 1..n : f[m] <= n - m}
Rear == \E c \in Bs : \E i \in Lists(c) : \E code \in Codes(Size(W[c])) :
  /\ On("rear")
  /\ Step("rear", Put(c, SetOrder(W[c], i, Lehmer(W[c].q[i], code))), h, [c |-> c, i |-> i],
          Cmd(22, c, i, 0, 0, c, 1, 0, 0, <<>>, code))

\* ranges: one value after the other, through the index
Insr == \E c \in Bs : \E i \in Ix(c) : \E v, u \in Values : \E e \in (IF i \in Lists(c) THEN Places(W[c]) ELSE {0}) :
  /\ On("insr")
  /\ LET R == InsertAll(W[c], <<v, u>>, <<NewId, NewId + 1>>, i, IF i \in Lists(c) THEN 2 ELSE 0, e)
     IN  /\ Size(R.X) <= MaxN
         /\ Step("insr", Put(c, R.X), h, [c |-> c, i |-> i, e |-> e],
                 Cmd(2, c, i, RefPos(W[c], e), 0, c, 1, 0, 0, <<v, u>>, <<>>))
Ser == \E c \in Bs : LET d == 3 - c IN
  /\ On("ser") /\ Ixs[c] = Ixs[d]
  /\ Step("cpy", Put(d, Rename(W[c], [s \in Elems(W[c]) |-> NewId + s])), h, [c |-> c, d |-> d],
          Cmd(32, c, 1, 0, 0, d, 1, 0, 0, <<>>, <<>>))

\* copies, moves and swaps between containers of the same type; and of a
\* container onto itself
CopyWays == {0, 4}
MoveWays == {2, 5}
Cpy == \E c \in Bs : LET d == 3 - c IN
  /\ On("cpy") /\ Ixs[c] = Ixs[d]
  /\ LET copy == Rename(W[c], [s \in Elems(W[c]) |-> NewId + s])
     IN  \/ \E way \in CopyWays :
              Step("cpy", Put(d, copy), h, [c |-> c, d |-> d], Cmd(23, c, 1, 0, 0, d, 1, way, 0, <<>>, <<>>))
         \/ \E way \in MoveWays :
              Step("move", [W EXCEPT ![d] = W[c], ![c] = Empty(Ixs[c])], h, [c |-> c, d |-> d],
                   Cmd(23, c, 1, 0, 0, d, 1, way, 0, <<>>, <<>>))
         \/ \E i \in Ix(c) :
              Step("swap", [W EXCEPT ![d] = W[c], ![c] = W[d]], h, [c |-> c, d |-> d],
                   Cmd(23, c, i, 0, 0, d, 1, IF i = 1 THEN 6 ELSE 10, 0, <<>>, <<>>))
         \/ Step("self", W, h, [c |-> c, d |-> c], Cmd(23, c, 1, 0, 0, c, 1, 4, 0, <<>>, <<>>))

\* queries leave everything as it is
Query == \E c \in Bs : \E i \in Ix(c), v \in Values : \E way \in (IF Listy(Ixs[c][i]) THEN {0} ELSE 0..3) :
  /\ On("look") /\ ~Listy(Ixs[c][i])
  /\ Step("look", W, h, [c |-> c], Cmd(24, c, i, 0, 0, c, 1, way, way, <<v>>, <<>>))
Ranges == \E c \in Bs : \E i \in {x \in Ix(c) : Ordered(Ixs[c][x])} : \E v, u \in Values :
  /\ On("rng")
  /\ Step("look", W, h, [c |-> c], Cmd(25, c, i, 0, 0, c, 1, 0, 0, <<v, u>>, <<>>))
Compares == \E c \in Bs : \E i \in Ix(c) : \E d \in B :
  /\ On("cmpc") /\ Ixs[c] = Ixs[d]
  /\ Step("look", W, h, [c |-> c], Cmd(31, c, i, 0, 0, d, 1, 0, 0, <<>>, <<>>))
Buckets == \E c \in Bs : \E i \in {x \in Ix(c) : Hashed(Ixs[c][x])} :
  \/ /\ On("bkt") /\ Step("look", W, h, [c |-> c], Cmd(29, c, i, 0, 0, c, 1, 0, 0, <<>>, <<>>))
  \/ /\ On("hpol") /\ \E way \in 0..1, k \in {0, 60, 200} :
          Step("look", W, h, [c |-> c], Cmd(28, c, i, 0, 0, c, 1, way, k, <<>>, <<>>))
Ranks == \E c \in Bs : \E i \in {x \in Ix(c) : Ranked(Ixs[c][x])} : \E p \in 0..Size(W[c]) :
  /\ On("rnk")
  /\ Step("rnk", W, h, [c |-> c], Cmd(26, c, i, p, 0, c, 1, 0, 0, <<>>, <<>>))
Positions == \E c \in Bs : \E i \in {x \in Lists(c) : Ixs[c][x].k = "ra"} : \E p, p2 \in 0..Size(W[c]) :
  /\ On("pos")
  /\ Step("pos", W, h, [c |-> c], Cmd(27, c, i, p, p2, c, 1, 0, 0, <<>>, <<>>))

Init == /\ W = <<Empty(Ixs[1]), Empty(Ixs[2])>>
        /\ h = <<>>
        /\ op = [name |-> "init"]
Next == \/ Ins \/ Era \/ Errg \/ Erk \/ Clr \/ Rem \/ Unq \/ Repl \/ Modi
        \/ Ext \/ Nhi \/ Nhm \/ Nhx \/ Mrg \/ Smg
        \/ Srt \/ Rev \/ Rel1 \/ Relr \/ Rear \/ Cpy \/ Insr \/ Ser \/ Extk
        \/ Query \/ Ranges \/ Compares \/ Buckets \/ Ranks \/ Positions
Spec == Init /\ [][Next]_vars

\* each transition once: source state, command, target state
Emit == PrintT("EDGE " \o ToJson(<<[x \in B |-> <<W[x].q, [s \in 1..Size(W[x]) |-> W[x].e[s + MaxN * (x - 1)]]>>], h>>)
               \o "|" \o ToJson(op'.cmd) \o "|"
               \o ToJson(<<[x \in B |-> <<W'[x].q, [s \in 1..Size(W'[x]) |-> W'[x].e[s + MaxN * (x - 1)]]>>], h'>>))

(* ---------------------------- state properties -------------------------- *)

P01_Agree == \A c \in B : Agree(W[c])
P02_Unique == \A c \in B : \A j \in 1..Len(Ixs[c]) : Unique(Ixs[c][j]) =>
                \A s, t \in Elems(W[c]) : s # t => ~KEq(KeyOf(W[c], j, s), KeyOf(W[c], j, t))
P03_Sorted == \A c \in B : Sorted(W[c])
P06_Grouped == \A c \in B : Grouped(W[c])
\* lookups cut the traversal where the key says
P04_Bounds == \A c \in B : \A j \in 1..Len(Ixs[c]) : Ordered(Ixs[c][j]) =>
  \A v \in Values :
    LET X == W[c]
        k == Key(Ixs[c][j], v)
        q == X.q[j]
        lo == CountLess(X, j, k)
        hi == CountLeq(X, j, k)
    IN  /\ lo <= hi
        /\ \A m \in 1..Len(q) : (m <= lo) <=> KLess(KeyOf(X, j, q[m]), k)
        /\ \A m \in 1..Len(q) : (m > hi) <=> KLess(k, KeyOf(X, j, q[m]))
        /\ Matching(X, j, k) = SubSeq(q, lo + 1, hi)
        /\ LowerBound(X, j, k) = AtOr0(q, lo + 1) /\ UpperBound(X, j, k) = AtOr0(q, hi + 1)
        /\ FindFirst(X, j, k) # 0 <=> lo < hi
        /\ Unique(Ixs[c][j]) => hi - lo <= 1
\* ranks and elements correspond one to one
P05_Ranks == \A c \in B : \A j \in 1..Len(Ixs[c]) : Ranked(Ixs[c][j]) =>
  LET q == W[c].q[j] IN \A m \in 1..Len(q) : Before(q, q[m]) = m - 1 /\ AtOr0(q, m) = q[m]
P06_Find == \A c \in B : \A j \in 1..Len(Ixs[c]) : Hashed(Ixs[c][j]) =>
  \A v \in Values :
    LET X == W[c]
        g == Matching(X, j, Key(Ixs[c][j], v))
    IN  /\ ToSet(g) = {s \in Elems(X) : KEq(KeyOf(X, j, s), Key(Ixs[c][j], v))}
        /\ \E a, b \in 0..Size(X) : g = SubSeq(X.q[j], a + 1, b)
\* a shorter key selects all the keys it is a prefix of
P21_Prefix == \A c \in B : \A j \in 1..Len(Ixs[c]) : (Ordered(Ixs[c][j]) /\ Len(Ixs[c][j].p) > 1) =>
  \A v \in Values :
    LET X == W[c]
        k == SubSeq(Key(Ixs[c][j], v), 1, 1)
    IN  /\ ToSet(Matching(X, j, k)) = {s \in Elems(X) : KeyOf(X, j, s)[1] = k[1]}
        /\ Matching(X, j, k) = SubSeq(X.q[j], CountLess(X, j, k) + 1, CountLeq(X, j, k))
P22_Compare == (Ixs[1] = Ixs[2]) => \A j \in 1..Len(Ixs[1]) : ~Hashed(Ixs[1][j]) =>
  LET v == Vals(W[1], j)
      w == Vals(W[2], j)
  IN  /\ ~(SeqLess(v, w) /\ SeqLess(w, v))
      /\ SeqEqual(v, w) <=> (~SeqLess(v, w) /\ ~SeqLess(w, v))

(* ---------------------------- action properties ------------------------- *)

Kept(X, Y) == Elems(X) \cap Elems(Y)
\* elements both have keep their value, and their order in the indices J
Frame(X, Y, J) == /\ \A s \in Kept(X, Y) : X.e[s] = Y.e[s]
                  /\ \A j \in J : Only(X.q[j], Elems(Y)) = Only(Y.q[j], Elems(X))
All(X) == 1..Len(X.ix)
Others(o) == \A c \in B \ {o.a.c} : o.pre[c] = o.post[c]
In(N, P(_)) == op'.name \in N => P(op')

\* insertion: all or nothing, in its place
InsertProp(o) ==
  LET X == o.pre[o.a.c]
      Y == o.post[o.a.c]
      v == o.a.v
      banned == \E s \in Elems(X), j \in All(X) : Unique(X.ix[j]) /\ KeyOf(X, j, s) = Key(X.ix[j], v)
  IN  /\ Others(o)
      /\ v # <<>> => banned = (X = Y)
      /\ v # <<>> /\ ~banned =>
           /\ Elems(Y) = Elems(X) \cup {NewId} /\ Y.e[NewId] = v
           /\ Frame(X, Y, All(X))
           /\ \A j \in All(X) :
                LET q == Y.q[j]
                    p == PosOf(q, NewId)
                IN  /\ Listy(X.ix[j]) /\ j # o.a.i => p = Len(q)
                    /\ Listy(X.ix[j]) /\ j = o.a.i /\ o.a.hk = 2 => AtOr0(q, p + 1) = o.a.e
                    /\ Ordered(X.ix[j]) /\ (j # o.a.i \/ o.a.hk = 0) =>
                         \A m \in 1..Len(q) : m > p => KLess(Key(X.ix[j], v), KeyOf(Y, j, q[m]))
                    \* as close before the hint as the order allows
                    /\ Ordered(X.ix[j]) /\ j = o.a.i /\ o.a.hk = 1 =>
                         LET n == Before(X.q[j], o.a.e) + 1
                             d == IF p > n THEN p - n ELSE n - p
                         IN  \A r \in 1..Len(q) :
                               SortedIx([Y EXCEPT !.q[j] = InsertAfter(X.q[j], r - 1, NewId)], j)
                                 => d <= (IF r > n THEN r - n ELSE n - r)
\* what a range insertion leaves out was banned, what it takes is there
RangeProp(o) ==
  LET X == o.pre[o.a.c]
      Y == o.post[o.a.c]
  IN  /\ Others(o) /\ Elems(X) \subseteq Elems(Y) /\ Frame(X, Y, All(X))
      /\ Listy(X.ix[o.a.i]) => Only(Y.q[o.a.i], Elems(Y) \ Elems(X)) = SetToSortSeq(Elems(Y) \ Elems(X), <)
P02_Range == [][In({"insr"}, RangeProp)]_vars
P02_Insert == [][In({"ins", "nhi"}, InsertProp)]_vars

EraseProp(o) ==
  LET X == o.pre[o.a.c]
      Y == o.post[o.a.c]
  IN  /\ Others(o)
      /\ Elems(Y) = Elems(X) \ o.a.S
      /\ Frame(X, Y, All(X))
P11_Erase == [][In({"era", "ext"}, EraseProp)]_vars

\* what leaves a container is in the handle, what enters leaves the handle
NodeProp(o) ==
  LET n(C) == Size(C[1]) + Size(C[2])
      hn(x) == IF x = <<>> THEN 0 ELSE 1
  IN  CASE o.name = "ext" -> h' = o.pre[o.a.c].e[CHOOSE s \in o.a.S : TRUE]
        [] o.name = "nhi" -> /\ n(o.pre) + hn(o.hpre) = n(o.post) + hn(h')
                             /\ h' # <<>> => h' = o.hpre /\ o.pre = o.post
        [] o.name \in {"nhm", "nhx"} -> o.pre = o.post
P14_Node == [][In({"ext", "nhi", "nhm", "nhx"}, NodeProp)]_vars

ModProp(o) ==
  LET X == o.pre[o.a.c]
      Y == o.post[o.a.c]
      s == o.a.e
      v == o.a.v
      ok == \A t \in Elems(X) \ {s}, j \in All(X) : Unique(X.ix[j]) => KeyOf(X, j, t) # Key(X.ix[j], v)
      rest(Z) == Erase(Z, {s})
  IN  /\ Others(o)
      /\ rest(X).e = rest(Y).e /\ \A j \in All(X) : rest(X).q[j] = rest(Y).q[j]
      /\ ok => /\ Elems(X) = Elems(Y) /\ Y.e[s] = v
               /\ \A j \in All(X) :
                    \* whatever need not move stays: lists always, keyed indices when the old place is consistent
                    (Listy(X.ix[j]) \/ (Ordered(X.ix[j]) /\ SortedIx(InPlace(X, s, v), j))) => X.q[j] = Y.q[j]
      /\ ~ok /\ o.name = "repl" => X = Y
      /\ ~ok /\ o.name = "modi" => IF o.a.bk = 1 THEN X = Y ELSE Elems(Y) = Elems(X) \ {s}
P10_Modify == [][In({"repl", "modi"}, ModProp)]_vars
RollProp(o) == (o.a.bk = 1 /\ ~ModifyOK(o.pre[o.a.c], o.a.e, o.a.v)) => o.post = o.pre
P12_Rollback == [][In({"modi"}, RollProp)]_vars

\* nothing is lost or duplicated; what stays behind is banned at the end
MergeProp(o) ==
  LET D == o.pre[o.a.c]
      S == o.pre[o.a.d]
      D2 == o.post[o.a.c]
      S2 == o.post[o.a.d]
      moved == Elems(S) \ Elems(S2)
  IN  /\ Elems(D2) = Elems(D) \cup moved /\ moved \subseteq ToSet(o.a.seg)
      /\ \A s \in moved : D2.e[s] = S.e[s]
      /\ \A s \in ToSet(o.a.seg) \ moved : ~Accepts(D2, S.e[s])
      /\ Frame(D, D2, {j \in All(D) : ~(o.name = "smg" /\ j = o.a.i)}) /\ Frame(S, S2, All(S))
      /\ o.a.list =>
           LET q == D2.q[o.a.i]
               g == Only(o.a.seg, moved)
           IN  \E m \in 0..Len(q) : /\ SubSeq(q, m + 1, m + Len(g)) = g
                                    /\ g # <<>> => AtOr0(q, m + Len(g) + 1) = o.a.pos
P15_Merge == [][In({"mrg", "smg"}, MergeProp)]_vars

Permuted(o) == LET X == o.pre[o.a.c]
                   Y == o.post[o.a.c]
               IN  /\ Others(o) /\ X.e = Y.e
                   /\ \A j \in All(X) \ {o.a.i} : X.q[j] = Y.q[j]
                   /\ ToSet(X.q[o.a.i]) = ToSet(Y.q[o.a.i]) /\ Len(X.q[o.a.i]) = Len(Y.q[o.a.i])
ListProp(o) ==
  LET X == o.pre[o.a.c]
      q == X.q[o.a.i]
      r == o.post[o.a.c].q[o.a.i]
  IN  /\ Permuted(o)
      /\ o.name = "rev" => \A m \in 1..Len(q) : r[m] = q[Len(q) + 1 - m]
      /\ o.name = "sort" => \A m, n \in 1..Len(r) : m < n =>
                              /\ ~ValLess(o.a.f, o.a.sg, X.e[r[n]], X.e[r[m]])
                              /\ ~ValLess(o.a.f, o.a.sg, X.e[r[m]], X.e[r[n]]) => PosOf(q, r[m]) < PosOf(q, r[n])
      /\ o.name = "rel" =>
           /\ Without(q, ToSet(o.a.seg)) = Without(r, ToSet(o.a.seg))
           /\ Only(r, ToSet(o.a.seg)) = o.a.seg
           /\ o.a.seg # <<>> /\ o.a.pos \notin ToSet(o.a.seg) =>
                /\ AtOr0(r, PosOf(r, o.a.seg[Len(o.a.seg)]) + 1) = o.a.pos
                /\ PosOf(r, o.a.seg[Len(o.a.seg)]) - PosOf(r, o.a.seg[1]) = Len(o.a.seg) - 1
P08_Lists == [][In({"rev", "sort", "rel", "rear"}, ListProp)]_vars

CopyProp(o) ==
  LET X == o.pre[o.a.c]
      d == o.a.d
  IN  CASE o.name = "cpy" -> /\ o.post[o.a.c] = X
                             /\ \A j \in All(X) : Vals(X, j) = Vals(o.post[d], j)
                             /\ Elems(X) \cap Elems(o.post[d]) = {}
        [] o.name = "move" -> o.post[d] = X /\ Elems(o.post[o.a.c]) = {}
        [] o.name = "swap" -> o.post[d] = X /\ o.post[o.a.c] = o.pre[d]
        [] OTHER -> o.pre = o.post
P16_Copies == [][In({"cpy", "move", "swap", "self"}, CopyProp)]_vars
\* an element that survives keeps its identity and, unless assigned, its value
P17_Stable == [][op'.name \notin {"init"} =>
  \A c, d \in B : \A s \in Elems(op'.pre[c]) \cap Elems(op'.post[d]) :
     (op'.name \in {"repl", "modi"} /\ s = op'.a.e) \/ op'.pre[c].e[s] = op'.post[d].e[s]]_vars
QueryProp(o) == o.pre = o.post /\ h' = o.hpre
P04_Pure == [][In({"look", "rnk", "pos"}, QueryProp)]_vars
=============================================================================
