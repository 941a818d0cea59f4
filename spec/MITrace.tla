------------------------------- MODULE MITrace -------------------------------
(***************************************************************************)
(* Validation of executions recorded from the real containers.            *)
(*                                                                         *)
(* The log has one event per public call: its arguments, its results, how  *)
(* it ended (x: 0 returned, otherwise the kind of exception) and the       *)
(* projected state of every container and node handle the call changed.    *)
(* For each event the expected outcome is computed from the previous state *)
(* with the functions of MultiIndex; err is the set of <<property, what>>  *)
(* the observed outcome contradicts.  The state is then taken from the     *)
(* log.  After a contradiction the rest of that trace is skipped.          *)
(***************************************************************************)
EXTENDS SafeMode, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next line of the log
          T,      \* index descriptors of the three containers
          W,      \* their states [ix, q, e, hp, al]
          H,      \* the two node handles: <<>> or <<identity, value, allocator>>
          SL,     \* held iterators: id -> [sn, c], in safe mode a tracked iterator
          bad,    \* lifetime error counters seen so far
          LO,     \* container -> properties of its last hard to observe operation
          dirty   \* the current trace has been rejected
vars == <<l, T, W, H, SL, bad, LO, dirty>>

C3 == 1..3
\* the executions were recorded in safe mode
Safe == "sf" \in DOMAIN Log[1]
\* a failing clause
F(ok, what, props) == IF ok THEN {} ELSE {<<p, what>> : p \in props}

(* ------------------------- what an event logged ------------------------- *)

Bit(n, b) == (n \div b) % 2 = 1
Dumped(ev) == {ev.s[m].c : m \in 1..Len(ev.s)}
DumpOf(ev, c) == ev.s[CHOOSE m \in 1..Len(ev.s) : ev.s[m].c = c]
\* a dump that can be adopted: all traversals are permutations of one another
DumpOK(d) == LET S == ToSet(d.q[1])
             IN  /\ ~Bit(d.g, 4096) /\ ~Bit(d.g, 512)
                 /\ Len(d.v) = Len(d.q[1])
                 /\ \A j \in 1..Len(d.q) : /\ Len(d.q[j]) = Cardinality(S)
                                           /\ ToSet(d.q[j]) = S
                                           /\ d.z[j] = Cardinality(S)
\* descriptors with the function objects in their observed states: a state of
\* 1 reverses an ordering and doubles the divisors of an equivalence
WithState(ix, fs) ==
  [j \in 1..Len(ix) |->
     IF fs[j] # 1 THEN ix[j]
     ELSE [ix[j] EXCEPT !.p = [m \in 1..Len(ix[j].p) |->
             LET t == ix[j].p[m]
             IN  IF Ordered(ix[j]) THEN <<t[1], t[2], -t[3]>> ELSE <<t[1], 2 * t[2], t[3]>>]]]
Adopt(ix, d) == [ix |-> WithState(ix, d.fs), q |-> d.q,
                 e |-> [s \in ToSet(d.q[1]) |-> d.v[PosOf(d.q[1], s)]],
                 hp |-> d.hp, al |-> d.al]
Post(ev) == [c \in C3 |-> IF c \in Dumped(ev) THEN Adopt(T[c], DumpOf(ev, c)) ELSE W[c]]
PostH(ev) == IF ev.h = <<>> THEN H ELSE ev.h

KindProp(d) == IF Ordered(d) THEN "P03" ELSE IF Hashed(d) THEN "P06"
               ELSE IF d.k = "sq" THEN "P08" ELSE "P09"
LookProp(d) == IF Ordered(d) THEN "P04" ELSE "P06"

(* properties of the API checked at every step by the driver's projection  *)
DumpErr(ev, c, own) ==
  LET d == DumpOf(ev, c)
      kinds == UNION {LET x == T[c][j] IN
                        IF j > Len(d.q) \/ j > Len(d.z) THEN {}
                        ELSE IF /\ Len(d.q[j]) = d.z[j]
                                /\ Cardinality(ToSet(d.q[j])) = d.z[j]
                                /\ ToSet(d.q[j]) = ToSet(d.q[1]) THEN {}
                        ELSE {KindProp(x)} \cup IF Hashed(x) THEN {"P07"} ELSE {} : j \in 1..Len(T[c])}
  IN  F(DumpOK(d), "indices disagree", {"P01"} \cup kinds \cup own)
      \cup F(d.g % 32 = 0 /\ ~Bit(d.g, 512) /\ ~Bit(d.g, 1024) /\ ~Bit(d.g, 4096),
             "traversal, projection or size", {"P01"} \cup own)
      \cup F(~Bit(d.g, 32), "positional access", {"P09"} \cup own)
      \cup F(~Bit(d.g, 64), "front/back", {"P08", "P09"} \cup own)
      \cup F(~Bit(d.g, 128), "rank/nth", {"P05"} \cup own)
      \cup F(~Bit(d.g, 256), "buckets", {"P06", "P07"} \cup own)
      \cup F(~Bit(d.g, 8192), "value_comp", {"P03", "P04"} \cup own)
      \cup F(-1 \notin ToSet(d.fs), "function objects disagree", {"P16"} \cup own)
StateErr(X, own) ==
  UNION {LET d == X.ix[j]
         IN  IF Ordered(d) THEN F(SortedIx(X, j), "order broken", own \cup {"P03"} \cup IF Unique(d) THEN {"P02"} ELSE {})
             ELSE IF Hashed(d) THEN F(GroupedIx(X, j), "groups broken", own \cup {"P06"} \cup IF Unique(d) THEN {"P02"} ELSE {})
             ELSE {} : j \in 1..Len(X.ix)}

(* observed container A against expected X; the order of the hashed        *)
(* indices in loose is only constrained through S, the elements of V       *)
(* (their previous state) whose relative order counts                      *)
SameAs(X, A, V, loose, own) ==
  F(Elems(A) = Elems(X), "elements", own)
  \cup F(A.ix = X.ix, "function objects", own \cup {"P16"})
  \cup F(Elems(A) # Elems(X) \/ A.e = X.e, "values", own)
  \cup (IF Elems(A) # Elems(X) THEN {} ELSE
    UNION {LET d == X.ix[j]
               S == {s \in Elems(X) \cap Elems(V) : KEq(KeyOf(X, j, s), KeyOf(V, j, s))}
           IN  F(IF j \in loose
                 THEN HashedOK(V.q[j], A.q[j], S, LAMBDA s : KeyOf(X, j, s))
                 ELSE A.q[j] = X.q[j],
                 "order of index " \o ToString(j), own \cup {KindProp(d)}) : j \in 1..Len(X.ix)})

HashedIxs(X) == {j \in 1..Len(X.ix) : Hashed(X.ix[j])}
Rest(c, A) == F(A[c] = W[c], "another container changed", {})

(* --------------------------- storage policies --------------------------- *)

LoadOK(X, j) == Cardinality(Elems(X)) * 100 <= X.hp[j][2] * X.hp[j][1]
Size(X) == Cardinality(Elems(X))
\* mode "same": nothing may change; "grow": room may grow when more than n
\* elements needed it; "any": only the load/capacity rules hold; "free":
\* nothing is required of buckets
PolicyErr(X, A, mode, n, own) ==
  UNION {LET d == A.ix[j] IN
    IF Hashed(d) THEN
      CASE mode = "same" -> F(A.hp[j] = X.hp[j], "bucket policy changed", {"P07"} \cup own)
        [] mode = "grow" ->
             F(/\ A.hp[j][2] = X.hp[j][2]
               /\ A.hp[j][1] # X.hp[j][1] => /\ A.hp[j][1] > X.hp[j][1]
                                             /\ n * 100 > X.hp[j][2] * X.hp[j][1]
               /\ Elems(A) \ Elems(X) # {} => LoadOK(A, j),
               "bucket growth", {"P07"} \cup own)
        [] mode = "any" -> F(LoadOK(A, j), "load factor", {"P07"} \cup own)
        [] OTHER -> {}
    ELSE IF d.k = "ra" THEN
      CASE mode = "grow" ->
             F(/\ A.hp[j][1] >= Size(A)
               /\ A.hp[j][1] # X.hp[j][1] => A.hp[j][1] > X.hp[j][1] /\ n > X.hp[j][1],
               "capacity growth", {"P09"} \cup own)
        [] OTHER -> F(A.hp[j][1] >= Size(A), "capacity below size", {"P09"} \cup own)
    ELSE {} : j \in 1..Len(A.ix)}

(* ------------------------ expected outcomes ------------------------------ *)
(* An expectation is a record                                              *)
(*   E : containers involved -> expected state (only q, e are meaningful)  *)
(*   V : container -> its previous state, for hashed order                 *)
(*   L : container -> hashed indices free to reorder                       *)
(*   H : the handles                                                       *)
(*   R : failing result clauses                                            *)
(*   M : container -> policy mode, N : its element demand                  *)

NoH == H
Exp1(c, X, L, R, mode, n) ==
  [E |-> (c :> X), V |-> (c :> W[c]), L |-> (c :> L), H |-> H, R |-> R,
   M |-> (c :> mode), N |-> (c :> n)]
Same(c, R) == Exp1(c, W[c], {}, R, "same", 0)

Fresh(A, B) == SetToSortSeq(Elems(A) \ Elems(B), <)
OwnList(d) == IF Listy(d) THEN {KindProp(d)} ELSE {}

(* the effect of a hint on ordered indices other than the one of the call  *)
(* is not specified: take what A shows among the two possibilities         *)
LinkSeen(X, s, v, i, hk, h, A) ==
  IF hk # 1 THEN Link(X, s, v, i, hk, h)
  ELSE LET Y == LinkAt(X, s, v, i, hk, h, OrderedIxs(X))
       IN  LinkAt(X, s, v, i, hk, h, {j \in OrderedIxs(X) : A.q[j] = Y.q[j]})

ExpIns(ev, A) ==
  LET c == ev.c
      X == W[c]
      d == X.ix[ev.i]
      B == Blockers(X, ev.v)
      f == Fresh(A[c], X)
      own == {"P02"} \cup OwnList(d)
      s == IF f = <<>> THEN -1 ELSE f[1]
  IN  Exp1(c, IF B = {} THEN LinkSeen(X, s, ev.v, ev.i, ev.hk, ev.e, A[c]) ELSE X, HashedIxs(X),
           F(ev.ok = -1 \/ ev.ok = (IF B = {} THEN 1 ELSE 0), "result flag", own)
           \cup F(IF B = {} THEN ev.r = s ELSE ev.r \in B, "result position", own),
           "grow", Size(X) + 1)

(* contents built from a range: one by one or with chained hints; through  *)
(* a hashed first index the chain visits unspecified places                *)
Built(X0, vs, f, i, hk, h, whole, A) ==
  LET P == InsertAll(X0, vs, f, i, hk, h)
      Q == InsertChained(X0, vs, f, 0)
      Adopted == [P EXCEPT !.X.q = [j \in 1..Len(X0.ix) |->
                                      IF Ordered(X0.ix[j]) THEN A.q[j] ELSE P.X.q[j]]]
  IN  IF ~whole THEN P
      ELSE IF Hashed(X0.ix[1]) THEN Adopted
      ELSE IF \A j \in OrderedIxs(X0) : A.q[j] = Q.X.q[j] THEN Q ELSE P

ExpInsr(ev, A) ==
  LET c == ev.c
      X == W[c]
      d == X.ix[ev.i]
      X0 == IF ev.clr = 1 THEN Empty(X.ix)
            ELSE IF ev.er > 0 THEN Erase(X, ToSet(SubSeq(X.q[ev.i], Size(X) - ev.er + 1, Size(X))))
            ELSE [ix |-> X.ix, q |-> X.q, e |-> X.e]
      f == Fresh(A[c], X)
      whole == ev.clr = 1 /\ (~Listy(d) \/ ev.way = 7)     \* assignment of the whole container
      X1 == Built(X0, ev.vs, f, ev.i, ev.hk, ev.e, whole, A[c])
  IN  Exp1(c, X1.X, HashedIxs(X),
           F(X1.f = <<>>, "elements invented", {"P02"}),
           IF ev.clr = 1 THEN "any" ELSE "grow", Max2(Size(X), Size(X0) + Len(ev.vs)) + 1)

ExpErase(ev, A) ==
  LET c == ev.c
      X == W[c]
      own == {"P11"}
      M == Matching(X, ev.i, Key(X.ix[ev.i], ev.v))
      S == CASE ev.op = "era" -> {ev.e}
             [] ev.op = "errg" -> ToSet(Slice(X.q[ev.i], ev.e, ev.e2))
             [] ev.op = "erk" -> ToSet(M)
             [] ev.op = "clr" -> Elems(X)
             [] ev.op = "rem" -> RemoveSet(X, ev.f, ev.d, ev.v)
             [] ev.op = "unq" -> DupSet(X, X.q[ev.i], ev.f, ev.d, 0)
      R == CASE ev.op = "era" -> F(ev.r = -1 \/ ev.r = Following(X, ev.i, ev.e), "returned position", own)
             [] ev.op = "errg" -> F(ev.r = ev.e2, "returned position", own)
             [] ev.op = "erk" -> F(ev.r = Len(M), "returned count", own)
             [] OTHER -> {}
  IN  Exp1(c, Erase(X, S), {}, R, "same", 0)

ExpMod(ev, A) ==
  LET c == ev.c
      X == W[c]
      ok == ModifyOK(X, ev.e, ev.v)
      own == IF ev.bk > 0 /\ ~ok THEN {"P10", "P12"} ELSE {"P10"}
      kept == ev.e \in Elems(A[c])
      R == F(ev.ok = (IF ok THEN 1 ELSE 0), "result", own)
           \cup (IF ev.op = "modi" THEN F(ev.bkd = (IF ok \/ ev.bk = 0 THEN 0 ELSE 1), "rollback called", {"P12"})
                 ELSE {})
      X2 == IF ok THEN Modify(X, ev.e, ev.v)
            ELSE IF ev.op = "repl" THEN X
            ELSE IF ev.bk = 0 THEN Erase(X, {ev.e})
            ELSE IF StaysPut(X, ev.e, ev.bv) THEN InPlace(X, ev.e, ev.bv)
            ELSE IF kept THEN InPlace(X, ev.e, ev.bv)   \* must then be consistent: StateErr
            ELSE Erase(X, {ev.e})
  IN  Exp1(c, X2, IF ok THEN Rekeyed(X, ev.e, ev.v) ELSE {}, R, "same", 0)

(* modify whose modifier, rollback or a user operation threw               *)
ExpModX(ev, A) ==
  LET c == ev.c
      X == W[c]
      kept == ev.e \in Elems(A[c])
      survives == ev.bk > 0 /\ ev.bf = 1 /\ ev.x \notin {4, 5}
      X2 == IF ~survives THEN Erase(X, {ev.e})
            ELSE IF StaysPut(X, ev.e, ev.bv) THEN InPlace(X, ev.e, ev.bv)
            ELSE IF kept THEN InPlace(X, ev.e, ev.bv)
            ELSE Erase(X, {ev.e})
  IN  Exp1(c, X2, {}, {}, "same", 0)

ExpNode(ev, A) ==
  LET c == ev.c
      X == W[c]
      k == ev.hs
      hd == H[k]
      own == {"P14"}
  IN CASE ev.op = "ext" ->
            [Exp1(c, Erase(X, {ev.e}), {}, {}, "same", 0) EXCEPT
               !.H = [H EXCEPT ![k] = <<ev.e, X.e[ev.e], X.al>>]]
       [] ev.op = "extk" ->
            LET s == FindFirst(X, ev.i, Key(X.ix[ev.i], ev.v))
                \* hashed indices: any of the equivalent elements comes first
                s1 == s
            IN  [Exp1(c, IF s = 0 THEN X ELSE Erase(X, {s1}), {},
                      F(ev.got = (IF s = 0 THEN 0 ELSE 1), "extracted", own), "same", 0) EXCEPT
                   !.H = [H EXCEPT ![k] = IF s = 0 THEN <<>> ELSE <<s1, X.e[s1], X.al>>]]
       [] ev.op = "nhi" ->
            IF hd = <<>> THEN
              Same(c, F(ev.ok \in {0, -1} /\ ev.r = 0, "empty handle", own))
            ELSE
              LET B == Blockers(X, hd[2])
                  ok == B = {}
                  R == F(ev.ok = -1 \/ ev.ok = (IF ok THEN 1 ELSE 0), "result flag", own \cup {"P02"})
                       \cup F(IF ok THEN ev.r = hd[1] ELSE ev.r \in B, "result position", own)
                       \cup (IF ev.hk = 1 THEN {} ELSE F(ev.mt = 1, "handle not emptied", own))
              IN  [Exp1(c, IF ok THEN LinkSeen(X, hd[1], hd[2], ev.i, ev.hk, ev.e, A[c]) ELSE X,
                        HashedIxs(X), R, "grow", Size(X) + 1) EXCEPT
                     !.H = IF ok THEN [H EXCEPT ![k] = <<>>] ELSE H]
       [] ev.op = "nhm" ->
            [Same(c, {}) EXCEPT !.H = [H EXCEPT ![k] = <<hd[1], ev.v, hd[3]>>]]
       [] ev.op = "nhx" ->
            [Same(c, IF ev.way = 3 THEN F(ev.mt = 1, "moved-from handle not empty", own) ELSE {}) EXCEPT
               !.H = CASE ev.way = 0 -> [H EXCEPT ![k] = <<>>]
                       [] ev.way = 1 -> [H EXCEPT ![3 - k] = hd, ![k] = <<>>]
                       [] ev.way \in {2, 4} -> <<H[2], H[1]>>
                       [] OTHER -> H]

ExpXfer(ev, A) ==
  LET c == ev.c
      c2 == ev.c2
      D == W[c]
      S == W[c2]
      own == {"P15"}
      seg == CASE ev.way = 0 -> S.q[ev.i2]
               [] ev.way = 1 -> <<ev.e>>
               [] OTHER -> Slice(S.q[ev.i2], ev.e, ev.e2)
      list == ev.pos >= 0
      hk == IF list THEN 2 ELSE 0
      h == IF list THEN ev.pos ELSE 0
      X == IF ev.eqal = 1 THEN Transfer(D, S, seg, ev.i, hk, h)
           ELSE TransferCopy(D, S, seg, Fresh(A[c], D), ev.i, hk, h)
      B == Blockers(D, S.e[ev.e])
      R == IF ev.way # 1 \/ ev.r = <<>> THEN {}
           ELSE IF c = c2 THEN F(ev.r = <<ev.e, 1>>, "result", own)
           ELSE IF B # {} THEN F(ev.r[2] = 0 /\ ev.r[1] \in B, "result", own)
           ELSE F(/\ ev.r[2] = 1
                  /\ ev.r[1] = (IF ev.eqal = 1 THEN ev.e ELSE AtOr0(Fresh(A[c], D), 1)), "result", own)
  IN  IF c = c2 THEN
        Exp1(c, IF list THEN Relocate(D, ev.i, ev.pos, seg) ELSE D, {}, R, "same", 0)
      ELSE [E |-> (c :> X.D) @@ (c2 :> X.S), V |-> (c :> D) @@ (c2 :> S),
            L |-> (c :> HashedIxs(D)) @@ (c2 :> {}), H |-> H, R |-> R,
            M |-> (c :> "grow") @@ (c2 :> "same"),
            N |-> (c :> Size(D) + Len(seg) + 1) @@ (c2 :> 0)]

ExpSmg(ev, A) ==
  LET c == ev.c
      c2 == ev.c2
      D == W[c]
      S == W[c2]
      seg == S.q[ev.i]
      X == IF D.al = S.al THEN Transfer(D, S, seg, ev.i, 0, 0)
           ELSE TransferCopy(D, S, seg, Fresh(A[c], D), ev.i, 0, 0)
  IN  IF c = c2 THEN Same(c, {})
      ELSE [E |-> (c :> Sort(X.D, ev.i, ev.f, ev.sg)) @@ (c2 :> X.S), V |-> (c :> D) @@ (c2 :> S),
            L |-> (c :> HashedIxs(D)) @@ (c2 :> {}), H |-> H, R |-> {},
            M |-> (c :> "grow") @@ (c2 :> "same"),
            N |-> (c :> Size(D) + Len(seg) + 1) @@ (c2 :> 0)]

ExpList(ev, A) ==
  LET X == W[ev.c]
  IN  Exp1(ev.c,
        CASE ev.op = "sort" -> Sort(X, ev.i, ev.f, ev.sg)
          [] ev.op = "rev" -> Reversed(X, ev.i)
          [] ev.op = "rel1" -> IF ev.pos = ev.e THEN X ELSE Relocate(X, ev.i, ev.pos, <<ev.e>>)
          [] ev.op = "relr" -> Relocate(X, ev.i, ev.pos, Slice(X.q[ev.i], ev.e, ev.e2))
          [] ev.op = "rear" -> SetOrder(X, ev.i, ev.pm),
        {}, {}, "same", 0)

(* a copy of X as found in Y: identities matched through the reference index *)
CopyOf(X, Y) ==
  LET r == RefIx(X.ix)
  IN  IF Len(Y.q[r]) # Len(X.q[r]) THEN X
      ELSE Rename([ix |-> X.ix, q |-> X.q, e |-> X.e],
                  [s \in Elems(X) |-> Y.q[r][PosOf(X.q[r], s)]])

ExpCpy(ev, A) ==
  LET c == ev.c
      d == ev.c2
      X == W[c]
      Y == W[d]
      own == {"P16"}
      Al(x, S) == F(A[x].al \in S, "allocator", {"P16", "P18"})
      two(EX, EY, R, m1, m2) ==
        [E |-> (d :> EY) @@ (c :> EX), V |-> (d :> EY) @@ (c :> EX), L |-> (c :> {}) @@ (d :> {}),
         H |-> H, R |-> R, M |-> (d :> m2) @@ (c :> m1), N |-> (c :> 0) @@ (d :> 0)]
      any == "free"
      f == Fresh(A[d], Y)
      ix0 == IF ev.way = 8 THEN Y.ix ELSE T[d]
      vsX == Built(Empty(ix0), ev.vs, f, 1, 0, 0, TRUE, A[d])
      movedsame == \/ ev.way = 2
                   \/ ev.way = 3 /\ ev.nal = ev.al0
                   \/ ev.way = 5 /\ (Bit(ev.trf, 2) \/ ev.al0 = ev.al1)
  IN CASE ev.way \in {0, 1, 4, 9} ->
            LET R == Al(d, {CASE ev.way = 0 -> IF Bit(ev.trf, 8) /\ ev.al0 < 2 THEN 1 - ev.al0 ELSE ev.al0   \* as the allocator selects
                              [] ev.way = 1 -> ev.nal
                              [] OTHER -> IF Bit(ev.trf, 1) THEN ev.al0 ELSE ev.al1})
                         \cup F(c = d \/ Elems(A[d]) \cap Elems(X) = {}, "copy shares elements", own)
            IN  IF c = d THEN Exp1(c, CopyOf(X, A[d]), {}, R, "free", 0)
                ELSE two(X, CopyOf(X, A[d]), R, "same", any)
       [] ev.way \in {2, 3, 5} ->
            \* the source is left in a valid but unspecified state: empty if it
            \* was moved from at construction, otherwise at most what the
            \* destination had
            LET EX == A[c]
                R == F(IF ev.way \in {2, 3} /\ movedsame THEN Elems(A[c]) = {}
                       ELSE movedsame => Elems(A[c]) \subseteq Elems(Y), "moved-from container", own)
                     \cup Al(d, {CASE ev.way = 2 -> ev.al0
                                   [] ev.way = 3 -> ev.nal
                                   [] OTHER -> IF Bit(ev.trf, 2) THEN ev.al0 ELSE ev.al1})
                     \cup Al(c, IF ev.way = 5 /\ Bit(ev.trf, 2) THEN {ev.al0, ev.al1} ELSE {ev.al0})
                     \cup F(movedsame \/ Elems(A[d]) \cap Elems(X) = {}, "elements taken across allocators", own)
                     \* a move does not overload the buckets it fills
                     \cup F(\A j \in HashedIxs(X) : LoadOK(X, j) => LoadOK(A[d], j), "load factor after a move", own \cup {"P07"})
            IN  two(EX, IF movedsame THEN X ELSE CopyOf(X, A[d]), R, any, any)
       [] ev.way \in {6, 7, 10} ->
            IF c = d THEN Same(c, {})
            ELSE two(Y, X, Al(c, {IF Bit(ev.trf, 4) THEN ev.al1 ELSE ev.al0})
                           \cup Al(d, {IF Bit(ev.trf, 4) THEN ev.al0 ELSE ev.al1})
                           \* buckets and maximum load factors change hands with the elements
                           \cup F(\A j \in HashedIxs(X) : A[c].hp[j] = Y.hp[j] /\ A[d].hp[j] = X.hp[j],
                                   "bucket policies exchanged", own \cup {"P07"}), any, any)
       [] OTHER ->          \* built from values
            [E |-> (d :> vsX.X), V |-> (d :> Empty(ix0)), L |-> (d :> HashedIxs(Y)), H |-> H,
             R |-> F(vsX.f = <<>>, "elements invented", own)
                   \cup F("bk0" \in DOMAIN ev => \A j \in HashedIxs(A[d]) : A[d].hp[j][1] >= ev.bk0,
                          "initial bucket count", own \cup {"P07"})
                   \cup Al(d, {IF ev.way = 8 THEN ev.al1 ELSE ev.nal}),
             M |-> (d :> "any"), N |-> (d :> 0)]

(* queries: the state must not change *)
ExpLook(ev, A) ==
  LET X0 == W[ev.c]
      d == X0.ix[ev.i]
      p1 == SubSeq(d.p, 1, ev.np)
      p2 == IF ev.d > 0 THEN [p1 EXCEPT ![1] = <<p1[1][1], ev.d, p1[1][3]>>] ELSE p1
      d2 == [k |-> d.k, p |-> p2]
      X == [X0 EXCEPT !.ix[ev.i] = d2]
      k == Key(d2, ev.v)
      M == Matching(X, ev.i, k)
      own == {LookProp(d)} \cup (IF Len(d.p) > 1 THEN {"P21"} ELSE {})
      fnd == IF M = <<>> THEN 0 ELSE M[1]
      a == CountLess(X, ev.i, k)
      b == CountLeq(X, ev.i, k)
      nf == IF M = <<>> THEN Size(X) ELSE a
  IN  Same(ev.c,
        F(IF M = <<>> THEN ev.f = 0 ELSE ev.f \in ToSet(M), "find", own)
        \cup F(Ordered(d) => ev.f = fnd, "find does not give the first", own)
        \cup F(ev.ct = (IF M = <<>> THEN 0 ELSE 1), "contains", own)
        \cup F(ev.cnt = Len(M), "count", own \cup IF Ranked(d) THEN {"P05"} ELSE {})
        \cup F(ev.eq = M, "equal_range", own)
        \cup (IF ~Ordered(d) THEN {} ELSE
                F(ev.lb = LowerBound(X, ev.i, k), "lower_bound", own)
                \cup F(ev.ub = UpperBound(X, ev.i, k), "upper_bound", own)
                \cup F(ev.e1 = LowerBound(X, ev.i, k) /\ ev.e2 = UpperBound(X, ev.i, k), "equal_range ends", own)
                \cup (IF ~Ranked(d) THEN {} ELSE
                        F(ev.rk = <<nf, a, b, a, b>>, "rank variants", {"P05"}))))

ExpRng(ev, A) ==
  LET X == W[ev.c]
      d == X.ix[ev.i]
      q == X.q[ev.i]
      n == Len(q)
      k(s) == Part(d.p[1], X.e[s])
      lo(s) == CASE ev.lo = 0 -> TRUE [] ev.lo = 1 -> k(s) >= ev.lk [] OTHER -> k(s) > ev.lk
      hi(s) == CASE ev.hi = 0 -> TRUE [] ev.hi = 1 -> k(s) <= ev.uk [] OTHER -> k(s) < ev.uk
      L == {m \in 1..n : lo(q[m])}
      B == {m \in L : hi(q[m])}
      first == IF L = {} THEN n + 1 ELSE Min(L)
      last == IF B = {} THEN first ELSE Max(B) + 1
  IN  Same(ev.c, F(ev.r1 = AtOr0(q, first) /\ ev.r2 = AtOr0(q, last), "range", {"P04"})
                 \cup F(ev.rr = <<>> \/ ev.rr = <<first - 1, last - 1>>, "range_rank", {"P05"}))

ExpRnk(ev, A) ==
  LET X == W[ev.c]
      q == X.q[ev.i]
      n == Len(q)
  IN  Same(ev.c, F(ev.rk = [m \in 1..(n + 1) |-> m - 1], "rank", {"P05"})
                 \cup F(ev.nt = [m \in 1..(n + 2) |-> AtOr0(q, m)], "nth", {"P05"}))

ExpPos(ev, A) ==
  LET X == W[ev.c]
      q == X.q[ev.i]
      n == Len(q)
      b(x) == IF x THEN 1 ELSE 0
      own == {"P09"}
  IN  Same(ev.c, F(ev.at = [m \in 1..(2 * n) |-> q[(m + 1) \div 2]], "operator[]/at", own)
                 \cup F(ev.oor = 1, "at out of range", own)
                 \cup F(ev.df = <<ev.p2 - ev.p, 1, 1, b(ev.p < ev.p2), b(ev.p <= ev.p2), b(ev.p > ev.p2), b(ev.p >= ev.p2)>>
                                \o (IF n = 0 THEN <<>> ELSE <<q[IF ev.p2 < n THEN ev.p2 + 1 ELSE n]>>),
                        "iterator arithmetic", own))

ExpRpol(ev, A) ==
  LET X == W[ev.c]
      cap == X.hp[ev.i][1]
      cap2 == A[ev.c].hp[ev.i][1]
      own == {"P09"}
  IN  Exp1(ev.c, X, {},
           IF ev.way = 0 THEN F(cap2 >= ev.n /\ (ev.n <= cap => cap2 = cap), "reserve", own)
           ELSE F(cap2 = Size(X), "shrink_to_fit", own), "free", 0)

ExpHpol(ev, A) ==
  LET X == W[ev.c]
      bc == A[ev.c].hp[ev.i][1]
      ml == A[ev.c].hp[ev.i][2]
      own == {"P07"}
  IN  Exp1(ev.c, X, {ev.i},
           (CASE ev.way = 0 -> F(bc >= ev.n /\ LoadOK(A[ev.c], ev.i), "rehash", own)
              [] ev.way = 1 -> F(ev.n * 100 <= ml * bc /\ LoadOK(A[ev.c], ev.i), "reserve", own)
              [] OTHER -> F(ml = ev.n, "max_load_factor", own))
           \cup F(ev.way = 2 \/ ml = X.hp[ev.i][2], "max_load_factor changed", own)
           \cup F(\A j \in 1..Len(X.ix) : j = ev.i \/ A[ev.c].hp[j] = X.hp[j], "policy of another index", own),
           "free", 0)

ExpBkt(ev, A) ==
  LET X == W[ev.c]
      own == {"P07"}
      B == ev.bs
      in(s) == {m \in 1..Len(B) : s \in ToSet(B[m][3])}
      sum == FoldSeq(LAMBDA x, y : Len(x[3]) + y, 0, B)
  IN  Same(ev.c,
        F(ev.bc = X.hp[ev.i][1], "bucket_count", own)
        \cup F(\A m \in 1..Len(B) : B[m][2] = Len(B[m][3]) /\ B[m][1] < ev.bc, "bucket_size", own)
        \cup F(sum = Size(X) /\ \A s \in Elems(X) : Cardinality(in(s)) = 1, "buckets do not partition", own)
        \cup F(/\ Len(ev.eb) = Size(X)
               /\ \A m \in 1..Len(ev.eb) :
                    \A b \in in(ev.eb[m][1]) : B[b][1] = ev.eb[m][2], "bucket", own)
        \cup F(LET want == (Size(X) * 10000) \div ev.bc IN ev.lf \in {want, want + 1}, "load_factor", own))

ExpCmp(ev, A) ==
  LET X == W[ev.c]
      Y == W[ev.c2]
      d == X.ix[ev.i]
      v == Vals(X, ev.i)
      w == Vals(Y, ev.i)
      eq == IF Hashed(d) THEN HashedEqual(X, Y, ev.i) ELSE SeqEqual(v, w)
      b(x) == IF x THEN 1 ELSE 0
      lt == SeqLess(v, w)
      gt == SeqLess(w, v)
  IN  Same(ev.c, F(ev.r = (IF Hashed(d) THEN <<b(eq), b(~eq)>>
                           ELSE <<b(eq), b(~eq), b(lt), b(gt), b(~gt), b(~lt)>>), "comparison", {"P22"}))

ExpSer(ev, A) ==
  LET X == W[ev.c]
      d == ev.c2
      own == {"P19"}
      Y == CopyOf(X, A[d])
      r == RefIx(X.ix)
      m(s) == IF s = 0 THEN 0 ELSE A[d].q[r][PosOf(X.q[r], s)]
  IN  [E |-> (ev.c :> X) @@ (d :> Y), V |-> (ev.c :> X) @@ (d :> Empty(X.ix)),
       L |-> (ev.c :> {}) @@ (d :> HashedIxs(X)), H |-> H,
       R |-> F(Elems(A[d]) \cap Elems(X) = {}, "loaded elements", own)
             \cup F("bad" \in DOMAIN ev => ev.bad = 0, "damaged archive accepted", own)
             \cup F(Size(A[d]) = Size(X) => \A z \in 1..Len(ev.its) : ev.its[z][3] = m(ev.its[z][2]), "restored iterators", own),
       M |-> (ev.c :> "same") @@ (d :> "any"), N |-> (ev.c :> 0) @@ (d :> 0)]

Owner(ev) ==
  LET d == T[ev.c][ev.i] IN
  CASE ev.op \in {"ins", "insr"} -> {"P02"} \cup OwnList(d)
    [] ev.op \in {"era", "errg", "erk", "clr"} -> {"P11"}
    [] ev.op \in {"rem", "unq"} -> {"P11"} \cup OwnList(d)
    [] ev.op = "repl" -> {"P10"}
    [] ev.op = "modi" -> IF ev.bkd = 1 THEN {"P12"} ELSE {"P10"}
    [] ev.op \in {"ext", "extk", "nhi", "nhm", "nhx"} -> {"P14"}
    [] ev.op \in {"mrg", "smg"} -> {"P15"} \cup OwnList(d)
    [] ev.op \in {"sort", "rev", "rel1", "relr", "rear", "pos", "rpol"} -> OwnList(d)
    [] ev.op = "cpy" -> {"P16"}
    [] ev.op \in {"look", "rng"} -> {LookProp(d)}
    [] ev.op = "rnk" -> {"P05"}
    [] ev.op \in {"hpol", "bkt"} -> {"P07"}
    [] ev.op = "cmpc" -> {"P22"}
    [] ev.op = "ser" -> {"P19"}
    [] ev.op = "mis" -> {"P20"}
    [] OTHER -> {}

Expect(ev, A) ==
  CASE ev.op = "ins" -> ExpIns(ev, A)
    [] ev.op = "insr" -> ExpInsr(ev, A)
    [] ev.op \in {"era", "errg", "erk", "clr", "rem", "unq"} -> ExpErase(ev, A)
    [] ev.op \in {"repl", "modi"} -> ExpMod(ev, A)
    [] ev.op \in {"ext", "extk", "nhi", "nhm", "nhx"} -> ExpNode(ev, A)
    [] ev.op = "mrg" -> ExpXfer(ev, A)
    [] ev.op = "smg" -> ExpSmg(ev, A)
    [] ev.op \in {"sort", "rev", "rel1", "relr", "rear"} -> ExpList(ev, A)
    [] ev.op = "cpy" -> ExpCpy(ev, A)
    [] ev.op = "look" -> ExpLook(ev, A)
    [] ev.op = "rng" -> ExpRng(ev, A)
    [] ev.op = "rnk" -> ExpRnk(ev, A)
    [] ev.op = "pos" -> ExpPos(ev, A)
    [] ev.op = "rpol" -> ExpRpol(ev, A)
    [] ev.op = "hpol" -> ExpHpol(ev, A)
    [] ev.op = "bkt" -> ExpBkt(ev, A)
    [] ev.op = "cmpc" -> ExpCmp(ev, A)
    [] ev.op = "ser" -> ExpSer(ev, A)
    [] OTHER -> Same(ev.c, {})

(* -------------------- outcomes left by an exception --------------------- *)

NoThrow == {"era", "errg", "clr", "rev", "rel1", "relr", "ext", "nhm", "nhx", "take", "drop", "rnk", "pos", "bkt"}
\* everything as before (room may have grown)
Strong(ev) == \/ ev.op \in {"ins", "nhi", "repl", "look", "rng", "hpol", "rpol", "extk", "cmpc"}
              \/ ev.op = "mrg" /\ ev.way = 1
              \/ ev.op = "cpy" /\ ev.way \notin {3, 5}
SubOrder(A, X, j) == Only(A.q[j], Elems(X)) = Only(X.q[j], Elems(A))
KeepsOrder(A, X) == \A j \in 1..Len(X.ix) : ~Hashed(X.ix[j]) => SubOrder(A, X, j)
KeepsVals(A, X) == \A s \in Elems(A) \cap Elems(X) : A.e[s] = X.e[s]

ExcErr(ev, A, AH) ==
  LET c == ev.c
      X == W[c]
      own == {"P13"}
      others == C3 \ {c}
      newvals == {A[c].e[s] : s \in Elems(A[c]) \ Elems(X)}
      Un == UNION {Elems(A[b]) : b \in C3}
      Uo == UNION {Elems(W[b]) : b \in C3}
      rest(K) == F(\A b \in C3 \ K : A[b] = W[b], "another container changed", own)
      sameH == F(AH = H, "handle changed", own)
  IN CASE ev.op \in NoThrow -> F(FALSE, "threw: " \o ev.op, own \cup Owner(ev))
       [] ev.op = "modi" ->
            LET E == ExpModX(ev, A)
            IN  SameAs(E.E[c], A[c], X, {}, {"P12"}) \cup rest({c}) \cup sameH
       [] Strong(ev) ->
            UNION {SameAs(W[b], A[b], W[b], IF b = c THEN HashedIxs(W[b]) ELSE {}, own) : b \in C3}
            \cup sameH
            \cup F(\A b \in C3 : A[b].al = W[b].al, "allocator", own)
            \cup (IF ev.op \in {"hpol", "rpol"} THEN {} ELSE PolicyErr(X, A[c], "grow", Size(X) + 1, own))
       [] ev.op = "insr" ->
            F(\/ ev.clr = 1
              \/ /\ Elems(X) \subseteq Elems(A[c])
                 /\ KeepsVals(A[c], X) /\ KeepsOrder(A[c], X), "elements lost or altered", own)
            \cup F(newvals \subseteq ToSet(ev.vs), "elements invented", own)
            \* what was inserted is a prefix of the range, where it would have been
            \cup (IF ev.clr = 1 \/ ev.er > 0 THEN {}
                  ELSE F(\E n \in 0..Len(ev.vs) :
                           LET P == InsertAll(X, SubSeq(ev.vs, 1, n), Fresh(A[c], X), ev.i, ev.hk, ev.e)
                           IN  P.f = <<>> /\ \A j \in 1..Len(X.ix) :
                                 IF Hashed(X.ix[j]) THEN Elems(A[c]) = Elems(P.X) ELSE A[c].q[j] = P.X.q[j],
                         "elements inserted before the failure", own))
            \cup rest({c}) \cup sameH
       [] ev.op \in {"erk", "rem", "unq"} ->
            LET D == CASE ev.op = "erk" -> ToSet(Matching(X, ev.i, Key(X.ix[ev.i], ev.v)))
                       [] ev.op = "rem" -> RemoveSet(X, ev.f, ev.d, ev.v)
                       [] OTHER -> DupSet(X, X.q[ev.i], ev.f, ev.d, 0)
            IN  F(/\ Elems(A[c]) \subseteq Elems(X)
                  /\ Elems(X) \ D \subseteq Elems(A[c])
                  /\ KeepsVals(A[c], X)
                  /\ \A j \in 1..Len(X.ix) :
                       Hashed(X.ix[j]) \/ (X.ix[j].k = "ra" /\ j = ev.i) \/ SubOrder(A[c], X, j),
                "elements lost or altered", own)
                \cup rest({c}) \cup sameH
       [] ev.op \in {"sort", "rear"} ->
            F(/\ Elems(A[c]) = Elems(X) /\ KeepsVals(A[c], X)
              /\ \A j \in 1..Len(X.ix) : j # ev.i => A[c].q[j] = X.q[j], "elements lost or altered", own)
            \cup rest({c}) \cup sameH
       [] ev.op \in {"mrg", "smg"} ->
            LET same == X.al = W[ev.c2].al
            IN  F(/\ same => Un = Uo /\ \A b \in C3 : \A s \in Elems(A[b]) :
                                \E b0 \in C3 : s \in Elems(W[b0]) /\ W[b0].e[s] = A[b].e[s]
                  /\ Elems(X) \subseteq Elems(A[c])
                  /\ Elems(A[ev.c2]) \subseteq Elems(W[ev.c2]) \/ ev.c = ev.c2,
                  "elements lost or altered", own)
            \cup F(\A j \in 1..Len(X.ix) : \/ Hashed(X.ix[j])
                                           \/ j = ev.i
                                           \/ SubOrder(A[c], X, j), "order of other indices", own)
            \* what was transferred is a prefix of the range, where it would have been
            \cup (IF ev.op = "smg" \/ c = ev.c2 THEN {}
                  ELSE LET S == W[ev.c2]
                           seg == CASE ev.way = 0 -> S.q[ev.i2]
                                    [] ev.way = 1 -> <<ev.e>>
                                    [] OTHER -> Slice(S.q[ev.i2], ev.e, ev.e2)
                           list == ev.pos >= 0
                           at(n) == IF ev.eqal = 1
                                    THEN Transfer(X, S, SubSeq(seg, 1, n), ev.i, IF list THEN 2 ELSE 0, IF list THEN ev.pos ELSE 0)
                                    ELSE TransferCopy(X, S, SubSeq(seg, 1, n), Fresh(A[c], X), ev.i,
                                                      IF list THEN 2 ELSE 0, IF list THEN ev.pos ELSE 0)
                           like(P, B) == /\ Elems(P) = Elems(B)
                                         /\ \A j \in 1..Len(P.ix) : Hashed(P.ix[j]) \/ P.q[j] = B.q[j]
                       IN  F(\E n \in 0..Len(seg) : like(at(n).D, A[c]) /\ like(at(n).S, A[ev.c2]),
                             "elements transferred before the failure", own \cup {"P15"}))
            \cup rest({c, ev.c2}) \cup sameH
       [] ev.op = "cpy" -> rest({c, ev.c2}) \cup sameH
                           \cup F(c = ev.c2 \/ Elems(A[ev.c2]) = Elems(W[ev.c2]), "destination changed", own)
       [] ev.op = "ser" ->
            rest({ev.c2}) \cup sameH
            \cup F({A[ev.c2].e[s] : s \in Elems(A[ev.c2])} \subseteq {X.e[s] : s \in Elems(X)}, "elements invented", own \cup {"P19"})
       [] OTHER -> {}

(* state a copy, swap or failed operation leaves may show only in what the  *)
(* next change does: a contradiction there counts against both             *)
Delayed(ev) ==
  IF ev.op \in {"look", "rng", "rnk", "pos", "bkt", "cmpc", "take", "drop"} THEN {}
  ELSE LO[ev.c] \cup (IF ev.op \in {"mrg", "smg", "cpy", "ser"} THEN LO[ev.c2] ELSE {})
NextLO(ev) ==
  [c \in C3 |->
     IF ev.op \in {"look", "rng", "rnk", "pos", "bkt", "cmpc", "take", "drop", "nhm", "nhx"} /\ ev.x = 0 THEN LO[c]
     ELSE IF c = ev.c \/ (ev.op \in {"mrg", "smg", "cpy", "ser"} /\ c = ev.c2) THEN
       (IF ev.op = "cpy" THEN {"P16"} ELSE IF ev.op = "ser" THEN {"P19"} ELSE {})
       \cup (IF ev.x # 0 THEN {"P13"} ELSE {})
       \cup (IF ev.op = "modi" /\ ev.bkd = 1 THEN {"P12"} ELSE {})
     ELSE LO[c]]

(* ------------------------------ all clauses ------------------------------ *)

Compare(ev, A, AH, X, own) ==
  X.R
  \cup UNION {SameAs(X.E[c], A[c], X.V[c], X.L[c], own) : c \in DOMAIN X.E}
  \cup UNION {PolicyErr(W[c], A[c], X.M[c], X.N[c], Delayed(ev)) : c \in DOMAIN X.M}
  \* without rehashing, elements whose key does not change are not reordered in hashed indices either
  \cup (IF ev.op \in {"cpy", "ser", "hpol"} \/ (ev.op = "insr" /\ ev.clr = 1) THEN {}
        ELSE UNION {LET V == W[c]
                    IN  F(\A j \in HashedIxs(V) : A[c].hp[j] = V.hp[j] =>
                            LET S == {s \in Elems(A[c]) \cap Elems(V) : KEq(KeyOf(A[c], j, s), KeyOf(V, j, s))}
                            IN  Only(A[c].q[j], S) = Only(V.q[j], S),
                          "hashed order changed without rehashing", own \cup {"P06"}) : c \in DOMAIN X.E})
  \cup F(\A c \in C3 \ DOMAIN X.E : A[c] = W[c], "another container changed", own)
  \cup F(\A c \in C3 : ev.op = "cpy" \/ A[c].al = W[c].al, "allocator changed", {"P18"})
  \cup F(AH = X.H, "handles", own \cup {"P14"})

(* memory: objects alive are exactly those held; no lifetime or heap error;  *)
(* allocations only from the allocator of a container involved               *)
MemErr(ev, A, AH, own) ==
  LET held == FoldSet(LAMBDA c, n : n + Size(A[c]), 0, C3)
              + (IF AH[1] = <<>> THEN 0 ELSE 1) + (IF AH[2] = <<>> THEN 0 ELSE 1)
      als == {a \in 0..3 : Bit(ev.as, CASE a = 0 -> 1 [] a = 1 -> 2 [] a = 2 -> 4 [] OTHER -> 8)}
      may == IF ev.op = "cpy" THEN
               IF ev.x # 0 THEN {A[c].al : c \in C3} \cup {ev.nal} \cup (IF Bit(ev.trf, 8) THEN {0, 1} ELSE {}) ELSE {A[ev.c2].al}
             ELSE IF ev.op = "ser" THEN {A[ev.c2].al}
             ELSE {A[ev.c].al}
  IN  F(ev.m[1] = held, "objects leaked or destroyed", {"P18"} \cup own)
      \cup F(ev.m[2] = bad, "lifetime or deallocation error", {"P18"} \cup own)
      \* the library's own structural invariants (tree balance, links), in builds that check them
      \cup F(ev.m[3] = 0, "internal invariant", {"P01", "P23"} \cup own)
      \cup F(als \subseteq may, "foreign allocator used", {"P18"})

IsSwap(ev) == ev.op = "cpy" /\ ev.way \in {6, 7, 10}

(* work: calls of user-provided operations during the call                  *)
(* w = <<comparisons, hashes, equalities, constructions, assignments,      *)
(*       allocations, deallocations, predicates>>                          *)
CostErr(ev) ==
  IF ev.x # 0 \/ Len(ev.w) # 8 THEN {}
  ELSE LET none == ev.w[1] = 0 /\ ev.w[3] = 0
           same == ev.op \in {"mrg", "smg"} /\ ev.c = ev.c2
       IN  F(ev.op \in {"era", "errg", "clr", "ext", "rev", "rel1", "relr", "rear"} => none /\ ev.w[4] = 0,
             "erasure or reordering compares or constructs", {"P23"})
           \cup F(ev.op = "mrg" /\ same => none /\ ev.w[4] = 0, "splicing within a container compares or constructs", {"P23"})
           \cup F(ev.op = "mrg" /\ ev.eqal = 1 => ev.w[4] = 0, "transfer constructs", {"P23"})
           \cup F((ev.op \in {"nhi", "sort", "unq"} \/ (ev.op = "smg" /\ W[ev.c].al = W[ev.c2].al)) => ev.w[4] = 0, "constructs elements", {"P23"})
           \cup F(ev.op = "ins" => ev.w[4] <= 1, "insertion constructs more than one element", {"P23"})
           \cup F(ev.op = "cpy" /\ (IsSwap(ev) \/ ev.way = 2) => none /\ ev.w[4] = 0, "moving or swapping compares or constructs", {"P23"})

(* safe mode: a diagnosis of a correct call, a missing or unrelated one of a  *)
(* faulty call, or any effect of a call that was diagnosed                   *)
SafeErr(ev, A, AH) ==
  IF ev.op # "mis" THEN F(FALSE, "correct use diagnosed", {"P20"})
  ELSE LET D == Deserved(ev, W, SL, H)
       IN  F((ev.x < 20 /\ D = {}) \/ ev.x - 20 \in D,
             IF D = {} THEN "correct use diagnosed" ELSE IF ev.x < 20 THEN "misuse not diagnosed" ELSE "wrong diagnosis", {"P20"})
           \cup (IF D # {} \/ ev.fn \in {"deref", "incr", "decr", "eq", "asg", "adv", "diff", "project", "rank", "at", "front", "dtor"} THEN
                   F(A = W /\ AH = H, "effect of a diagnosed or non-modifying call", {"P20"}) ELSE {})
           \cup (IF ev.x = 0 /\ D = {} /\ "r" \in DOMAIN ev THEN F(SafeResult(ev, W, SL), "result of a correct call", {"P20"}) ELSE {})

\* ends are given up where nothing is promised about them
GivenUp(ev, c) == \/ ev.op = "cpy" /\ ~IsSwap(ev) /\ c \in {ev.c, ev.c2}
                  \/ ev.op = "ser" /\ c \in {ev.c, ev.c2}
                  \/ ev.op = "insr" /\ ev.way \in {3, 7} /\ c = ev.c
SafeSL(ev, A) ==
  IF ev.op = "take" THEN
    (ev.id :> [sn |-> IF ev.e < 0 THEN 0 ELSE ev.e, c |-> ev.c, v |-> ev.e >= 0, st |-> ev.st = 1, i |-> ev.i]) @@ SL
  ELSE LET listed == {ev.it[m][1] : m \in 1..Len(ev.it)} \cap DOMAIN SL
           sw == IF IsSwap(ev) /\ ev.x = 0 THEN <<ev.c, ev.c2>> ELSE <<>>
       IN  [t \in listed |-> IF SL[t].sn = 0 /\ GivenUp(ev, SL[t].c) THEN [SL[t] EXCEPT !.v = FALSE]
                               ELSE Track(SL[t], A, sw)]
NextSL(ev) ==
  IF Safe THEN SafeSL(ev, Post(ev))
  ELSE IF ev.op = "take" THEN (ev.id :> [sn |-> ev.e, c |-> ev.c]) @@ SL
  ELSE IF SL = <<>> THEN SL
  ELSE IF IsSwap(ev) /\ ev.x = 0 /\ ev.c # ev.c2 THEN
    [t \in DOMAIN SL |-> IF SL[t].c = ev.c THEN [SL[t] EXCEPT !.c = ev.c2]
                         ELSE IF SL[t].c = ev.c2 THEN [SL[t] EXCEPT !.c = ev.c] ELSE SL[t]]
  ELSE IF ev.op = "insr" /\ ev.clr = 1 THEN
    [t \in DOMAIN SL |-> IF SL[t].c = ev.c THEN [SL[t] EXCEPT !.c = 0] ELSE SL[t]]
  ELSE IF ev.op \in {"ser", "cpy"} THEN
    [t \in DOMAIN SL |-> IF SL[t].c \in {ev.c, ev.c2} THEN [SL[t] EXCEPT !.c = 0] ELSE SL[t]]
  ELSE SL

SlotErr(ev, A) ==
  LET where(s) == {c \in C3 : s \in Elems(A[c])}
      N == NextSL(ev)
      fine(t) == LET s == N[t[1]] IN
                 IF s.sn > 0 THEN where(s.sn) = {} \/ (t[2] = s.sn /\ t[3] \in where(s.sn))
                 ELSE s.c = 0 \/ t[3] = s.c
      tracked(t) == LET s == N[t[1]] IN
                    \/ s.sn = 0 /\ t[1] \in DOMAIN SL /\ GivenUp(ev, SL[t[1]].c)
                    \/ IF s.v THEN t[4] = 1 /\ t[2] = s.sn /\ t[3] = s.c ELSE t[4] = 0
  IN  IF Safe THEN F(\A m \in 1..Len(ev.it) : ev.it[m][1] \in DOMAIN N => tracked(ev.it[m]), "tracked iterator", {"P20"})
      ELSE F(\A m \in 1..Len(ev.it) : ev.it[m][1] \in DOMAIN SL => fine(ev.it[m]), "held iterator", {"P17"})

EventErr(ev) ==
  LET own == Owner(ev) \cup Delayed(ev) \cup (IF ev.x # 0 THEN {"P13"} ELSE {})
      D == UNION {DumpErr(ev, c, own) : c \in Dumped(ev)}
  IN  IF ~\A c \in Dumped(ev) : DumpOK(DumpOf(ev, c)) THEN D
      ELSE LET A == Post(ev)
               AH == PostH(ev)
           IN  D \cup UNION {StateErr(A[c], own) : c \in Dumped(ev)}
               \cup (IF ev.x >= 20 \/ ev.op = "mis" THEN SafeErr(ev, A, AH)
                     ELSE IF ev.x = 0 THEN Compare(ev, A, AH, Expect(ev, A), own)
                     ELSE ExcErr(ev, A, AH))
               \cup F(ev.x = ev.fi \/ ev.op = "ser" \/ ev.x >= 20, "exception swallowed or replaced",
                      IF ev.op = "modi" THEN {"P12"} ELSE {"P13"})
               \cup MemErr(ev, A, AH, own)
               \cup SlotErr(ev, A)
               \cup CostErr(ev)

(* ------------------------------ transitions ------------------------------ *)

Init == /\ l = 1 /\ T = <<>> /\ W = <<>> /\ H = <<<<>>, <<>>>>
        /\ SL = <<>> /\ bad = 0 /\ LO = <<{}, {}, {}>> /\ dirty = FALSE

Report(err) == IF err = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson(<<l, err>>))

Reset(ev) ==
  /\ ev.op = "reset"
  /\ LET TT == <<ev.t1, ev.t1, ev.t2>>
         err == F(ev.lo = 0 /\ ev.lb = 0, "objects or memory left behind", {"P18"})
                \cup F(l = 1 \/ dirty \/ ev.m[2] = bad, "lifetime error at destruction", {"P18"})
                \cup F(\A c \in Dumped(ev) : DumpOK(DumpOf(ev, c)) /\ DumpOf(ev, c).z[1] = 0 /\ DumpOf(ev, c).g = 0, "fresh container", {"P01"})
     IN  /\ Report(err)
         /\ T' = TT
         /\ W' = [c \in C3 |-> Adopt(TT[c], DumpOf(ev, c))]
         /\ dirty' = FALSE
  /\ H' = <<<<>>, <<>>>> /\ SL' = <<>> /\ LO' = <<{}, {}, {}>> /\ bad' = ev.m[2]

Call(ev) ==
  /\ ev.op \notin {"reset", "end", "crash"}
  /\ ~dirty
  /\ LET err == EventErr(ev)
     IN  /\ Report(err)
         /\ dirty' = (err # {})
         /\ IF err # {} THEN UNCHANGED <<W, H, SL, LO>>
            ELSE W' = Post(ev) /\ H' = PostH(ev) /\ SL' = NextSL(ev) /\ LO' = NextLO(ev)
  /\ bad' = ev.m[2]
  /\ UNCHANGED T

Skipped(ev) == /\ dirty /\ ev.op \notin {"reset", "end", "crash"}
               /\ bad' = ev.m[2]
               /\ UNCHANGED <<T, W, H, SL, LO, dirty>>

End(ev) == /\ ev.op = "end"
           /\ Report(F(dirty \/ (ev.lo = 0 /\ ev.lb = 0 /\ ev.bad = bad), "objects or memory left behind", {"P18"}))
           /\ UNCHANGED <<T, W, H, SL, bad, LO, dirty>>
\* the execution died: no behaviour of the specification does
Crash(ev) == /\ ev.op = "crash"
             /\ Report({<<"ALL", "crash or hang">>})
             /\ UNCHANGED <<T, W, H, SL, bad, LO, dirty>>

Next == /\ l <= Len(Log)
        /\ l' = l + 1
        /\ LET ev == Log[l]
           IN  Reset(ev) \/ Call(ev) \/ Skipped(ev) \/ End(ev) \/ Crash(ev)
Spec == Init /\ [][Next]_vars

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
