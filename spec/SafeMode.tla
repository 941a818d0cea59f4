------------------------------ MODULE SafeMode ------------------------------
(***************************************************************************)
(* Safe mode: which iterators are valid, whom they belong to, and which    *)
(* diagnoses a call with given iterators may raise.                        *)
(*                                                                         *)
(* A tracked iterator is a record [sn, c, v, st, i]:                       *)
(*   sn  identity of the element it designates, 0 for end                  *)
(*   c   the container it belongs to                                       *)
(*   v   whether it is valid                                               *)
(*   st  whether the other container type has the same iterator type       *)
(*   i   its index                                                         *)
(* Error codes are those of safe_mode::error_code.                         *)
(***************************************************************************)
EXTENDS MultiIndex

Invalid == 0   NotDeref == 1   NotInc == 2   NotDec == 3   NotOwner == 4
NotSame == 5   BadRange == 6   Inside == 7   OutOfBounds == 8
SameCont == 9  UnequalAl == 10

(* ------------------------------- tracking ------------------------------- *)

Holder(A, s) == {c \in DOMAIN A : s \in Elems(A[c])}
\* after a call that led to containers A; sw: <<c, c2>> swapped as a whole, or <<>>
Track(r, A, sw) ==
  IF ~r.v THEN r
  ELSE IF r.sn = 0 THEN
    IF sw = <<>> \/ sw[1] = sw[2] THEN r
    ELSE IF r.c = sw[1] THEN [r EXCEPT !.c = sw[2]]
    ELSE IF r.c = sw[2] THEN [r EXCEPT !.c = sw[1]] ELSE r
  ELSE LET h == Holder(A, r.sn) IN
       IF h = {} THEN [r EXCEPT !.v = FALSE]
       ELSE IF r.c \in h THEN r
       ELSE LET c == CHOOSE x \in h : TRUE
            IN  IF r.st \/ {r.c, c} \subseteq {1, 2} THEN [r EXCEPT !.c = c]
                ELSE [r EXCEPT !.v = FALSE]

(* ------------------------------- diagnoses ------------------------------ *)

\* position of an iterator in its index, end being one past the last
At(A, r) == LET q == A[r.c].q[r.i] IN IF r.sn = 0 THEN Len(q) + 1 ELSE PosOf(q, r.sn)

Inv(r) == IF r.v THEN {} ELSE {Invalid}
Der(r) == IF r.v /\ r.sn = 0 THEN {NotDeref} ELSE {}
Own(r, c) == IF r.v /\ r.c # c THEN {NotOwner} ELSE {}
Rng(A, f, t) == IF ~f.v \/ ~t.v THEN {}
                ELSE IF f.c # t.c THEN {NotOwner, NotSame, BadRange}
                ELSE IF At(A, f) > At(A, t) THEN {BadRange} ELSE {}
\* p must not lie within [f,t); all in the same container, p possibly of another index
Out(A, p, f, t) ==
  IF ~p.v \/ ~f.v \/ ~t.v \/ p.c # f.c \/ f.c # t.c \/ p.sn = 0 THEN {}
  ELSE LET k == PosOf(A[f.c].q[f.i], p.sn)
       IN  IF At(A, f) <= k /\ k < At(A, t) THEN {Inside} ELSE {}
Pos1(r, c) == Inv(r) \cup Own(r, c)
Elem(r, c) == Inv(r) \cup Der(r) \cup Own(r, c)
Range2(A, f, t, c) == Inv(f) \cup Inv(t) \cup Own(f, c) \cup Own(t, c) \cup Rng(A, f, t)
Allocs(A, c, c2) == IF A[c].al # A[c2].al THEN {UnequalAl} ELSE {}

(* the diagnoses a call deserves (any one of them may be raised, none when   *)
(* the set is empty); S: the tracked iterators, hh: the two node handles     *)
Deserved(ev, A, S, hh) ==
  LET c == ev.c
      a == S[ev.s1]
      b == S[ev.s2]
      d == S[ev.s3]
      hal == IF hh[ev.k] = <<>> THEN {} ELSE IF hh[ev.k][3] # A[c].al THEN {UnequalAl} ELSE {}
  IN
  CASE ev.fn = "deref" -> Inv(a) \cup Der(a)
    [] ev.fn = "incr" -> Inv(a) \cup (IF a.v /\ a.sn = 0 THEN {NotInc} ELSE {})
    [] ev.fn = "decr" -> Inv(a) \cup (IF a.v /\ At(A, a) = 1 THEN {NotDec} ELSE {})
    [] ev.fn \in {"eq", "diff"} -> Inv(a) \cup Inv(b) \cup (IF a.v /\ b.v /\ a.c # b.c THEN {NotSame} ELSE {})
    [] ev.fn = "asg" -> Inv(a)
    [] ev.fn = "adv" -> Inv(a) \cup (IF a.v /\ At(A, a) + ev.n \notin 1 .. Len(A[a.c].q[1]) + 1 THEN {OutOfBounds} ELSE {})
    [] ev.fn \in {"erase", "replace", "modify", "modifyb", "modkey", "extract"} -> Elem(a, c)
    [] ev.fn = "eraserg" -> Range2(A, a, b, c)
    [] ev.fn \in {"hint", "emplhint", "insl", "project", "rank"} -> Pos1(a, c)
    [] ev.fn = "nhins" -> Pos1(a, c) \cup hal
    [] ev.fn = "nhins0" -> hal
    [] ev.fn = "splice1" -> Pos1(a, c) \cup Elem(b, ev.c2)
    [] ev.fn = "splicerg" -> Pos1(a, c) \cup Range2(A, b, d, ev.c2)
                             \cup (IF c = ev.c2 THEN Out(A, a, b, d) ELSE {})
    [] ev.fn = "splice" -> Pos1(a, c) \cup (IF c = ev.c2 /\ a.v /\ a.sn # 0 THEN {Inside} ELSE {})
    [] ev.fn = "merge1" -> Elem(b, ev.c2) \cup Allocs(A, c, ev.c2)
    [] ev.fn = "mergerg" -> Range2(A, b, d, ev.c2) \cup Allocs(A, c, ev.c2)
    [] ev.fn = "merge" -> Allocs(A, c, ev.c2)
    [] ev.fn = "reloc1" -> Pos1(a, c) \cup Elem(b, c)
    [] ev.fn = "relocrg" -> Pos1(a, c) \cup Range2(A, b, d, c) \cup Out(A, a, b, d)
    [] ev.fn = "at" -> IF ev.n >= Len(A[c].q[1]) THEN {OutOfBounds} ELSE {}
    [] ev.fn \in {"front", "pop"} -> IF Len(A[c].q[1]) = 0 THEN {NotDeref, NotInc, NotDec, OutOfBounds} ELSE {}
    [] OTHER -> {}

(* what a correct call returns, where it returns something about iterators *)
SafeResult(ev, A, S) ==
  LET a == S[ev.s1]
      b == S[ev.s2]
      q == A[a.c].q[a.i]
      el(k) == IF k > Len(q) THEN 0 ELSE q[k]
  IN
  CASE ev.fn \in {"deref", "project"} -> ev.r = a.sn
    [] ev.fn = "incr" -> ev.r = el(At(A, a) + 1)
    [] ev.fn = "decr" -> ev.r = el(At(A, a) - 1)
    [] ev.fn = "adv" -> ev.r = el(At(A, a) + ev.n)
    [] ev.fn = "eq" -> (ev.r = 1) <=> (a.sn = b.sn)
    [] ev.fn = "diff" -> ev.r = At(A, b) - At(A, a)
    [] ev.fn = "asg" -> ev.r = 1
    [] ev.fn = "rank" -> ev.r = At(A, a) - 1
    [] ev.fn = "dtor" -> ev.r = 0
    [] OTHER -> TRUE
=============================================================================
