-------------------------------- MODULE Filter --------------------------------
(***************************************************************************)
(* The language of row filters: expressions over the columns of a file that *)
(* name, for every row, whether it is kept.  A tree is                      *)
(*   [k |-> "num", n, d]  [k |-> "bool", b]  [k |-> "col", name]             *)
(*   [k |-> "at", of, index]  [k |-> "un", op, of]  [k |-> "bin", op, l, r]  *)
(*   [k |-> "cmp", ops, args]  [k |-> "call", f, args]                       *)
(*   [k |-> "bad"]            any other syntax of Python                    *)
(* and an index is a sequence of [s |-> "int", v], [s |-> "slice", lo, hi,   *)
(* st] (each <<>> or <<v>>), [s |-> "list", v] and [s |-> "dots"].           *)
(*                                                                         *)
(* A value is [e: refused?, b: truth values?, r: rank, v: nested sequences]. *)
(* Numbers are fractions <<n, d>> in lowest terms, d > 0; <<0, 0>> is NaN.   *)
(* Truth values are the numbers 0 and 1.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
NaN == <<0, 0>>
Norm(n, d) == LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1 IN <<s * (n \div g), s * (d \div g)>>
IsNaN(a) == a[2] = 0
Truth(p) == IF p THEN <<1, 1>> ELSE <<0, 1>>
True(a) == IsNaN(a) \/ a[1] # 0
Floor(a) == a[1] \div a[2]

Plus(a, b) == Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
Times(a, b) == Norm(a[1] * b[1], a[2] * b[2])
Neg(a) == <<-a[1], a[2]>>
Over(a, b) == Norm(a[1] * b[2], a[2] * b[1])
FloorOver(a, b) == <<Floor(Over(a, b)), 1>>
RECURSIVE Power(_, _)
Power(a, n) == IF n = 0 THEN <<1, 1>> ELSE Times(a, Power(a, n - 1))
Less(a, b) == a[1] * b[2] < b[1] * a[2]

Order == {"<", "<=", ">", ">=", "==", "!="}
Logic == {"&", "|", "^"}
Arithmetic == {"+", "-", "*", "/", "//", "%", "**"}

Two(op, a, b) ==
  IF op \in Order THEN
    IF IsNaN(a) \/ IsNaN(b) THEN Truth(op = "!=")
    ELSE Truth(CASE op = "<" -> Less(a, b) [] op = ">" -> Less(b, a) [] op = "<=" -> ~Less(b, a)
                 [] op = ">=" -> ~Less(a, b) [] op = "==" -> a = b [] op = "!=" -> a # b)
  ELSE IF op \in {"&", "logical_and"} THEN Truth(True(a) /\ True(b))
  ELSE IF op \in {"|", "logical_or"} THEN Truth(True(a) \/ True(b))
  ELSE IF op = "^" THEN Truth(True(a) # True(b))
  ELSE IF IsNaN(a) /\ op = "**" /\ b[1] = 0 THEN <<1, 1>>
  ELSE IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE CASE op = "+" -> Plus(a, b) [] op = "-" -> Plus(a, Neg(b)) [] op = "*" -> Times(a, b) [] op = "/" -> Over(a, b)
         [] op = "//" -> FloorOver(a, b) [] op = "%" -> Plus(a, Neg(Times(b, FloorOver(a, b)))) [] op = "**" -> Power(a, b[1])
One(op, a) ==
  IF op = "isnan" THEN Truth(IsNaN(a))
  ELSE IF op = "isfinite" THEN Truth(~IsNaN(a))
  ELSE IF op \in {"~", "logical_not"} THEN Truth(~True(a))
  ELSE IF op = "abs" THEN <<Abs(a[1]), a[2]>>
  ELSE IF op = "-" THEN Neg(a) ELSE a

RECURSIVE Each(_, _, _)
Each(op, r, x) == IF r = 0 THEN One(op, x) ELSE [i \in 1..Len(x) |-> Each(op, r - 1, x[i])]
(* the same rank on both sides, or a scalar on one; a single entry goes with all of the other side *)
Most(x, y) == IF Len(x) = 1 THEN Len(y) ELSE Len(x)
Nth(x, i) == IF Len(x) = 1 THEN x[1] ELSE x[i]
RECURSIVE Pair(_, _, _, _, _)
Pair(op, r, x, s, y) ==
  IF r = 0 /\ s = 0 THEN Two(op, x, y)
  ELSE IF r = 0 THEN [i \in 1..Len(y) |-> Pair(op, 0, x, s - 1, y[i])]
  ELSE IF s = 0 THEN [i \in 1..Len(x) |-> Pair(op, r - 1, x[i], 0, y)]
  ELSE [i \in 1..Most(x, y) |-> Pair(op, r - 1, Nth(x, i), s - 1, Nth(y, i))]
Fits(a, b) == a.r = 0 \/ b.r = 0 \/ (a.r = b.r /\ (Len(a.v) = Len(b.v) \/ Len(a.v) = 1 \/ Len(b.v) = 1))

Refused == [e |-> TRUE, b |-> FALSE, r |-> 0, v |-> NaN]
Value(b, r, v) == [e |-> FALSE, b |-> b, r |-> r, v |-> v]

(* ------------------------------------------------------------- indexing *)
Within(n, i) == IF i < 0 THEN i + n ELSE i
Clamp(lo, hi, i) == IF i < lo THEN lo ELSE IF i > hi THEN hi ELSE i
(* the positions of a slice, from zero, in order *)
Picks(n, it) ==
  LET st == IF it.st = <<>> THEN 1 ELSE it.st[1]
      lo == IF it.lo = <<>> THEN (IF st > 0 THEN 0 ELSE n - 1) ELSE IF st > 0 THEN Clamp(0, n, Within(n, it.lo[1])) ELSE Clamp(-1, n - 1, Within(n, it.lo[1]))
      hi == IF it.hi = <<>> THEN (IF st > 0 THEN n ELSE -1) ELSE IF st > 0 THEN Clamp(0, n, Within(n, it.hi[1])) ELSE Clamp(-1, n - 1, Within(n, it.hi[1]))
      m == IF st > 0 THEN (IF hi > lo THEN ((hi - lo - 1) \div st) + 1 ELSE 0) ELSE IF lo > hi THEN ((lo - hi - 1) \div (-st)) + 1 ELSE 0
  IN [k \in 1..m |-> lo + (k - 1) * st]
Whole == [s |-> "slice", lo |-> <<>>, hi |-> <<>>, st |-> <<>>]
Dots(index) == {i \in 1..Len(index) : index[i].s = "dots"}
Spread(index, r) ==
  IF Dots(index) = {} THEN index
  ELSE LET d == CHOOSE i \in Dots(index) : TRUE IN
       SubSeq(index, 1, d - 1) \o [i \in 1..(r - Len(index) + 1) |-> Whole] \o SubSeq(index, d + 1, Len(index))
(* each: <<fine?, value>> *)
RECURSIVE Index(_, _, _)
Index(x, r, items) ==
  IF Len(items) = 0 THEN <<TRUE, x>>
  ELSE IF r = 0 THEN <<FALSE, x>>
  ELSE LET it == items[1] rest == Tail(items) n == Len(x) IN
    IF it.s = "int" THEN (IF it.v < -n \/ it.v >= n THEN <<FALSE, x>> ELSE Index(x[Within(n, it.v) + 1], r - 1, rest))
    ELSE LET at == IF it.s = "list" THEN it.v ELSE Picks(n, it)
             got == [k \in 1..Len(at) |-> IF at[k] < -n \/ at[k] >= n THEN <<FALSE, x>> ELSE Index(x[Within(n, at[k]) + 1], r - 1, rest)] IN
         <<\A k \in 1..Len(at) : got[k][1], [k \in 1..Len(at) |-> got[k][2]]>>
At(a, index) ==
  LET few == Spread(index, a.r) IN
  IF a.r = 0 \/ Cardinality(Dots(index)) > 1 \/ Len(index) - Cardinality(Dots(index)) > a.r \/ (\E i \in 1..Len(index) : index[i].s = "slice" /\ index[i].st = <<0>>) THEN Refused
  ELSE LET got == Index(a.v, a.r, few) IN
       IF ~got[1] THEN Refused ELSE Value(a.b, a.r - Cardinality({i \in 1..Len(few) : few[i].s = "int"}), got[2])

(* ----------------------------------------------------------- evaluation *)
Unary == {"abs", "isfinite", "isnan", "logical_not"}
Binary == {"logical_and", "logical_or"}
RECURSIVE Eval(_, _)
(* columns: a record name -> [r, v] *)
Eval(t, columns) ==
  CASE t.k = "num" -> Value(FALSE, 0, <<t.n, t.d>>)
    [] t.k = "bool" -> Value(TRUE, 0, Truth(t.b))
    [] t.k = "col" -> IF t.name \in DOMAIN columns THEN Value(FALSE, columns[t.name].r, columns[t.name].v) ELSE Refused
    [] t.k = "at" -> LET a == Eval(t.of, columns) IN IF a.e THEN Refused ELSE At(a, t.index)
    [] t.k = "un" -> LET a == Eval(t.of, columns) IN
                     IF a.e \/ (t.op = "~" /\ ~a.b) \/ (t.op # "~" /\ a.b) THEN Refused ELSE Value(a.b, a.r, Each(t.op, a.r, a.v))
    [] t.k = "bin" -> LET a == Eval(t.l, columns) b == Eval(t.r, columns) IN
                      IF a.e \/ b.e \/ ~Fits(a, b) THEN Refused
                      ELSE IF t.op \in Logic /\ (~a.b \/ ~b.b) THEN Refused
                      ELSE IF t.op \in Arithmetic /\ (a.b \/ b.b) THEN Refused
                      ELSE IF t.op = "**" /\ (t.r.k # "num" \/ t.r.d # 1 \/ t.r.n \notin 0..8) THEN Refused
                      ELSE Value(t.op \in Logic, IF a.r > b.r THEN a.r ELSE b.r, Pair(t.op, a.r, a.v, b.r, b.v))
    [] t.k = "cmp" -> LET n == Len(t.ops)
                          vs == [i \in 1..(n + 1) |-> Eval(t.args[i], columns)]
                          parts == [i \in 1..n |-> IF vs[i].e \/ vs[i + 1].e \/ ~Fits(vs[i], vs[i + 1]) THEN Refused
                                                   ELSE Value(TRUE, IF vs[i].r > vs[i + 1].r THEN vs[i].r ELSE vs[i + 1].r, Pair(t.ops[i], vs[i].r, vs[i].v, vs[i + 1].r, vs[i + 1].v))]
                          All[i \in 1..n] == IF i = 1 THEN parts[1]
                                             ELSE LET p == All[i - 1] q == parts[i] IN
                                                  IF p.e \/ q.e \/ ~Fits(p, q) THEN Refused ELSE Value(TRUE, IF p.r > q.r THEN p.r ELSE q.r, Pair("logical_and", p.r, p.v, q.r, q.v))
                      IN All[n]
    [] t.k = "call" -> LET as == [i \in 1..Len(t.args) |-> Eval(t.args[i], columns)] IN
                       IF \E i \in 1..Len(as) : as[i].e THEN Refused
                       ELSE IF t.f \in Unary /\ Len(as) = 1 THEN Value(t.f # "abs", as[1].r, Each(t.f, as[1].r, as[1].v))
                       ELSE IF t.f \in Binary /\ Len(as) = 2 THEN
                            IF ~Fits(as[1], as[2]) THEN Refused
                            ELSE Value(TRUE, IF as[1].r > as[2].r THEN as[1].r ELSE as[2].r, Pair(t.f, as[1].r, as[1].v, as[2].r, as[2].v))
                       ELSE Refused
    [] OTHER -> Refused

(* what a filter answers: refused, or which of the n rows are kept *)
Kept(t, columns, n) ==
  LET a == Eval(t, columns) IN
  IF a.e \/ ~a.b \/ a.r # 1 THEN [refused |-> TRUE, rows |-> <<>>]
  ELSE IF Len(a.v) # n THEN [refused |-> TRUE, rows |-> <<>>]
  ELSE [refused |-> FALSE, rows |-> [i \in 1..n |-> True(a.v[i])]]
=============================================================================
