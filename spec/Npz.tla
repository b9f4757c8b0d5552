--------------------------------- MODULE Npz ---------------------------------
(***************************************************************************)
(* What the three kinds of NPZ files mean.  Columns are nested sequences of *)
(* fractions <<n, d>> (Filter.tla), one entry per row.                      *)
(*                                                                         *)
(* processed  bf (C planes), gf (may be absent: side 0), vt, pt (planes, or *)
(*            flat with the pass last; may be absent: zeros)                *)
(* raw        planes[1..3]: mask of the board, own stones, the other's;     *)
(*            gf: one entry, or many of which the sixth is signed by side;  *)
(*            vt: fours of a value level; pt: visits, flat, pass last       *)
(* sparse     as raw with one gf entry, pt visits without pass, features    *)
(*                                                                         *)
(* A configuration asks for sizes, a side, a condition, channels, a value   *)
(* level, a pass entry, a fixed side, a fixed size.  Amounts come out in    *)
(* ten-thousandths; a policy is grid and pass (-1 when there is none).      *)
(***************************************************************************)
EXTENDS Filter

Tenk(a) == Times(a, <<10000, 1>>)[1] \div Times(a, <<10000, 1>>)[2]
In(x, s) == \E i \in 1..Len(s) : s[i] = x
Has(f, name) == name \in DOMAIN f.columns
Col(f, name) == f.columns[name].v

(* ------------------------------------------------------------ selection *)
Ones(row) == Cardinality({i \in 1..Len(row) : row[i] = <<1, 1>>})
SizeOf(f, i) == IF f.kind = "raw" THEN <<Cardinality({y \in 1..f.hw[1] : Col(f, "bf")[i][1][y][1] = <<1, 1>>}), Ones(Col(f, "bf")[i][1][1])>> ELSE f.hw
SideOf(f, i) ==
  IF f.kind = "processed" \/ Len(Col(f, "gf")[i]) = 1 THEN Col(f, "gf")[i][1]
  ELSE IF Less(<<0, 1>>, Col(f, "gf")[i][6]) THEN <<1, 1>> ELSE <<-1, 1>>
Picked(f, c) ==
  LET n == f.n
      kept == IF c.condition = <<>> \/ (f.kind # "raw" /\ ~In(f.hw, c.sizes)) THEN [refused |-> FALSE, rows |-> [i \in 1..n |-> TRUE]] ELSE Kept(c.condition[1], f.columns, n) IN
  SelectSeq([i \in 1..n |-> i], LAMBDA i : /\ In(SizeOf(f, i), c.sizes)
                                           /\ c.stm = 0 \/ SideOf(f, i) = <<c.stm, 1>>
                                           /\ kept.rows[i])

(* -------------------------------------------------------------- a sample *)
Some(x, channels) == IF channels = <<>> THEN x ELSE [k \in 1..Len(channels) |-> x[IF channels[k] < 0 THEN Len(x) + channels[k] + 1 ELSE channels[k] + 1]]
RECURSIVE SumUpTo(_, _)
SumUpTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumUpTo(s, n - 1)
Sum(s) == SumUpTo(s, Len(s))
Fold(flat, h, w) == [y \in 1..h |-> [x \in 1..w |-> flat[(y - 1) * w + x]]]
Share(flat) == LET ints == [i \in 1..Len(flat) |-> flat[i][1]] total == Sum(ints) IN
               [i \in 1..Len(flat) |-> IF total = 0 THEN 0 ELSE (ints[i] * 10000) \div total]
Zeros(h, w) == [y \in 1..h |-> [x \in 1..w |-> 0]]
Whole10k(grid) == [y \in 1..Len(grid) |-> [x \in 1..Len(grid[y]) |-> Tenk(grid[y][x])]]

(* policy as [grid, pass]; pass -1 when the sample has no pass entry *)
PolicyOf(f, i, c) ==
  LET h == f.hw[1] w == f.hw[2] IN
  IF f.kind = "processed" THEN
    IF ~Has(f, "pt") THEN [grid |-> Zeros(h, w), pass |-> IF c.pass THEN 0 ELSE -1]
    ELSE IF f.columns["pt"].r = 3 THEN [grid |-> Whole10k(Col(f, "pt")[i]), pass |-> -1]
    ELSE LET flat == Col(f, "pt")[i] IN [grid |-> Fold([k \in 1..(h * w) |-> Tenk(flat[k])], h, w), pass |-> IF c.pass THEN Tenk(flat[h * w + 1]) ELSE -1]
  ELSE LET flat == SubSeq(Col(f, "pt")[i], 1, h * w + (IF c.pass THEN 1 ELSE 0)) share == Share(flat) IN
       [grid |-> Fold(share, h, w), pass |-> IF c.pass THEN share[h * w + 1] ELSE -1]

Pad(grid, to) == IF to = <<>> THEN grid
                 ELSE [y \in 1..to[1] |-> [x \in 1..to[2] |-> IF y <= Len(grid) /\ x <= Len(grid[1]) THEN grid[y][x] ELSE 0]]
Ints(grid) == [y \in 1..Len(grid) |-> [x \in 1..Len(grid[y]) |-> grid[y][x][1]]]

Sample(f, i, c) ==
  LET planes == IF f.kind = "processed" THEN Some(Col(f, "bf")[i], c.bchannels) ELSE <<Col(f, "bf")[i][2], Col(f, "bf")[i][3]>>
      side == IF f.kind = "processed" THEN (IF ~Has(f, "gf") THEN <<0>> ELSE LET g == Some(Col(f, "gf")[i], c.schannel) IN [k \in 1..Len(g) |-> Tenk(g[k])])
              ELSE <<Tenk(SideOf(f, i))>>
      value == IF f.kind = "processed" THEN Some(Col(f, "vt")[i], c.vchannels) ELSE SubSeq(Col(f, "vt")[i], 4 * c.level + 1, 4 * c.level + 3)
      turned == c.fixed /\ side[1] > 0
      n == Len(planes)
      policy == PolicyOf(f, i, c) IN
  [size |-> SizeOf(f, i), side |-> side,
   board |-> [k \in 1..n |-> Pad(Ints(IF turned THEN planes[n + 1 - k] ELSE planes[k]), c.pad)],
   value |-> [k \in 1..Len(value) |-> Tenk(IF turned /\ k <= 2 THEN value[3 - k] ELSE value[k])],
   grid |-> Pad(policy.grid, c.pad), pass |-> policy.pass,
   features |-> IF f.kind = "sparse" THEN [k \in 1..Len(f.features[i]) |-> Pad(f.features[i][IF turned THEN c.swap[k] ELSE k], c.pad)] ELSE <<>>]

(* a condition that some file of an asked-for size has no answer to *)
Meaningless(fs, c) == c.condition # <<>> /\ \E n \in 1..Len(fs) : /\ fs[n].kind = "raw" \/ In(fs[n].hw, c.sizes)
                                                                 /\ Kept(c.condition[1], fs[n].columns, fs[n].n).refused

(* the samples of a data set, in order *)
RECURSIVE Samples(_, _, _)
Samples(fs, n, c) == IF n = 0 THEN <<>> ELSE LET p == Picked(fs[n], c) IN Samples(fs, n - 1, c) \o [k \in 1..Len(p) |-> Sample(fs[n], p[k], c)]
=============================================================================
