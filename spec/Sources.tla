------------------------------- MODULE Sources -------------------------------
(***************************************************************************)
(* In which order a streaming source gives its records when nothing is      *)
(* shuffled.  A source is                                                   *)
(*   [kind |-> "files", files]   files one after the other                  *)
(*   [kind |-> "readers", files, active, quantum]   up to `active` files are *)
(*       open, read in turn, `quantum` entries each; an entry holds any     *)
(*       number of records (none when it is not asked for), of which the    *)
(*       first is given when the entry is read and the rest when it is the  *)
(*       reader's turn again                                                *)
(*   [kind |-> "mix", of, ratios, sync]   children in fixed proportion,     *)
(*       evenly interleaved; in sync only while every child can complete    *)
(*       its share, otherwise going on without the children that have ended *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(* ---------------------------------------------------------------- readers *)
Start(files, active) ==
  LET n == IF active < Len(files) THEN active ELSE Len(files) IN
  [open |-> [i \in 1..n |-> [file |-> i, at |-> 0, rest |-> <<>>]], next |-> n + 1, turn |-> 1, used |-> 0, out |-> <<>>]
Done(s) == s.open = <<>>
Without(q, i) == [k \in 1..(Len(q) - 1) |-> q[IF k < i THEN k ELSE k + 1]]
Turned(s) == [s EXCEPT !.turn = (s.turn % Len(s.open)) + 1, !.used = 0]
Read(files, quantum, s) ==                  (* one step of the reader whose turn it is *)
  LET r == s.open[s.turn] IN
  IF r.rest # <<>> THEN [s EXCEPT !.open[s.turn].rest = Tail(r.rest), !.out = Append(@, Head(r.rest))]
  ELSE IF r.at = Len(files[r.file]) THEN
    IF s.next <= Len(files) THEN [s EXCEPT !.open[s.turn] = [file |-> s.next, at |-> 0, rest |-> <<>>], !.next = @ + 1, !.used = 0]
    ELSE LET q == Without(s.open, s.turn) IN [s EXCEPT !.open = q, !.turn = IF q = <<>> THEN 1 ELSE IF @ > Len(q) THEN 1 ELSE @, !.used = 0]
  ELSE
    LET entry == files[r.file][r.at + 1]
        given == [s EXCEPT !.open[s.turn] = [r EXCEPT !.at = @ + 1, !.rest = IF entry = <<>> THEN <<>> ELSE Tail(entry)],
                           !.out = IF entry = <<>> THEN @ ELSE Append(@, Head(entry)), !.used = @ + 1] IN
    IF given.used >= quantum THEN Turned(given) ELSE given
RECURSIVE Run(_, _, _)
Run(files, quantum, s) == IF Done(s) THEN s.out ELSE Run(files, quantum, Read(files, quantum, s))

(* -------------------------------------------------------------------- mix *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE Scale(_, _), Common(_, _)
Scale(rs, n) == IF n = 0 THEN 1 ELSE LET s == Scale(rs, n - 1) IN s * (rs[n][2] \div Gcd(s, rs[n][2]))
Common(ws, n) == IF n = 0 THEN 0 ELSE Gcd(Common(ws, n - 1), ws[n])
Weights(ratios) == LET all == Scale(ratios, Len(ratios))
                       ws == [i \in 1..Len(ratios) |-> ratios[i][1] * (all \div ratios[i][2])] IN
                   [i \in 1..Len(ws) |-> ws[i] \div Common(ws, Len(ws))]
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Total(ws) == SumTo(ws, Len(ws))
(* always the child that has fallen furthest behind its share, the first of several *)
Count(c, q) == Cardinality({k \in 1..Len(q) : q[k] = c})
Behind(ws, q, c) == (Len(q) + 1) * ws[c] - Count(c, q) * Total(ws)
Choice(ws, q) == CHOOSE c \in 1..Len(ws) : \A d \in 1..Len(ws) : Behind(ws, q, c) > Behind(ws, q, d) \/ (Behind(ws, q, c) = Behind(ws, q, d) /\ c <= d)
RECURSIVE ScheduleFrom(_, _)
ScheduleFrom(ws, q) == IF Len(q) = Total(ws) THEN q ELSE ScheduleFrom(ws, Append(q, Choice(ws, q)))
Schedule(ws) == ScheduleFrom(ws, <<>>)

MinOf(S) == CHOOSE m \in S : \A n \in S : m <= n
RECURSIVE Deal(_, _, _, _)
Deal(rest, plan, k, out) ==                 (* without waiting for anyone *)
  IF \A c \in 1..Len(rest) : rest[c] = <<>> THEN out
  ELSE LET c == plan[k] next == (k % Len(plan)) + 1 IN
       IF rest[c] = <<>> THEN Deal(rest, plan, next, out)
       ELSE Deal([rest EXCEPT ![c] = Tail(@)], plan, next, Append(out, Head(rest[c])))
Mix(orders, ratios, sync) ==
  LET ws == Weights(ratios) plan == Schedule(ws) cycles == MinOf({Len(orders[c]) \div ws[c] : c \in 1..Len(ws)})
      some == [c \in 1..Len(ws) |-> IF sync THEN SubSeq(orders[c], 1, cycles * ws[c]) ELSE orders[c]] IN
  Deal(some, plan, 1, <<>>)

(* ------------------------------------------------------------------- order *)
RECURSIVE Order(_)
Order(src) == CASE src.kind = "files" -> Flat(src.files)
                [] src.kind = "readers" -> Run(src.files, src.quantum, Start(src.files, src.active))
                [] src.kind = "mix" -> Mix([i \in 1..Len(src.of) |-> Order(src.of[i])], src.ratios, src.sync)
=============================================================================
