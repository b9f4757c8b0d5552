----------------------------- MODULE ExportTrace -----------------------------
(***************************************************************************)
(* Exports recorded from the real exporter.                                 *)
(*                                                                         *)
(* kind "weights": a request (rules, sizes, arch, text, form, scale), the   *)
(*   checkpoints it could choose from, a planted fault, what the output     *)
(*   path held before each file operation, and the file at the end.         *)
(* kind "version": the packed ONNX version number and what it parses to.    *)
(* kind "jit": values of the exported and of the plain model.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES cid, l, err
tvars == <<cid, l, err>>
C == Cases[cid]

TInit == cid \in 1..Len(Cases) /\ l = 1 /\ err = ""

Pow2(k) == 2^k
Rules == [freestyle |-> 0, standard |-> 1, renju |-> 2]
RuleMask(rs) == FoldSet(LAMBDA b, a : a + Pow2(b), 0, {Rules[r] : r \in rs})
SizeByte(ns, b) == FoldSet(LAMBDA k, a : IF 8 * b + k + 1 \in ns THEN a + Pow2(k) ELSE a, 0, 0..7)

(* the request: the first of the accepted spellings that is there *)
Field(name) == C.args[name]
RulesOf ==
  CASE Field("rule").set -> Field("rule").v
    [] Field("rule_list").set -> Field("rule_list").v
    [] OTHER -> Field("rules").v
RulesGiven == Field("rule").set \/ Field("rule_list").set \/ Field("rules").set
RulesOk == RulesGiven /\ Len(RulesOf) > 0 /\ \A k \in DOMAIN RulesOf : RulesOf[k] \in DOMAIN Rules
SizesOf ==
  CASE Field("board_size").set -> Field("board_size").v
    [] Field("range").set -> IF Field("range").v[1] > Field("range").v[2] THEN <<>>
                             ELSE [k \in 1..(Field("range").v[2] - Field("range").v[1] + 1) |-> Field("range").v[1] + k - 1]
    [] Field("board_size_list").set -> Field("board_size_list").v
    [] Field("boardsizes").set -> Field("boardsizes").v
    [] OTHER -> [k \in 1..32 |-> k]
SizesOk == \A k \in DOMAIN SizesOf : SizesOf[k] \in 1..32

(* the checkpoint: the named one, else the latest below ckpts/, else the latest in the run directory *)
Latest(S) == CHOOSE c \in S : \A d \in S : d.it <= c.it
Candidates(where) == {c \in ToSet(C.files) : c.where = where /\ c.match}
Chosen ==
  IF C.explicit # 0 THEN C.explicit
  ELSE IF Candidates("ckpts") # {} THEN Latest(Candidates("ckpts")).id
  ELSE IF Candidates("root") # {} THEN Latest(Candidates("root")).id
  ELSE 0

Weight(id, k) == (id * 37 + k * 11) % 251
Value(k) == (Weight(Chosen, k) * C.scale) % 256
Payload == [k \in 1..C.width |-> IF C.text THEN 97 + (Value(k) % 26) ELSE Value(k)]
Byte(n, b) == (n \div Pow2(8 * b)) % 256
Headed == C.header /\ ~C.text

Accept == RulesOk /\ SizesOk /\ C.known /\ Chosen # 0
Outcome == IF Accept /\ C.fault = "" THEN "ok" ELSE "failed"

FileErr ==
  LET f == C.file
      rs == ToSet(RulesOf) ns == ToSet(SizesOf) IN
  IF ~Headed THEN IF f = Payload THEN "" ELSE "the file is not the payload of the model"
  ELSE LET head == <<106, 204, 216, 172>> \o SubSeq(C.arch, 1, 4) \o <<RuleMask(rs), 0, 0, 0>> \o [b \in 1..4 |-> SizeByte(ns, b - 1)]
           dlen == IF Len(f) >= 20 THEN f[17] + 256 * f[18] + 65536 * f[19] ELSE 0
           desc == C.description IN
       IF Len(f) < 20 THEN "the file has no header"
       ELSE IF SubSeq(f, 1, 4) # SubSeq(head, 1, 4) THEN "the header does not begin with the magic number"
       ELSE IF SubSeq(f, 5, 8) # SubSeq(head, 5, 8) THEN "the header holds another architecture hash"
       ELSE IF SubSeq(f, 9, 12) # SubSeq(head, 9, 12) THEN "the header advertises other rules than asked for"
       ELSE IF SubSeq(f, 13, 16) # SubSeq(head, 13, 16) THEN "the header advertises other board sizes than asked for"
       ELSE IF Len(f) # 20 + dlen + C.width \/ f[20] # 0 THEN "the description length does not lead to the payload"
       ELSE IF dlen < Len(desc) \/ SubSeq(f, 21, 20 + Len(desc)) # desc THEN "the description is not the one given"
       ELSE IF SubSeq(f, 21 + dlen, Len(f)) # Payload THEN "the file is not the payload of the model"
       ELSE ""

(* the output path during the export: "before", then at one moment "new" *)
StepErr(k) ==
  LET s == C.steps[k] IN
  IF s \notin {"before", "new"} THEN "the output path held neither the old nor the complete new file"
  ELSE IF k > 1 /\ C.steps[k - 1] = "new" /\ s = "before" THEN "the new file was taken back"
  ELSE IF k = Len(C.steps) THEN
     IF C.outcome = "ok" THEN IF Outcome # "ok" THEN "an export that had to fail reported success"
                              ELSE IF s # "new" THEN "a successful export left no file"
                              ELSE IF ~C.place THEN "the file was written under another name"
                              ELSE FileErr
     ELSE IF Outcome = "ok" THEN "a valid export failed"
     ELSE IF s # "before" THEN "a failed export changed the output file"
     ELSE ""
  ELSE ""

VersionErr ==
  LET io == C.io
      bytes == <<io \div 256, io % 256, 0, RuleMask(ToSet(C.rules))>> \o [b \in 1..4 |-> SizeByte(ToSet(C.sizes), 4 - b)]
      sizes == [k \in 1..32 |-> k] IN
  IF io \notin 1..32767 THEN IF C.refused THEN "" ELSE "an impossible interface version was accepted"
  ELSE IF C.refused THEN "a valid interface version was refused"
  ELSE IF C.bytes # bytes THEN "the version number does not encode the request"
  ELSE IF C.parsed.io # io \/ ToSet(C.parsed.rules) # ToSet(C.rules) \/ ToSet(C.parsed.sizes) # ToSet(C.sizes)
       THEN "the version number does not parse to what it was made of"
  ELSE ""

Abs(x) == IF x < 0 THEN -x ELSE x
JitErr ==
  IF C.failed # "" THEN "a model could not be exported as TorchScript"
  ELSE IF Len(C.got) # Len(C.want) THEN "the exported model answers in another shape"
  ELSE IF \E k \in DOMAIN C.want : Abs(C.got[k] - C.want[k]) > 2 + Abs(C.want[k]) \div 10000 THEN "the exported model computes something else"
  ELSE ""

Events == IF C.kind = "weights" THEN Len(C.steps) ELSE 1
Step ==
  /\ err = "" /\ l <= Events
  /\ l' = l + 1
  /\ err' = CASE C.kind = "weights" -> StepErr(l) [] C.kind = "version" -> VersionErr [] OTHER -> JitErr
  /\ UNCHANGED cid
TNext == Step
Report == err # "" => PrintT("@@" \o ToJson([case |-> cid, step |-> l - 1, clause |-> err]))
=============================================================================
