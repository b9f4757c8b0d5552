----------------------------- MODULE AsyncWriter -----------------------------
(***************************************************************************)
(* Checkpoints written in the background: a training thread that changes    *)
(* tensors on a compute stream and hands saves to a writer, a copy stream   *)
(* that takes the snapshot, and a thread that writes the files of a save    *)
(* and prunes afterwards.  Streams run behind the thread that filled them,  *)
(* each in order, and order between them is only what they wait for.        *)
(*                                                                         *)
(* The five switches are the waits of the design; with any of them off an   *)
(* invariant below fails (checks/t07.py shows it).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Cells,            \* number of tensors
          Shape,            \* Shape[f]: the sequence of cells file f of a save holds
          Length,           \* operations of the training thread before its last flush
          CopyWaits,        \* the copy stream waits for the compute stream's tail
          ComputeWaits,     \* the compute stream waits for the snapshot
          WriterWaits,      \* the writer waits for the snapshot
          SubmitJoins,      \* a save waits for the save before it
          HookLast,         \* pruning waits for every file
          Faults,           \* files and pruning may fail
          Gen               \* print complete schedules, streams run as far as they can
Files == Len(Shape)
VARIABLES host,      \* "ready" | "submit" | "flush" | "over"
          left,      \* operations left
          values,    \* what the training thread has given each tensor
          compute, copy,   \* queues of the streams
          memory,    \* what each tensor holds on the device
          snaps,     \* <<save, cell>> -> what its clone holds
          passed,    \* events that happened
          wanted,    \* save -> the values its files have to hold
          jobs,      \* save -> "none" | "staged" | "writing" | "ended"
          next,      \* save -> next file (Files + 1: pruning)
          error,     \* the save whose failure has not been reported, or 0
          disk,      \* what was written, in order: [save, file, content], file 0 is pruning
          failed, told,    \* saves that failed; saves whose failure was raised
          log
vars == <<host, left, values, compute, copy, memory, snaps, passed, wanted, jobs, next, error, disk, failed, told, log>>
Saves == 1..Length
Note(x) == log' = IF Gen THEN Append(log, x) ELSE log
Init == /\ host = "ready" /\ left = Length /\ values = [c \in 1..Cells |-> 0] /\ compute = <<>> /\ copy = <<>>
        /\ memory = values /\ snaps = [s \in Saves \X (1..Cells) |-> -1] /\ passed = {} /\ wanted = [s \in Saves |-> <<>>]
        /\ jobs = [s \in Saves |-> "none"] /\ next = [s \in Saves |-> 1] /\ error = 0 /\ disk = <<>> /\ failed = {} /\ told = {} /\ log = <<>>

(* ---- the streams ---- *)
\* one step of a queue on the device's memory; st = [q, m, s, p]
Stuck(st) == st.q = <<>> \/ (Head(st.q).op = "wait" /\ Head(st.q).e \notin st.p)
One(st) == LET o == Head(st.q) IN
           [q |-> Tail(st.q),
            m |-> IF o.op = "set" THEN [st.m EXCEPT ![o.c] = o.v] ELSE st.m,
            s |-> IF o.op = "clone" THEN [st.s EXCEPT ![<<o.s, o.c>>] = st.m[o.c]] ELSE st.s,
            p |-> IF o.op = "record" THEN st.p \cup {o.e} ELSE st.p]
RECURSIVE All(_)
All(st) == IF Stuck(st) THEN st ELSE All(One(st))
Runs(q) == LET st == [q |-> q, m |-> memory, s |-> snaps, p |-> passed] IN IF Gen THEN All(st) ELSE One(st)
Device(name, q) == /\ ~Stuck([q |-> q, p |-> passed])
                   /\ LET st == Runs(q) IN
                      /\ memory' = st.m /\ snaps' = st.s /\ passed' = st.p
                      /\ IF name = "compute" THEN compute' = st.q /\ UNCHANGED copy ELSE copy' = st.q /\ UNCHANGED compute
                   /\ Note([a |-> "device", q |-> name, c |-> 0, fail |-> FALSE])
                   /\ UNCHANGED <<host, left, values, wanted, jobs, next, error, disk, failed, told>>

(* ---- the training thread ---- *)
Change(c) == /\ host = "ready" /\ left > 0 /\ left' = left - 1
             /\ values' = [values EXCEPT ![c] = Length - left + 1]
             /\ compute' = Append(compute, [op |-> "set", c |-> c, v |-> Length - left + 1])
             /\ Note([a |-> "set", q |-> "", c |-> c, fail |-> FALSE])
             /\ UNCHANGED <<host, copy, memory, snaps, passed, wanted, jobs, next, error, disk, failed, told>>
Call(what) == /\ host = "ready" /\ (left > 0 \/ what = "flush") /\ left' = (IF left > 0 THEN left - 1 ELSE 0)
              /\ host' = (IF left = 0 THEN "over" ELSE what)
              /\ Note([a |-> what, q |-> "", c |-> 0, fail |-> FALSE])
              /\ UNCHANGED <<values, compute, copy, memory, snaps, passed, wanted, jobs, next, error, disk, failed, told>>
Busy == \E s \in Saves : jobs[s] \in {"staged", "writing"}
Taken == Cardinality({s \in Saves : jobs[s] # "none"})
\* events of save s: 2s-1 the compute stream's tail, 2s the snapshot
Used == UNION {{Shape[f][i] : i \in 1..Len(Shape[f])} : f \in 1..Files}
RECURSIVE Clones(_, _)
Clones(s, set) == IF set = {} THEN <<>> ELSE LET c == CHOOSE x \in set : \A y \in set : x <= y IN <<[op |-> "clone", s |-> s, c |-> c]>> \o Clones(s, set \ {c})
Raise == /\ error # 0 /\ told' = told \cup {error} /\ error' = 0
Return == /\ host \in {"submit", "flush", "over"} /\ (Busy => (host = "submit" /\ ~SubmitJoins))
          /\ host' = (IF host = "over" THEN "done" ELSE "ready")
          /\ Note([a |-> "return", q |-> host, c |-> 0, fail |-> error # 0])
          /\ IF error # 0 THEN Raise /\ UNCHANGED <<compute, copy, wanted, jobs>>
             ELSE /\ UNCHANGED <<told, error>>
                  /\ IF host # "submit" THEN UNCHANGED <<compute, copy, wanted, jobs>>
                     ELSE LET s == Taken + 1 IN
                          /\ wanted' = [wanted EXCEPT ![s] = values] /\ jobs' = [jobs EXCEPT ![s] = "staged"]
                          /\ compute' = compute \o <<[op |-> "record", e |-> 2 * s - 1]>> \o (IF ComputeWaits THEN <<[op |-> "wait", e |-> 2 * s]>> ELSE <<>>)
                          /\ copy' = copy \o (IF CopyWaits THEN <<[op |-> "wait", e |-> 2 * s - 1]>> ELSE <<>>) \o Clones(s, Used) \o <<[op |-> "record", e |-> 2 * s]>>
          /\ UNCHANGED <<left, values, memory, snaps, passed, next, disk, failed>>

(* ---- the writer ---- *)
Ready(s) == jobs[s] \in {"staged", "writing"} /\ (WriterWaits => 2 * s \in passed)
File(s) == IF next[s] > Files THEN 0 ELSE next[s]
Done(s) == IF HookLast THEN next[s] > Files ELSE next[s] > Files - 1
Write(s) == /\ Ready(s) /\ next[s] <= Files
            /\ disk' = Append(disk, [save |-> s, file |-> next[s], content |-> [i \in 1..Len(Shape[next[s]]) |-> snaps[<<s, Shape[next[s]][i]>>]]])
            /\ next' = [next EXCEPT ![s] = @ + 1] /\ jobs' = [jobs EXCEPT ![s] = "writing"]
            /\ Note([a |-> "file", q |-> "", c |-> s, fail |-> FALSE])
            /\ UNCHANGED <<host, left, values, compute, copy, memory, snaps, passed, wanted, error, failed, told>>
Prune(s) == /\ Ready(s) /\ Done(s) /\ (~HookLast \/ next[s] = Files + 1)
            /\ disk' = Append(disk, [save |-> s, file |-> 0, content |-> <<>>])
            /\ next' = [next EXCEPT ![s] = Files + 2] /\ jobs' = [jobs EXCEPT ![s] = "ended"]
            /\ Note([a |-> "file", q |-> "", c |-> s, fail |-> FALSE])
            /\ UNCHANGED <<host, left, values, compute, copy, memory, snaps, passed, wanted, error, failed, told>>
Fail(s) == /\ Faults /\ Ready(s) /\ next[s] <= Files + 1
           /\ failed' = failed \cup {s} /\ error' = s /\ jobs' = [jobs EXCEPT ![s] = "ended"]
           /\ Note([a |-> "file", q |-> "", c |-> s, fail |-> TRUE])
           /\ UNCHANGED <<host, left, values, compute, copy, memory, snaps, passed, wanted, next, disk, told>>

Next == \/ \E c \in 1..Cells : Change(c)
        \/ \E what \in {"submit", "flush"} : Call(what)
        \/ Return
        \/ Device("compute", compute) \/ Device("copy", copy)
        \/ \E s \in Saves : Write(s) \/ Prune(s) \/ Fail(s)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Next)

(* ---- what is promised ---- *)
Frozen == \A i \in 1..Len(disk) : disk[i].file > 0 => disk[i].content = [k \in 1..Len(Shape[disk[i].file]) |-> wanted[disk[i].save][Shape[disk[i].file][k]]]
\* the files of a save in order, and pruning after the last of them
InOrder == \A i \in 1..Len(disk) : LET d == disk[i] before == {j \in 1..i-1 : disk[j].save = d.save} IN
              IF d.file = 0 THEN Cardinality(before) = Files ELSE Cardinality(before) = d.file - 1
\* nothing of an earlier save is written once a later one has begun
OneAtATime == \A i \in 1..Len(disk), j \in 1..Len(disk) : i < j => disk[i].save <= disk[j].save
OneBusy == Cardinality({s \in Saves : jobs[s] \in {"staged", "writing"}}) <= 1
\* a save that was accepted after another found it complete
Complete == \A s \in Saves : (jobs[s] # "none" /\ s > 1) => jobs[s - 1] = "ended" /\ (s - 1 \in failed => s - 1 \in told)
\* when the run is over everything is on disk and every failure was raised
Over == host = "done" => ~Busy /\ error = 0 /\ told = failed
AllThere == host = "done" => \A s \in Saves : jobs[s] = "none" \/ s \in failed \/ next[s] = Files + 2
Once == told \subseteq failed
Ends == <>(host = "done")
PrintDone == (Gen /\ host = "done") => PrintT("@@" \o ToJson(log))
=============================================================================
