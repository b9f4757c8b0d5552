"""Writes properties.jsonl and MANIFEST.json from one catalogue (run: python3 tools/catalog.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique=None, note=None, observe=(),
         state=(), reason=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=list(observe), state=list(state),
                  reason=reason))


NO_TESTS = "The existing tests cover model equivalence, a training trajectory, benchmarks and the TensorBoard writer; "
TRUST = ("Model checking is exhaustive within small bounds; the binding to the code is by replaying generated and "
         "random cases on the real classes, so it is as strong as those cases. Trusts TLC, the harness's data writers "
         "and CPU PyTorch. ")

prop("D01", "Shuffle buffer delivers every record exactly once, reproducibly",
     "The streaming shuffle buffer hands out every record it was given exactly once and holds no more than its record "
     "and byte limits. The order of departure depends only on the records, the limits, the seed and the epoch: not on how arrivals are "
     "grouped into calls, and not on which implementation (Python, native packed) is used. A saved buffer restored "
     "elsewhere continues with the same order, and a malformed saved state is refused.",
     ["inputs", "schedules", "histories"],
     "every sequence of offers (any grouping, any sizes), capacity, byte limit, seed, epoch and every point to save and restore",
     NO_TESTS + "none touches the buffer, and no sample settles every grouping and save point.",
     ["dataset/shuffle.py", "dataset/packed.py", "dataset/planner_cpp/packed_uint64.cpp"],
     [("bounded window with random displacement", "dataset/shuffle.py StreamingShuffleReservoir"),
      ("native twin with the same random stream", "dataset/planner_cpp")],
     "TLA+ (TLC): Reservoir.tla invariants; TLC-generated call schedules replayed on both real implementations and judged by ReservoirTrace.tla",
     TRUST + "Byte-limited buffers exist only in Python.")

prop("D02", "An epoch delivers each record once, in full same-size batches",
     "In one epoch every record is delivered at most once; every batch has exactly the configured number of rows, all of one board size, "
     "and a record is delivered with its own board, side, value and policy. Training leaves out less than one batch of each board size and evaluation nothing: "
     "evaluation pads its last batch of a board size with flagged copies of rows of that batch, training never pads, and only the last batch of the epoch is marked last; an epoch budget of batches is met exactly. "
     "The order is the source order when shuffling is off, and otherwise a permutation fixed by seed and epoch that differs between epochs and seeds and moves a record ahead of its source position by less than the window.",
     ["inputs", "configurations"],
     "every supported data format, mix of board sizes, batch size, window, byte limit, budget, seed and epoch, training and evaluation, including map-style evaluation",
     NO_TESTS + "no test reads data through the planner.",
     ["dataset/planner.py", "dataset/source_dataset.py", "dataset/stream.py", "dataset/__init__.py", "dataset/npz_source.py",
      "dataset/sequential_source.py", "dataset/composite_source.py", "dataset/shuffle.py"],
     [("per-shape queues, budget, padding with a real-row mask", "dataset/planner.py DatasetPlanner"),
      ("masked tail for map-style evaluation", "dataset/source_dataset.py, dataset/core.py EvaluationBatchPlannerDataset")],
     "TLA+ (TLC): EpochPlan.tla invariants; epochs recorded from the real datasets judged batch by batch by EpochPlanTrace.tla (exact recomputation when unshuffled)",
     TRUST)

prop("D03", "Ranks of a distributed run partition the global batches",
     "With several ranks the rows of all ranks together are exactly the global batch of a single-rank run with the global batch size, for every source that can be partitioned exactly; "
     "evaluation across ranks covers every record once. Sources that cannot are sharded: each rank reads only its own files, the shards are disjoint, complete and balanced in size (a rank without its smallest file is never heavier than another), every rank delivers exactly the budgeted number of batches and repeats a record only after using all others. "
     "All ranks agree on the position they report, whatever the hash seed or directory enumeration order of each process, and a sharded position is refused on another rank.",
     ["inputs", "configurations"],
     "every format, number of ranks, batch size, file layout, epoch, budget, process hash seed and directory order",
     NO_TESTS + "nothing runs the data path with more than one rank.",
     ["dataset/planner.py", "dataset/source_dataset.py", "dataset/sequential_source.py", "dataset/composite_source.py", "dataset/npz_source.py", "utils/file_utils.py"],
     [("replicated plan with rank slices, or greedy file shards", "dataset/planner.py, dataset/sequential_source.py"),
      ("sorted file enumeration", "utils/file_utils.py make_file_list")],
     "TLA+ (TLC): Partition.tla and sharded EpochPlan.tla; one real process per rank (own hash seed and directory order) recorded and judged by PartitionTrace.tla and EpochPlanTrace.tla",
     TRUST + "Ranks are separate processes running the data path; the collective communication between them is not part of this check.")

prop("D04", "Streaming position is transactional: no batch lost, repeated or reordered",
     "Over any history of fetching, committing, rolling back, saving and restoring in a fresh process, the batches a streaming data set delivers are those of an uninterrupted run: after a rollback the uncommitted batches come again identically (data, augmentation and per-sample randomness included), "
     "and a saved position holds exactly the committed batches, never read-ahead. Only the next delivered batches in order can be committed, and a refused commit changes nothing. A position saved under another seed, batch size, shuffling, window or budget is refused.",
     ["histories", "schedules", "configurations"],
     "every interleaving of fetch, commit, rollback, save and load over every resumable source, with prefetching on or off and across epoch boundaries",
     NO_TESTS + "none saves or restores a data position.",
     ["dataset/planner.py", "dataset/source_dataset.py", "dataset/stream.py", "dataset/core.py", "dataset/npz_source.py", "dataset/sequential_source.py", "dataset/composite_source.py", "dataset/packed.py"],
     [("chained tokens, prepared commits and committed snapshots", "dataset/planner.py"),
      ("pipeline state carried with the token", "dataset/core.py PipelineStateComposer")],
     "TLA+ (TLC): PlannerProtocol.tla refines PlanTransaction.tla; TLC-generated and random histories replayed on the real datasets, judged by PlanTransactionTrace.tla",
     TRUST)


prop("T01", "Each optimizer step uses exactly the next batches of the schedule",
     "A training run takes its batches in the order of the data set's schedule: every optimizer step consumes exactly the configured number of consecutive micro-batches, none skipped, repeated or shared with another step, also across the end of an epoch and whatever fault strikes in between. "
     "The step leaves the weights, optimizer and scheduler state that a plain loop of averaged gradients, clipping, optimizer step and weight clipping on those batches leaves. Iteration, epoch and row counters count exactly the finished steps, and validation runs exactly at its due iterations.",
     ["configurations", "histories"],
     "every data format, batch size, accumulation, clipping, optimizer, schedule and logging configuration, over sessions ended by a crash, an error or an interrupt at any point of an iteration",
     NO_TESTS + "the trajectory test follows one configuration without faults, accumulation boundaries or resuming.",
     ["trainer/base.py", "trainer/supervised.py", "utils/training_utils.py", "dataset/stream.py", "dataset/source_dataset.py", "dataset/planner.py"],
     [("staged batches committed with the step they were used in", "trainer/base.py training loop"),
      ("gradient accumulation windows", "trainer/base.py"), ("optimizer and scheduler construction", "utils/training_utils.py")],
     "TLA+ (TLC): Trainer.tla invariants over every fault schedule; TLC-generated fault schedules replayed on the real trainer and judged event by event by TrainerTrace.tla",
     TRUST + "One process on CPU; distributed collectives and mixed precision are outside.")

prop("T02", "A resumed training run continues the uninterrupted run exactly",
     "Sessions that load the newest saved state of a run directory together follow the uninterrupted run: same batches, same weights, optimizer, scheduler and random generator state after every iteration, same row and epoch counters. "
     "This holds wherever the earlier sessions ended (crash, error or interrupt in any phase of an iteration or of a save), for every data format and kind of loader, and any number of times in a row.",
     ["histories", "crash points", "configurations"],
     "every sequence of sessions, fault point, save interval, retention, data format, optimizer and scheduler",
     NO_TESTS + "none resumes a run.",
     ["trainer/base.py", "trainer/supervised.py", "utils/training_utils.py", "utils/async_checkpoint.py", "dataset/planner.py", "dataset/stream.py", "dataset/source_dataset.py"],
     [("training state file: optimizer, scheduler, RNG, data position", "trainer/base.py save and load of training state"),
      ("resumable samplers and streaming positions", "utils/training_utils.py, dataset/stream.py")],
     "TLA+ (TLC): Trainer.tla; multi-session fault schedules from TLC replayed on the real trainer, every state and file compared with the uninterrupted run by TrainerTrace.tla",
     TRUST + "Same machine, CPU and iteration budget on resume.")

prop("T03", "A non-finite step never reaches a checkpoint or validation",
     "When the loss or the gradients of a step are not finite, no model or state file with that step in it is ever written, neither by a due save nor by the rescue save of an interrupt or error, and no validation runs on it. "
     "Training stops within one further iteration although the finite check is read late, the run reports the failure, and the files written before remain as they were. A run whose steps are all finite is never stopped by the check.",
     ["inputs", "histories"],
     "every step and micro-batch at which numbers go wrong, every save, state and validation interval, accumulation, and every interrupt or error around it",
     NO_TESTS + "none produces a non-finite step.",
     ["trainer/base.py", "trainer/supervised.py"],
     [("pipelined finite check, drained before saves and validation", "trainer/base.py")],
     "TLA+ (TLC): Trainer.tla NoBadFile (violated by the design without the drain); spoiled steps from TLC replayed on the real trainer and judged by TrainerTrace.tla",
     TRUST)

prop("T04", "Checkpoints are crash consistent and pruned as configured",
     "At every moment of a run, and after a crash or error at any point of saving, the run directory holds only complete checkpoint files whose content is that of the uninterrupted run at their iteration, and every training state has its model weights beside it. "
     "Permanent snapshots, the newest snapshot and snapshots of earlier sessions are never deleted, the configured number of training states is kept and no more, and a snapshot or state is written exactly when due. A new session starts from the newest state.",
     ["crash points", "configurations", "histories"],
     "every fault in writing the model, the state, pruning and between them, over several sessions and every save, temporary save, state interval and retention",
     NO_TESTS + "none interrupts a save.",
     ["trainer/base.py", "utils/async_checkpoint.py", "utils/file_utils.py"],
     [("model written before state, atomic replace, pruning last", "trainer/base.py checkpoint saving"),
      ("ordered checkpoint writer", "utils/async_checkpoint.py")],
     "TLA+ (TLC): Trainer.tla directory invariants; TLC fault schedules inside saves replayed on the real trainer, each directory listing judged by TrainerTrace.tla",
     TRUST + "Crashes are process crashes at file-operation boundaries; loss of unsynced disk writes is outside.")

prop("T06", "Sampling of map-style data is resumable, exact and rank independent",
     "A training sampler of map-style data visits every row at most once per epoch, in source order or in an order fixed by seed and epoch; the ranks of a distributed run take equally many rows, and together the same rows in the same order as a single process. "
     "Whatever was read ahead, rolled back, saved or restored, the batches delivered are those of the uninterrupted run with the epoch they belong to, the committed position is exactly the batches committed, and committing anything but the next delivered batches is refused without effect. "
     "A position of another length, seed, order, rank or number of ranks, or outside the data, is refused.",
     ["histories", "configurations"],
     "every length, batch size, remainder policy, read-ahead, seed, epoch, rank and history of reads, commits, rollbacks, saves and restores, including positions saved by the previous format",
     NO_TESTS + "none resumes a sampler.",
     ["utils/training_utils.py", "trainer/base.py"],
     [("staged and committed cursors over a seeded permutation", "utils/training_utils.py ResumableSampler")],
     "TLA+ (TLC): Sampler.tla (refines PlanTransaction.tla); TLC-generated and random operation histories replayed on the real sampler behind the real loader, judged by PlanTransactionTrace.tla and SamplerTrace.tla",
     TRUST)


prop("T05", "Evaluation reports describe exactly the real rows",
     "A validation or test report is, for each global batch, the mean of the metric over its real rows (or the maximum, for maxima), whatever the split among ranks, the padding of the last batch or the rows replayed to even out ranks; padded copies never count and the entry count is exact. "
     "The loss reported for a batch in validation is the loss training computes on the same rows. Every rank takes part without failing even when it holds only padding, only the main rank reports, and the result file equals the report.",
     ["inputs", "configurations"],
     "every number of rows, batch size, number of ranks, split of rows, padding, metric and loss setting",
     NO_TESTS + "none evaluates a padded batch or more than one rank.",
     ["trainer/base.py", "trainer/supervised.py", "trainer/metric/supervised.py", "test.py", "utils/training_utils.py", "dataset/core.py", "dataset/source_dataset.py"],
     [("masked per-row metrics gathered over ranks", "trainer/supervised.py, trainer/metric/supervised.py, test.py"),
      ("padded tails with a real-row mask", "dataset/source_dataset.py, dataset/planner.py")],
     "TLA+ (TLC): Metrics.tla invariants; real test and validation runs on one process and on real process groups recorded and judged by MetricsTrace.tla against per-row values",
     TRUST)


prop("T09", "Ranks train as one and fail together",
     "On several ranks every rank holds the same weights, optimizer and schedule after each iteration, those of a single process training on the global batches; counters count global batches, logged losses are means over ranks, and only the first rank writes. "
     "A failure of any rank in fetching, hooks, loss, optimizer, validation or saving ends the run on all ranks in that iteration, told to all, and none waits for ever or goes on alone. "
     "The run resumes exactly on the same number of ranks, each with its own random numbers, and another number of ranks is refused.",
     ["histories", "schedules", "configurations"],
     "every number of ranks, data format, optimizer, accumulation, save schedule, and rank, phase and iteration of a failure",
     NO_TESTS + "none trains on more than one rank.",
     ["trainer/base.py", "trainer/supervised.py", "utils/training_utils.py", "dataset/planner.py"],
     [("collective exchange of failures after every phase", "trainer/base.py _synchronize_phase_errors, _synchronize_step_validity"),
      ("per-rank resume states in one file", "trainer/base.py save / load")],
     "TLA+ (TLC): DistTrainer.tla exhaustively (deadlock freedom and agreement, each exchange shown necessary); real process groups of 1-3 ranks with planted failures recorded and judged by DistTrace.tla",
     TRUST)


prop("E01", "Exported files are complete, correctly labelled and never half-written",
     "At every moment of an export, and after it fails or dies anywhere, the output file is the old one or the complete new one, and a request that cannot be honoured (rules, board sizes, model, checkpoint) is refused without touching it. "
     "The file holds the weights of the chosen checkpoint (the named one, else the latest of the run), under a header whose magic, architecture hash, rule and board-size masks and description length are exactly those requested; forms with and without header or compression carry the same payload. "
     "A TorchScript export computes what the model computes, and an ONNX version number decodes to what it was made of.",
     ["inputs", "crash points", "configurations"],
     "every request, set of checkpoints, old output, leftover of an earlier export, and point of failure",
     NO_TESTS + "none exports a file.",
     ["export.py", "model/serialization/__init__.py", "utils/file_utils.py"],
     [("temporary file renamed over the output", "export.py export_serialization"), ("engine-facing header", "export.py export_serialization, model/serialization/__init__.py"),
      ("choice of the checkpoint", "export.py export, utils/file_utils.py find_latest_ckpt")],
     "TLA+ (TLC): Export.tla exhaustively (crash at any operation); real exports, through the function and the command line, with planted write errors and full disks, the output path observed at every file operation, judged by ExportTrace.tla",
     TRUST)


prop("S04", "A point is marked forbidden exactly when the Renju rules forbid it",
     "For every position a point of the board is marked exactly when black may not play there: it is empty, makes no five, and makes an overline, two fours (also on one line) or two threes, "
     "where a three counts only when it can become a straight four by a move that is itself allowed. The answer is about the board whoever is to move and in whichever order the planes hold the colours, is the same alone, in a batch or served by a dataset, "
     "and never marks padding; a board too large for the rules engine (over 22) is refused.",
     ["inputs"],
     "every position, board size, padding, side to move, plane order and batch",
     NO_TESTS + "none computes forbidden points, whose rule is recursive.",
     ["dataset/pipeline/forbidden_point.py", "dataset/pipeline/forbidden_point_cpp/board.cpp", "dataset/pipeline/forbidden_point_cpp/forbidden_point.cpp"],
     [("rules engine", "dataset/pipeline/forbidden_point_cpp/board.cpp"), ("planes to board", "dataset/pipeline/forbidden_point.py ForbiddenPointPipeline")],
     "TLA+ (TLC): Renju.tla states the recursive rules; every line of 9 (thorough 11) points in four directions, and random, shaped and dataset-served positions are judged point by point by TLC (RenjuLines.tla, RenjuTrace.tla)",
     TRUST)


prop("S01", "A training row is its record seen under one symmetry and one side convention",
     "Every row a data set serves is the image of its record under one symmetry of the requested kind: board, policy, sparse features, moves and last move are turned alike, padding stays right and below, and pass entry, value and side to move stay. "
     "With a fixed side, a white-to-move record has the colours of its planes, its win and loss, and its paired sparse planes exchanged. "
     "Which symmetry a record gets depends only on seed, epoch and record (not on batches, order or ranks for file-sharded data), varies between epochs, uses every allowed symmetry, and the stored data is never altered; a kind that would change the shape of the board is refused.",
     ["inputs", "configurations", "histories"],
     "every record, data set type, board and plane size, side convention, symmetry kind, batch size, order, rank and epoch",
     NO_TESTS + "none compares a transformed sample with its source.",
     ["utils/data_utils.py", "dataset/decoder.py", "dataset/katago.py", "dataset/simple_binary.py", "dataset/packed_binary.py", "dataset/sparse_numpy.py"],
     [("one transformation of all fields", "utils/data_utils.py SamplePostProcessor.process_sample"), ("vectorised twin", "dataset/decoder.py ProcessedNpzDecoder._post_process_vectorized"),
      ("symmetry keyed by record", "dataset/core.py uniform_below, _uniform_below_for_processed_sample_keys_v2")],
     "TLA+ (TLC): Symmetry.tla (group facts exhaustively up to 4x4); real symmetries compared point by point with TLC's tables, and rows from every data set type and from the post-processor judged by SampleTrace.tla",
     TRUST + "A distributed binary stream with an epoch budget may pass twice over a file and then turns a record anew; that is not judged.")


prop("S02", "A binary game file yields exactly the samples its bits mean",
     "A simple or packed game file, plain or lz4, yields, in file order, one sample per simple entry or per turn of a packed game of an asked-for rule and board size, and nothing else. "
     "Each sample shows the position reached by the moves before it (the best move of each earlier turn is the one played; a pass plays no stone but passes the turn), the side to move by the parity of the ply, "
     "the game's result for the side to move mixed with the winrate of the evaluation by the configured lambda, and as policy the best move, or the softmax of the candidates' winrates when all have evaluations and none of the configured exceptions applies. "
     "The rule, ply, moves and evaluation it carries are those of the entry, and with a fixed input side the planes and outcome are black's.",
     ["inputs", "configurations"],
     "Every well-formed file; every rule and size filter, lambda (static or dynamic), temperature, pass handling, mate handling and fixed side.",
     NO_TESTS + "a few hand-built entries are decoded; fields that straddle words, passes, missing or extreme evaluations and long games are not.",
     ["dataset/simple_binary.py", "dataset/packed_binary.py", "utils/winrate_model.py", "dataset/sequential_source.py"],
     [("entry layouts", "dataset/packed_binary.py EntryHead, EntryMove; dataset/simple_binary.py EntryHead"), ("game replay", "dataset/packed_binary.py PackedBinaryDataset._process_entry"),
      ("targets", "dataset/packed_binary.py _setup_value_target, _setup_policy_target")],
     "TLA+ (TLC): Games.tla gives the meaning of the words of both formats; rows the real datasets serve from random files are judged by TLC against it (GamesTrace.tla)",
     TRUST + "Winrates and softmax weights are computed by the harness from their formulas and handed to the specification in ten-thousandths; files with a broken structure are not judged.")


prop("S03", "A row filter keeps the rows its expression is true for, and does nothing else",
     "A filter expression over the columns of a file keeps exactly the rows for which it is true, by the usual meaning of its comparisons (chained ones included), arithmetic, indexing, logic and NaN. "
     "Anything outside the language (other syntax, names, attributes, functions or arguments, indexes out of range, results that are not one truth value per row, oversized expressions) is refused. "
     "Evaluating an expression, accepted or refused, never changes the columns and has no other effect.",
     ["inputs", "programs"],
     "Every expression, inside the language or not, over every set of columns.",
     NO_TESTS + "a few sample expressions are evaluated or refused.",
     ["dataset/filter.py", "utils/data_utils.py"],
     [("evaluator", "dataset/filter.py SafeFilterEvaluator._eval"), ("index literals", "dataset/filter.py _index_literal"), ("result contract", "dataset/filter.py evaluate")],
     "TLA+ (TLC): Filter.tla is a denotational semantics of the filter language (which trees are refused, what the others keep); random expressions evaluated by the real code are judged by TLC against it (FilterTrace.tla)",
     TRUST + "Numbers are small fractions that floating point represents exactly; integer overflow and the evaluator's memory limits are not judged.")


prop("S06", "An NPZ data set serves exactly the selected rows, decoded as the format says",
     "A data set over NPZ files (processed, raw KataGo or sparse; map-style or streaming) serves, in file order, exactly the rows of the requested board sizes, side to move and condition; a file without any such row contributes nothing, and a condition that has no meaning for the file is refused. "
     "Each row's size, planes, side to move, value target (chosen channels or level), normalised policy with or without its pass entry, and sparse features are those the file format defines for it, whatever the arrays' element type, memory order or compression. "
     "A fixed side swaps exactly what belongs to the two sides, and a fixed size pads with zeros at the far edges.",
     ["inputs", "configurations"],
     "Every set of NPZ files of these formats, every selection, channel, side, pass and padding option, and every batch size.",
     NO_TESTS + "a few files with default options are decoded.",
     ["dataset/katago.py", "dataset/decoder.py", "dataset/sparse_numpy.py", "utils/data_utils.py"],
     [("map and raw decoding", "dataset/katago.py"), ("processed decoding", "dataset/decoder.py ProcessedNpzDecoder"), ("sparse decoding", "dataset/sparse_numpy.py"), ("padding", "utils/data_utils.py post_process_data")],
     "TLA+ (TLC): Npz.tla (over Filter.tla) defines for files and a configuration the exact sequence of samples; the rows real data sets serve over random files are compared with it by TLC (NpzTrace.tla)",
     TRUST + "Numbers are small fractions; policies are compared to 2/10000. Data symmetries are S01's, orders under shuffling D01-D03's.")


prop("S05", "Line numbers identify exactly the lines that are the same",
     "Every point of a board gets, for each of four directions, the number of the window it sees (walls, own, other and empty cells), which depends on that window alone: the same for boards, batches, single lines, any memory layout and any board shape, and never shared by two different windows. "
     "All numbers lie below the announced total, the usage flags mark exactly the numbers some line has, and the numbers served with a sample are those of the planes served. "
     "Lengths and boards for which this would not hold are refused.",
     ["inputs", "configurations"],
     "Every board up to the largest admitted, every line length, both numberings, every entry point.",
     NO_TESTS + "one board and one length are encoded.",
     ["dataset/pipeline/line_encoding.py", "dataset/pipeline/line_encoding_cpp/line_encoding.cpp"],
     [("encoder", "dataset/pipeline/line_encoding_cpp/line_encoding.cpp LineEncodingEncoder"), ("windows", "line_encoding.cpp transform_board_impl"), ("pipeline", "dataset/pipeline/line_encoding.py")],
     "TLA+ (TLC): Lines.tla defines windows and their numbers; LinesMC checks on it that no two windows share a number and the total bounds them; numbers, totals, flags and refusals of the real encoders are judged by TLC (LinesTrace.tla)",
     TRUST + "Distinctness is model-checked for lengths to 7 (9 thorough); for longer ones the usage flags must count as many numbers as windows. Padding added by a fixed size counts as board.")


prop("D06", "Unshuffled sources give their records in exactly the configured order",
     "Without shuffling, a streaming source gives its records in the order its options define: NPZ files row after row; binary files by at most the configured number of open readers in turn, each reading its quantum of entries (unwanted ones included); a mix by an evenly interleaved schedule with exactly the blend ratios. "
     "With synchronised lengths a mix gives every complete cycle its children can fill and then ends; otherwise it goes on with those children that have records left, and nothing is dropped. "
     "The order does not depend on batch size, read sizes, saving and loading, compression or earlier epochs, and a file that ends inside an entry is an error.",
     ["inputs", "configurations", "crash_points"],
     "Every tree of sources, every assignment of files, entries, ratios, readers and quanta, and every point of saving.",
     NO_TESTS + "two readers and one ratio are tried.",
     ["dataset/composite_source.py", "dataset/sequential_source.py", "dataset/npz_source.py", "dataset/__init__.py"],
     [("schedule and quotas", "dataset/composite_source.py _weighted_cycle, _fill_cycles"), ("readers", "dataset/sequential_source.py InterleavedSequentialSource"), ("ratios", "dataset/__init__.py _integer_ratio_weights")],
     "TLA+ (TLC): Sources.tla defines readers as a transition system and mixing; SourcesMC checks order, completeness, bounded readers and even spread on it; batches of real unshuffled streams with saves and loads are judged by TLC against it (SourcesTrace.tla)",
     TRUST + "One process; the distribution over ranks is D03's, shuffled orders are D01's.")


prop("T07",
     "Background checkpoint writing keeps what a save was asked for, and loses nothing",
     "When checkpoints are written in the background, every file of a save holds the tensors and numbers as they were when the save was asked for, whatever training changes afterwards and however late it is written. The files of a save are written in order, pruning comes after the last of them, a later save or a flush finds the earlier one complete, and a failed write stops that save and is raised exactly once, by its cause, at the next save or flush. A run therefore does to the checkpoint directory what the same run writing at once does, in the same order, also when a write fails or the process is killed.",
     ["schedules", "histories", "crash_points", "fault_sequences"],
     "Training thread, compute stream, copy stream and writer thread are specified with every wait between them (AsyncWriter.tla); TLC checks the promises over all interleavings and shows each wait to be needed.",
     "A test on the CPU never leaves the synchronous path, and a test on a GPU sees one interleaving of host, streams and writer.",
     ["utils/async_checkpoint.py", "trainer/base.py"],
     [("snapshot, streams, writer thread, flush", "utils/async_checkpoint.py AsyncCheckpointWriter, _stage_tree"),
      ("where a run saves, flushes and prunes", "trainer/base.py _save_checkpoint, _save_checkpoint_main, _shutdown_resources")],
     "TLA+ (AsyncWriter.tla) model checked with TLC; schedules of it drawn by TLC's simulator and replayed on the real writer over a stand-in device (in-order streams that run only when the schedule or a wait says so), the recorded calls and files judged by AsyncTrace.tla; real training runs with a slow background writer, failing writes and kills judged against the same runs writing at once by AsyncRuns.tla",
     "there is no CUDA device here: streams and events are stand-ins with CUDA's ordering rules, allocator reuse is not modelled")


prop("T10",
     "Runs with vector quantisation resume exactly, also while codebooks fill",
     "A run whose model holds codebooks (one, several, shared; collecting their first inputs, just initialised, or long in use) that is stopped, killed or fails at any point and is started again continues as if it had not been interrupted: same weights, codebooks, statistics, optimizer state, batches and log, on one process and on several ranks, each of which has collected inputs of its own. If a continuation file that a state names is missing, truncated, damaged, of another save, rank or run, the resumption is refused on all ranks before anything is trained or written. Stray and torn files beside it change nothing, and every retained state keeps the continuation files it needs.",
     ["crash_points", "fault_sequences", "histories", "configurations"],
     "The run with codebooks is an instance of the trainer specified in Trainer.tla (what is written when, and what a resumed run owes); Sidecar.tla states what may come of files that are not what the state says.",
     "The inputs collected so far live outside the model's state, so only interruptions inside the few steps in which a codebook fills, with each rank at its own inputs, exercise them.",
     ["trainer/base.py", "model/vq.py"],
     [("inputs collected so far", "model/vq.py VectorQuantize._vq_init_continuation_state, _load_vq_init_continuation_state"),
      ("writing, checking and pruning continuation files", "trainer/base.py _write_vq_runtime_sidecar, _restore_vq_runtime_sidecar, _cleanup_checkpoints")],
     "TLA+ (Trainer.tla, Sidecar.tla) checked with TLC; fault schedules drawn from Trainer.tla replayed into real runs with codebooks, traces judged by TrainerTrace.tla; runs resumed from damaged continuation files, on one process and on real ranks, judged by Sidecar.tla",
     "codebooks are small; the CPU path of the codebook search only")


def main():
    built = {p["pid"] for p in P if os.path.exists(os.path.join(ROOT, "checks", p["pid"].lower() + ".py")) and p["technique"]}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as out:
        for p in P:
            anchors = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            if p["state"]:
                anchors["state"] = [dict(name=n, meaning=m) for n, m in p["state"]]
            out.write(json.dumps(dict(id=p["pid"], title=p["title"], statement=p["statement"],
                                      quantifier=dict(over=p["over"], text=p["text"]),
                                      why_tests_cant=p["why"], anchors=anchors)) + "\n")
    manifest = dict(
        version=1, setup_cmd="bash /verif/setup.sh",
        checks=[dict(property=p["pid"], quick_cmd=f"bash /verif/check.sh {p['pid']} quick",
                     thorough_cmd=f"bash /verif/check.sh {p['pid']} thorough",
                     technique=p["technique"], level="model_checking", level_note=p["note"])
                for p in P if p["pid"] in built],
        not_applicable=[dict(property=p["pid"], reason=p["reason"] or "The specification and check for it are not built yet.")
                        for p in P if p["pid"] not in built],
        notes="Specifications in spec/*.tla (TLA+, TLC). VERIF_REPO is a development aid (another checkout) and is unset in every registered command.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as out:
        json.dump(manifest, out, indent=1)
        out.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["pid"]
        import re
        n = len(re.findall(r"[.](?=\s|$)", p["statement"]))
        assert n <= 3, (p["pid"], n)


main()
