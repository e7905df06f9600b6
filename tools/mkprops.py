#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements can be edited in one place)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, state=list(state),
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=None)))


T1 = "The one stable test runs a single evaluation of five BSDS images in one process, without saving, faults or other schedules."

prop("P01", "An evaluation is a function of its inputs only",
     """Evaluating the same predictions against the same ground truth with the same settings gives identical metrics and
     identical saved result files, whatever the number of worker processes, the order in which they run and finish, the wall
     clock and its jumps, the state of the process's random generators, the string-hash seed and environment of the process,
     and the order in which the file system lists directories (which may only reorder the per-image lines where sample names
     come from a directory listing).""",
     ["schedules", "configurations", "inputs"],
     "every dataset evaluator, worker count, interleaving of workers, clock, hash seed, random state and directory order",
     T1 + " Any dependence on scheduling, entropy or time shows only across executions that differ in them.",
     ["pyEdgeEval/common/binary_label/calculate_metrics.py", "pyEdgeEval/common/multi_label/calculate_metrics.py",
      "pyEdgeEval/evaluators", "pyEdgeEval/utils/progressbar.py", "pyEdgeEval/_lib/src/match.cc", "pyEdgeEval/_lib/src/Random.cc"],
     [("ordered parallel map", "utils/progressbar.py track_parallel_progress keep_order=True"),
      ("matcher's own random stream restarted per call", "_lib/src/match.cc matchEdgeMaps")],
     ["return values of evaluate/evaluate_category", "files under save_dir"])

prop("P02", "No evaluation depends on what the process did before",
     """The result of an evaluation, a boundary matching, an edge extraction, a thinning or a non-maximum suppression does not
     depend on which other such calls the same process (or the worker process that happens to execute it) made before it, in
     whatever order and however those ended, and no such call changes the arrays, lists or dictionaries its caller passed in.""",
     ["histories", "inputs", "schedules"],
     "every sequence of public calls, including failing ones, before the call under test, and every assignment of samples to workers",
     T1 + " State that leaks from one call into the next needs a second, different call to show.",
     ["pyEdgeEval/_lib", "pyEdgeEval/common", "pyEdgeEval/edge_tools", "pyEdgeEval/preprocess", "pyEdgeEval/evaluators"],
     [("per-call buffers", "_lib/correspond_pixels.pyx, nms.pyx"), ("var_dict emptied", "edge_tools/mask2edge_mp.py"),
      ("sample_names copied", "evaluators/base.py")],
     ["return values", "caller's arguments after the call"])

prop("P03", "The progress-tracked map is exactly-once and never loses an error",
     """A progress-tracked map, serial or parallel, applies the function exactly once to every task and returns one result per task,
     in task order when order is kept, for every worker count, chunk size, option, kind of iterable and schedule. If a task, a
     result, the iterable or the caller's thread (an interrupt) fails, the error reaches the caller instead of a partial result, and
     if a worker process is killed no incomplete or wrong result is ever returned. When the call returns or raises, none of its
     worker processes is left.""",
     ["schedules", "fault_sequences", "configurations", "inputs"],
     "every interleaving of workers, failing task, unpicklable value, interrupt and killed worker",
     T1 + " It never makes a pool, and schedules, interrupts and dying workers cannot be sampled by a unit test.",
     ["pyEdgeEval/utils/progressbar.py"],
     [("imap / imap_unordered consumed to the end", "utils/progressbar.py track_parallel_progress"),
      ("terminate and join on failure", "utils/progressbar.py track_parallel_progress")],
     ["returned list", "raised exception", "live child processes"])

prop("P04", "Metrics pool every sample once, each against its own ground truth",
     """For every dataset evaluator and every way its samples are distributed over workers, the reported per-sample, per-threshold and
     overall metrics are those obtained by matching each listed sample's own prediction for the evaluated category with that sample's
     own ground truth at each threshold, counting every sample exactly once, and pooling the counts (ODS from pooled counts, OIS from
     each sample's best threshold). Each reported per-sample line carries the name of the sample its numbers come from.""",
     ["schedules", "inputs", "configurations"],
     "every evaluator, set and order of samples, category, threshold list, option set, worker count and completion order",
     T1 + " Attribution errors need several samples, several categories and a schedule in which workers finish out of order.",
     ["pyEdgeEval/common/binary_label", "pyEdgeEval/common/multi_label", "pyEdgeEval/datasets", "pyEdgeEval/evaluators"],
     [("samples paired by index", "calculate_metrics"), ("paths built from sample and category names", "evaluators/*.py evaluate_category")],
     ["metrics returned", "eval_bdry_img.txt, eval_bdry_thr.txt, eval_bdry.txt, overall_eval_bdry.txt, results.txt"])

prop("P05", "Saved results are the returned results, or the evaluation fails",
     """When an evaluation with a save directory returns normally, every result file for the evaluated categories is there and complete
     and contains exactly the metrics that were computed, whatever an earlier, longer or interrupted evaluation had left in that directory. If creating the
     directory, opening, writing or closing any result file fails, the evaluation raises instead of returning.""",
     ["fault_sequences", "histories", "inputs"],
     "every result file, every failing file operation (no space, I/O error, short write, permission), every earlier content of the directory",
     T1 + " It passes save_dir=None; no test ever makes a file operation fail.",
     ["pyEdgeEval/common/binary_label/io.py", "pyEdgeEval/common/multi_label/io.py", "pyEdgeEval/evaluators/base.py", "pyEdgeEval/utils/path.py"],
     [("open for writing truncates; with-blocks close", "common/*/io.py"), ("mkdir_or_exist", "utils/path.py")],
     ["files under save_dir", "raised exception"])

prop("P06", "A missing or unreadable input is never silently left out",
     """If a listed sample's prediction or ground truth is missing, unreadable, or its read fails or is cut short during an evaluation, the evaluation raises an error
     or gives exactly the result of the undisturbed evaluation; it never returns metrics from which the sample was dropped, replaced by another, or treated as empty.""",
     ["fault_sequences", "inputs", "schedules"],
     "every input file of every evaluator, every failing, interrupted or short read, every missing or truncated file, serial and parallel",
     T1 + " No test removes, damages or fails to read an input.",
     ["pyEdgeEval/datasets", "pyEdgeEval/evaluators", "pyEdgeEval/common/multi_label/edge_decoding.py", "pyEdgeEval/utils"],
     [("existence assertions", "evaluators/*.py"), ("loaders raise", "datasets/*.py")],
     ["raised exception", "metrics returned", "files under save_dir"])

prop("P07", "An interrupted evaluation changes nothing a rerun does not repair",
     """If an evaluation is killed at any instant, whether or not its last writes reached the disk, running it again in the same
     directories gives the metrics and result files of an undisturbed evaluation, and the predictions, ground truth and split files
     are never modified or removed by any evaluation, killed or not.""",
     ["crash_points", "histories", "schedules"],
     "every point at which the evaluation can be killed, every subset of its last writes that survived, repeated kills",
     "A unit test cannot kill the process at every instant, nor lose its last writes.",
     ["pyEdgeEval/evaluators", "pyEdgeEval/common/binary_label/io.py", "pyEdgeEval/common/multi_label/io.py", "pyEdgeEval/helpers"],
     [("results recomputed, files truncated on open", "common/*/io.py")],
     ["files under save_dir, dataset and prediction roots after the rerun"])

prop("P08", "Cityscapes conversion is complete and independent of its schedule",
     """Converting a Cityscapes tree writes, for every annotated train and val image and nothing else, the same files with the same content for every worker count,
     schedule, clock and directory order, in every supported format and mode: edge maps equal to what the serial edge functions give
     for that image, and train-id label images. Each split file lists every image of its split exactly once, whatever was in the output directories before.""",
     ["schedules", "configurations", "inputs"],
     "every tree of cities and images, format, mode, radius, worker count, interleaving and directory order",
     "No test runs a conversion.",
     ["pyEdgeEval/helpers/convert_cityscapes.py", "pyEdgeEval/edge_tools/mask2edge_loop.py", "pyEdgeEval/utils/path.py", "pyEdgeEval/utils/progressbar.py"],
     [("one task per file, output name derived from input name", "helpers/convert_cityscapes.py"),
      ("split files opened for writing", "helpers/convert_cityscapes.py")],
     ["files under <root>/<proc_dirname> and <root>/splits"])

prop("P09", "SBD conversion is complete and independent of its schedule",
     """Converting SBD writes, for every sample listed in the train and val splits, the raw and thin edge maps with and without
     instances and the segmentation, train-id and instance images, with the same content for every worker count and schedule and
     equal to what the serial conversion functions give for that sample alone; a sample whose source is missing or unreadable makes the conversion fail instead of being left out.""",
     ["schedules", "configurations", "inputs", "fault_sequences"],
     "every set of samples, worker count, interleaving and failing read",
     "No test runs a conversion.",
     ["scripts/convert_datasets/sbd.py", "pyEdgeEval/helpers/convert_sbd.py", "pyEdgeEval/edge_tools/mask2edge_loop.py"],
     [("one task per sample and mode", "scripts/convert_datasets/sbd.py")],
     ["files under <root>/gtEval"])

prop("P10", "A conversion that returns is complete; a killed one can be rerun",
     """If a dataset conversion returns normally although file operations failed while it ran, its outputs are all there and correct;
     a failed write, read, rename or directory creation otherwise makes it raise. If it is killed at any instant, with its last writes
     lost or torn, running it again gives exactly the outputs of an undisturbed conversion, and its inputs are never modified or removed.""",
     ["fault_sequences", "crash_points", "schedules"],
     "every failing operation, every kill point, every surviving subset of the killed run's writes, serial and parallel, Cityscapes and SBD",
     "No test runs a conversion, let alone kills one or makes its operations fail.",
     ["pyEdgeEval/helpers/convert_cityscapes.py", "pyEdgeEval/helpers/convert_sbd.py", "scripts/convert_datasets/sbd.py", "pyEdgeEval/utils/path.py"],
     [("outputs rewritten on every run", "helpers/convert_cityscapes.py, convert_sbd.py"), ("errors propagate from workers", "utils/progressbar.py")],
     ["output files after return or rerun", "raised exception"])

prop("P11", "Parallel edge extraction equals the serial one under every interleaving",
     """Extracting edges from a segmentation with worker processes gives exactly the edges of the serial extraction, with and without
     instances, for every number of labels, instances and workers, every interleaving of the workers, and every sequence of earlier extractions in the same process; the edges of one call
     never change when later calls are made.""",
     ["schedules", "inputs", "histories"],
     "every one-hot mask, instance map, ignore list, radius, worker count, interleaving at line granularity, and preceding call",
     "No test calls the parallel extraction; workers share memory, so wrong sharing needs particular interleavings or a second call.",
     ["pyEdgeEval/edge_tools/mask2edge_mp.py", "pyEdgeEval/edge_tools/mask2edge_loop.py", "pyEdgeEval/edge_tools/transforms.py"],
     [("one label per task, disjoint slices of a shared array", "edge_tools/mask2edge_mp.py")],
     ["returned array compared with the serial one"],
     [dict(name="var_dict", meaning="shared arrays and settings of the current extraction", where="edge_tools/mask2edge_mp.py")])

prop("P12", "Calls made at the same time from several threads do not disturb each other",
     """When several threads of one process evaluate boundaries, pool metrics, extract edges, thin or suppress at the same time on their own data, each obtains what it
     would have obtained alone, under every interleaving of the threads, and none of them deadlocks.""",
     ["schedules", "inputs", "histories"],
     "every set of calls per thread and every interleaving at line granularity",
     "Tests are single-threaded.",
     ["pyEdgeEval/common", "pyEdgeEval/edge_tools", "pyEdgeEval/preprocess", "pyEdgeEval/utils"],
     [("no shared mutable state in these functions", "common, edge_tools, preprocess")],
     ["return values per thread"])

prop("P13", "A boundary matching is valid for every random stream",
     """Whatever numbers the matcher's random generator delivers, the correspondence of a prediction with a ground truth
     is one-to-one and mutually recorded in both returned maps, joins only edge pixels of the two inputs that are no farther apart than the tolerance,
     pairs the pixels it matches at the least total distance (to the hundredth of a pixel the matcher works in), and costs what is returned: the outlier cost for every unmatched
     edge pixel plus the distance of every pair, or zero when no pixel can be matched. For uniformly distributed numbers and an outlier cost of 100 or more, at most 4 pairs plus
     5 % of the largest possible matching are missed.""",
     ["inputs", "fault_sequences"],
     "every pair of edge maps, tolerance and outlier cost, and every stream of random numbers, including extreme ones",
     T1 + " The matcher draws random outlier edges, and the tests see one stream.",
     ["pyEdgeEval/_lib/src/match.cc", "pyEdgeEval/_lib/src/kofn.cc", "pyEdgeEval/_lib/src/Random.cc", "pyEdgeEval/_lib/src/csa.cc", "pyEdgeEval/_lib/correspond_pixels.pyx"],
     [("random outlier edges; min-cost assignment", "_lib/src/match.cc")],
     ["match1, match2, cost, outlier cost returned by the matcher"])

prop("P14", "Timer laps add up, and no clock can affect results",
     """However the clock advances, stalls or jumps between calls, the laps reported by a timer since its start add up to its total without
     gap or overlap, a timer that is not running refuses to report, and checkpoints under different names do not affect each other. Progress reporting and the functions it wraps give the same results and
     raise nothing, and report the true number of completed tasks, under every clock.""",
     ["schedules", "fault_sequences", "histories"],
     "every sequence of timer operations and every clock that stalls, jumps forwards or backwards between any two of its readings",
     "A unit test runs on the real clock, which neither stalls nor jumps between two adjacent readings.",
     ["pyEdgeEval/utils/timer.py", "pyEdgeEval/utils/progressbar.py"],
     [("one clock reading per check", "utils/timer.py"), ("guards against zero elapsed time", "utils/progressbar.py")],
     ["returned durations", "progress output"])

prop("P15", "Every log message is written exactly once",
     """Every message logged through the package's logging functions by any number of threads, including at the very first use of a logger, and under any names (including ones that
     extend each other), is written exactly once to the stream and, when the logger was set up with a log file, exactly once to that file, in order per thread; a level below the
     requested one is not written, and no thread blocks forever.""",
     ["schedules", "histories", "inputs"],
     "every set of threads, logger names and levels, and every interleaving at line granularity",
     "Tests are single-threaded and do not look at the log.",
     ["pyEdgeEval/utils/logger.py"],
     [("initialisation under a lock, once per name", "utils/logger.py get_logger")],
     ["lines on the stream and in the log file"],
     [dict(name="logger_initialized", meaning="names whose handlers are installed", where="utils/logger.py")])

prop("P16", "Batch suppression leaves one right output per input, also after a crash",
     """When batch non-maximum suppression returns normally, the output directory holds for every input result exactly one complete output of the right name, equal to the suppression of
     that input alone, in the default and the per-model layout. If it is killed at any instant or a file operation fails, it never leaves
     a damaged output under a final name, and running it again completes the set, leaving outputs that were already there untouched; inputs are never modified.""",
     ["crash_points", "fault_sequences", "inputs"],
     "every set of inputs, every kill point between and inside its file operations, every failing operation, repeated",
     "No test runs batch suppression, let alone kills it.",
     ["pyEdgeEval/preprocess/nms/fast_nms.py"],
     [("outputs written aside and renamed; existing ones skipped", "preprocess/nms/fast_nms.py")],
     ["files in the save directory"])

prop("P17", "A killed worker process makes a parallel call fail instead of hanging",
     """If a worker process of a parallel evaluation, conversion, edge extraction or progress-tracked map is killed while it starts or works on a task, the call ends
     within a bounded number of further scheduling steps: it raises, or returns the complete, correct result. No worker process is left.""",
     ["fault_sequences", "schedules"],
     "every parallel entry point, every instant at which a worker is killed",
     "A unit test cannot kill a worker at every instant.",
     ["pyEdgeEval/utils/progressbar.py", "pyEdgeEval/edge_tools/mask2edge_mp.py"],
     [("waits in slices and looks for dead workers", "utils/progressbar.py _iter_results, wait_result; edge_tools/mask2edge_mp.py")],
     ["whether the call ends", "its result"])

prop("P18", "A failed or interrupted call leaves the process usable",
     """If an evaluation, conversion or edge extraction is interrupted (Ctrl-C) or runs out of memory at any instant, or fails on a file error, and the exception is caught,
     later calls in the same process give the results of a fresh process, no worker process is left behind, no file stays open, and signal handlers, the working directory, the standard streams and other settings of the process are as before.""",
     ["crash_points", "histories", "schedules"],
     "every line at which the interrupt or failure can arrive in the parent or a worker, and every later call",
     "A unit test cannot interrupt a call at every instant.",
     ["pyEdgeEval/edge_tools/mask2edge_mp.py", "pyEdgeEval/utils/progressbar.py", "pyEdgeEval/evaluators", "pyEdgeEval/common"],
     [("with-blocks around pools and files", "edge_tools/mask2edge_mp.py, common/*/io.py")],
     ["later return values", "live child processes", "open descriptors", "settings of the process"])

# ---- outside the reach of the technique
NA = [
    ("P30", "Multi-label edge encodings are lossless", "Encoding up to 24 (RGB) or 32 (integer) binary edge maps and decoding them gives the same maps back.",
     ["pyEdgeEval/common/multi_label/edge_encoding.py", "pyEdgeEval/common/multi_label/edge_decoding.py"]),
    ("P31", "Thinning and non-maximum suppression follow their definitions", "Thinning and non-maximum suppression compute the morphological and gradient-direction operations they are defined as, on every image.",
     ["pyEdgeEval/preprocess/thin", "pyEdgeEval/preprocess/nms"]),
    ("P32", "Edges lie within the requested radius of a label change", "The serial mask-to-edge functions mark exactly the pixels of a class whose distance to another class is within the radius, outside ignored regions.",
     ["pyEdgeEval/edge_tools/mask2edge_loop.py", "pyEdgeEval/utils"]),
    ("P33", "AUC and AP follow their definitions", "The area under the curve and the average precision are those of the measured recall-precision points.",
     ["pyEdgeEval/common/binary_label/calculate_metrics.py", "pyEdgeEval/common/multi_label/calculate_metrics.py"]),
    ("P34", "Threshold specifications are parsed as documented", "An integer gives that many evenly spaced interior thresholds, a float one threshold, a list those thresholds.",
     ["pyEdgeEval/common/utils.py", "pyEdgeEval/helpers"]),
    ("P35", "Precision-recall plots show the saved results", "Plots drawn from a result directory show the saved points and summary.",
     ["pyEdgeEval/common/binary_label/visualize.py"]),
]
for id, title, st, files in NA:
    prop(id, title, st, ["inputs"], "every input", "Tests sample a handful of inputs.", files, [("pure function of its input", files[0])])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
