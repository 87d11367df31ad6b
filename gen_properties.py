#!/usr/bin/env python3
"""Single source of properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

LDA = "src/ldaplusplus/LDA.cpp"
prop("C01", "Parallel inference equals document-by-document inference",
  "Transforming, scoring or predicting a collection returns, in column i, exactly (bit for bit) the value that inference on document i alone returns, for any number of workers, any interleaving and any collection size including none. Scores and predictions are the ones that follow from those same topic proportions: the linear score of the normalised proportions and the arg-max class.",
  ["schedules", "inputs", "configurations"],
  "all thread interleavings x worker counts (1..many, more than documents) x collections (0..hundreds of documents, duplicate/empty/long documents) x double/float",
  "test_fit runs one worker configuration once per class on the OS's schedule and never compares columns with single-document inference; result order under other interleavings is never observed.",
  [LDA, "include/ldaplusplus/LDA.hpp", "src/ldaplusplus/em/UnsupervisedEStep.cpp", "src/ldaplusplus/e_step_utils.cpp"],
  [("index travels with every work item and result", LDA), ("worker pool / result queue hand-off", LDA)],
  [("queue of work items / queue of results", "documents handed to workers and their results on the way back", LDA)],
  ["LDA::transform", "LDA::decision_function", "LDA::predict", "LDA::transform_predict"])
prop("C02", "Every epoch uses every document exactly once and equals sequential EM",
  "One training epoch runs inference exactly once for every document of the corpus, feeds the maximisation exactly once per document with that document's own variational parameters, and then finishes the epoch exactly once on the calling thread. The resulting model equals, up to rounding, the one a sequential pass of the same EM variant computes from the model and corpus the epoch started with, whatever the interleaving, worker count, document order and preceding sequence of fits and partial fits.",
  ["schedules", "histories", "inputs", "configurations"],
  "all interleavings x worker counts x every batch variant (unsupervised, supervised, fast supervised, semi-supervised, multinomial, correspondence) x sequences of fit/partial_fit/transform calls with changing corpora",
  "The unit tests call steps directly on one document, or run fit once on one schedule and only check that nothing crashes or that likelihood went up.",
  [LDA, "src/ldaplusplus/em/*.cpp", "src/ldaplusplus/optimization/*.cpp", "src/ldaplusplus/Document.cpp", "include/ldaplusplus/optimization/GradientDescent.hpp"],
  [("work/result queues with joined worker pool", LDA), ("sufficient statistics reset after each epoch", "src/ldaplusplus/em/*MStep.cpp")],
  [("sufficient statistics", "per-epoch accumulators that must start empty each epoch", "src/ldaplusplus/em/*MStep.cpp")],
  ["LDA::partial_fit", "LDA::fit", "LDA::model_parameters"])
prop("C03", "Progress events: exactly once, in order, on the caller's thread",
  "During training a listener registered on the model receives exactly one expectation event per document, then that epoch's maximisation events, then exactly one epoch event carrying the updated model (online training interleaves its maximisation events with the expectation events). All are delivered on the thread that created the model and calls training, before that call returns, none lost, duplicated or carried into a later epoch. The likelihoods reported are those of the epoch's documents, and inference reports one expectation event per document and nothing else.",
  ["schedules", "histories", "configurations"],
  "all interleavings of workers dispatching against the caller draining x worker counts x EM variants x listener sets",
  "Tests register a listener that counts or prints on one uncontrolled schedule; loss or delayed delivery of the last event of an epoch depends on the interleaving.",
  [LDA, "src/ldaplusplus/events/Events.cpp", "include/ldaplusplus/events/Events.hpp", "src/ldaplusplus/em/*EStep.cpp", "src/ldaplusplus/em/*MStep.cpp"],
  [("event queued before the result it belongs to; queue drained per extracted result", LDA), ("same-thread dispatch drains the queue", "src/ldaplusplus/events/Events.cpp")],
  None, ["EventDispatcherInterface::add_listener callbacks"])
prop("C04", "Event dispatcher contract under concurrency and re-entrancy",
  "With any number of threads dispatching and adding or removing listeners, every event is delivered exactly once to each listener that was registered throughout, in each dispatching thread's order (where a single thread processes), only on a thread that processes events, never to a listener whose removal completed before the event was dispatched, and always to one whose registration completed before it. Listeners may add, remove (themselves included), dispatch or throw from inside a callback without crash, deadlock or effect on other listeners' registrations; after a listener throws, the remaining deliveries of that batch may be dropped.",
  ["schedules", "histories", "programs"],
  "all interleavings of up to several threads x random programs of add/remove/re-add/dispatch/process, nested operations from callbacks",
  "There is no test of the dispatchers beyond incidental use; concurrent and re-entrant use is never exercised.",
  ["src/ldaplusplus/events/Events.cpp", "include/ldaplusplus/events/Events.hpp"],
  [("listener, removal and event lists behind separate mutexes; delivery over copies", "src/ldaplusplus/events/Events.cpp")],
  None, ["listener callbacks"])
prop("C05", "Training and inference always terminate and leave no thread behind",
  "Every training or inference call returns after finitely many scheduler steps under every fair schedule, with spurious wake-ups, slow or stalled workers, more workers than documents, no documents (labelled training excepted), a requested worker count of zero or a machine that reports no processors. When it returns, every thread it started has finished and been joined, also when calls are repeated many times on the same object.",
  ["schedules", "configurations", "fault_sequences"],
  "all fair interleavings incl. starved workers, lost-race orders of notify vs wait, spurious wake-ups x worker counts 0..many x corpus sizes 0..many",
  "A lost wake-up needs a specific order of notify and wait that the OS almost never produces in a one-second test run.",
  [LDA, "src/ldaplusplus/LDABuilder.cpp"],
  [("condition variable wait with predicate; notify after enqueue", LDA), ("join of all workers", LDA)],
  None, ["return of LDA::fit/partial_fit/transform; live threads afterwards"])
prop("C06", "No data races: all shared state is synchronised",
  "During any training, inference, progress reporting or random number drawing through the public API, no two threads access the same memory, at least one writing, without a happens-before ordering between them, for every variant and any worker count. Independent model objects used from different threads are likewise free of races.",
  ["schedules", "configurations"],
  "all interleavings x every EM variant x worker counts x concurrent use of independent objects",
  "A race does not fail a functional test; the suite is not run under a race detector and its schedules are not controlled.",
  [LDA, "src/ldaplusplus/events/Events.cpp", "src/ldaplusplus/em/*.cpp", "include/ldaplusplus/utils.hpp"],
  [("queue mutexes, join before batch maximisation, locked PRNG and dispatcher", LDA)],
  None, ["instrumented loads/stores/atomics"])
prop("C07", "Failures in callbacks, steps, threads or memory are contained",
  "When a listener, a custom step, an allocation or the creation of a worker fails during training or inference, the call reports the failure to the caller as an exception (the original one where there is one) instead of terminating the process, hanging or returning normally. No thread keeps running afterwards, and the object stays usable: later inference gives the results of the model as it stands, and later calls process only their own documents (what the maximisation had already consumed stays consumed).",
  ["fault_sequences", "schedules", "histories"],
  "each throwing point (n-th event, n-th document E/M step, batch step), n-th allocation, n-th thread creation x interleavings x what is called next on the same object",
  "No test injects any failure.",
  [LDA, "src/ldaplusplus/events/Events.cpp"],
  [("exception propagation from workers; cleanup of pool and queues", LDA)],
  None, ["exception leaving LDA::fit/partial_fit/transform", "later results"])
prop("C08", "Saved arrays and models read back exactly or fail loudly under I/O faults",
  "Whatever the storage does (short reads and writes, interrupted calls, errors, full disk, failing open or close, truncated, foreign or missing files), saving either returns normally having produced a complete well-formed file whose content is bit-identical to what was saved, or reports an error; loading either returns exactly the stored arrays or reports an error. It never returns silently wrong, partial or zero-filled data, and reads both byte orders and both storage orders of the format.",
  ["fault_sequences", "inputs"],
  "all fault sequences over the I/O calls of a save or load x shapes (0.., 1-D, large headers) x all supported element types x byte and storage order",
  "test_numpy_data round-trips a few arrays on a healthy disk.",
  ["include/ldaplusplus/NumpyFormat.hpp", "src/applications/lda_io.cpp"],
  [("npy header writer/parser, stream state checks", "include/ldaplusplus/NumpyFormat.hpp")],
  None, ["numpy_format::save/load, stream operators, io::save_lda/load_lda/parse_input_data", "bytes on disk"])
prop("C09", "A crash never leaves a readable but wrong model, nor damages older ones",
  "If the training program is killed at any instant, every file it leaves either loads as exactly a model the program had at the end of some epoch (the one its name says) or is rejected with an error; a file being overwritten when the crash comes may be lost but never mixes two models. Snapshots whose saving had completed before the crash are intact and load exactly, and the input data is never modified.",
  ["crash_points", "schedules"],
  "every mutating I/O call as crash point, with the last write torn at any byte x interleavings x snapshot cadences",
  "Tests never kill a run or look at a partially written file.",
  ["src/applications/SnapshotEvery.cpp", "src/applications/lda_io.cpp", "include/ldaplusplus/NumpyFormat.hpp", "src/applications/lda.cpp", "src/applications/slda.cpp", "src/applications/fslda.cpp"],
  [("one file per snapshot; loader rejects truncated files", "src/applications/lda_io.cpp")],
  None, ["files left in the working directory after the crash"])
prop("C10", "Snapshots: right epochs, right names, right content",
  "With snapshots every n epochs, after epoch k a snapshot exists for exactly the multiples of n up to k, named by the model path and the epoch number zero-padded to three digits, and each holds exactly the model as it was at the end of that epoch. A failed snapshot write neither stops training nor changes the trained model or other snapshots.",
  ["histories", "schedules", "fault_sequences", "configurations"],
  "all cadences n x epoch counts (beyond 999) x interleavings x I/O faults during a snapshot",
  "No test covers the snapshot listener.",
  ["src/applications/SnapshotEvery.cpp", "src/applications/lda_io.cpp"],
  [("epoch counter driven by epoch events", "src/applications/SnapshotEvery.cpp")],
  None, ["snapshot files"])
prop("C11", "Resuming from a snapshot continues the interrupted training",
  "For the batch variants, training killed after any epoch that was snapshotted and continued from that snapshot for the remaining epochs gives, up to rounding, the model uninterrupted training would have given. Continuing a supervised run from an unsupervised model keeps that model's topics.",
  ["crash_points", "histories", "configurations"],
  "every epoch as crash point x console application x worker counts x interleavings in both incarnations",
  "The continue options of the applications are not tested at all.",
  ["src/applications/lda.cpp", "src/applications/slda.cpp", "src/applications/fslda.cpp", "src/applications/lda_io.cpp", "include/ldaplusplus/LDABuilder.hpp"],
  [("model file holds the complete EM state of the batch variants", "src/applications/lda_io.cpp")],
  None, ["final model file"])
prop("C12", "Training is reproducible: same inputs and seed, same model",
  "With one worker, batch training and inference with the same data, options and seed give byte-identical models, outputs and event sequences on every run, irrespective of scheduling, clocks, entropy source, memory contents and earlier activity in the process. With several workers the batch variants give the same model up to rounding and inference remains byte-identical; document shuffling and topic initialisation depend on the seed only.",
  ["schedules", "configurations", "histories"],
  "pairs of executions of one program under different schedules, clock readings, entropy, initial heap contents and process histories",
  "Tests never run the same training twice, let alone under a different environment; an uninitialised read or hidden global state usually goes unnoticed.",
  [LDA, "src/ldaplusplus/LDABuilder.cpp", "src/ldaplusplus/Document.cpp", "include/ldaplusplus/utils.hpp", "src/ldaplusplus/em/*.cpp"],
  [("seeded generators in builder, corpus and steps; no global mutable state", "src/ldaplusplus/LDABuilder.cpp")],
  None, ["model parameters, transform output, event log"])
prop("C13", "Console applications do what their options say, or fail visibly",
  "For every documented option the console programs train and transform exactly as the library configured with those values does, and write the resulting model or topic proportions to the named file. When input cannot be read or output cannot be written the program ends with a failure status, never success with a missing or partial result.",
  ["configurations", "fault_sequences", "schedules"],
  "all combinations of documented options x data files x interleavings x I/O faults on any call",
  "The applications have no tests.",
  ["src/applications/lda.cpp", "src/applications/slda.cpp", "src/applications/fslda.cpp", "src/applications/lda_io.cpp", "src/applications/utils.cpp", "docs"],
  [("option parsing mapped to builder calls", "src/applications/*.cpp")],
  None, ["exit status, files written"])
prop("C14", "Shared random generator: concurrent draws are one seeded sequence",
  "Numbers drawn concurrently from one generator and its copies are exactly the seeded sequence of the underlying engine, each element handed out once, in an order consistent with the real-time order of the draws. This holds for every number of threads and interleaving.",
  ["schedules", "histories"],
  "all interleavings of draws from several threads and copies x seeds x engines",
  "Not tested concurrently; duplicates and skips appear only under particular interleavings.",
  ["include/ldaplusplus/utils.hpp", "src/ldaplusplus/em/AbstractEStep.cpp"],
  [("mutex around each draw, state shared between copies", "include/ldaplusplus/utils.hpp")],
  None, ["values returned by concurrent draws"])
prop("C15", "Monitoring never changes the result",
  "The trained model and inference results do not depend on how much is observed: on the fraction of documents whose likelihood is computed, the seed that selects them, or the listeners attached, in any combination and on any schedule. Only the reported likelihood values may differ.",
  ["configurations", "schedules"],
  "likelihood fractions 0..1 x likelihood seeds x listener sets x EM variants x interleavings",
  "No test compares runs with different monitoring settings.",
  ["src/ldaplusplus/em/*EStep.cpp", LDA, "src/ldaplusplus/events/Events.cpp"],
  [("likelihood computed after inference finished; separate generator", "src/ldaplusplus/em/*EStep.cpp")],
  None, ["model parameters"])
prop("C16", "Independent models do not interfere; inference changes nothing",
  "Models built separately and used concurrently from different threads, interleaved on one thread, or created and destroyed around each other, each give exactly what they give alone. Inference leaves the model, the caller's data and the outcome of later training unchanged, and moving a model object preserves its behaviour.",
  ["schedules", "histories"],
  "all interleavings of operations on several models from several threads x interleaved call histories on one thread",
  "Tests use one model at a time.",
  [LDA, "src/ldaplusplus/LDABuilder.cpp", "src/ldaplusplus/em/*.cpp"],
  [("all state in the objects; no globals", LDA)],
  None, ["model parameters and outputs of each model"])
prop("C17", "The model stays valid after every epoch",
  "After every epoch of every variant the prior is unchanged, the topic matrix keeps its shape and consists of one probability distribution over the vocabulary per topic, and class parameters keep their shape and are finite (for the multinomial and correspondence variants, distributions); a topic no word was assigned to keeps its distribution. Every document's inferred proportions are at least the prior and, up to rounding, account for exactly the number of its words that some topic can generate.",
  ["schedules", "histories", "inputs", "configurations"],
  "all variants x corpora (empty documents, unused words, single words, huge counts) x interleavings x sequences of epochs, checked at every epoch event",
  "Tests check a few of these sums on random dense data for single steps.",
  ["src/ldaplusplus/em/*.cpp", "src/ldaplusplus/e_step_utils.cpp", LDA],
  [("normalisation in the maximisation steps", "src/ldaplusplus/em/*MStep.cpp")],
  None, ["epoch events", "LDA::transform"])
prop("C18", "Online training updates once per minibatch, from that minibatch",
  "Online training updates the model exactly once per b documents consumed, across epoch borders and repeated fits, each update being the documented momentum/decay step computed from the documents consumed so far; no document is skipped or counted twice and leftovers carry over. Between updates the model does not change, and one maximisation event is reported per update.",
  ["schedules", "histories", "configurations"],
  "all interleavings (consumption orders) x minibatch sizes (1..more than the corpus) x sequences of fits",
  "The single online test runs one minibatch size and only checks that the likelihood improves.",
  ["src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp", LDA],
  [("document counter and minibatch buffers", "src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp")],
  None, ["model after each consumed document", "maximisation events"])
NA = "pure function of its input: no schedule, clock, I/O or fault for a simulator to decide"
prop("C19", "Each EM iteration does not decrease the variational bound",
  "Within the exact variants, coordinate ascent on a document never decreases the variational lower bound, and an epoch never decreases the corpus bound up to the approximations documented.",
  ["inputs"], "all documents, models", "Tests sample random dense documents.",
  ["src/ldaplusplus/e_step_utils.cpp", "src/ldaplusplus/em/*.cpp"], [("update equations", "src/ldaplusplus/e_step_utils.cpp")])
prop("C20", "Objective gradients match their objective values",
  "For the logistic regression objectives the analytical gradient equals the derivative of the reported value everywhere.",
  ["inputs"], "all parameters and data", "Tests use finite differences at random points.",
  ["src/ldaplusplus/optimization/*.cpp"], [("gradient formulas", "src/ldaplusplus/optimization/*.cpp")])
prop("C21", "Special functions are accurate over their domain",
  "The fast exponential and digamma approximations stay within their stated error over the whole argument range used.",
  ["inputs"], "all real arguments", "Only used indirectly.",
  ["include/ldaplusplus/utils.hpp"], [("lookup table, series", "include/ldaplusplus/utils.hpp")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
