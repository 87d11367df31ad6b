"""What is claimed per property: budgets, and the words that go into MANIFEST.json and the evidence."""
BASE_ASSUME = [
 "threads are interleaved at synchronisation operations and instrumented memory accesses under sequential consistency; weaker hardware memory orders are covered only by the race detector of C06",
 "seeded search, not enumeration: schedules and faults not reached within the budget are not decided",
 "libstdc++, libc, Eigen and docopt are trusted; -O1 with thread instrumentation instead of the shipped -O3",
]
REAL_LIB = "LDA, LDABuilder, Document/Corpus, all EM steps, optimisation, events (compiled from /repo's working tree with access instrumentation)"
STUB_OS = "thread creation/join, mutexes, condition variables, clocks, entropy, processor count, allocator, file system calls (simulated)"
TECH = "deterministic simulation with fault injection: seeded schedule and fault search over the real code, "
CLAIMS = {}
APP_REAL = REAL_LIB + "; the console applications lda, slda, fslda with their snapshot listener and model I/O, docopt (uninstrumented)"
def claim(p, runs, oracle, note, real=REAL_LIB, stub=STUB_OS, assume=(), probes=None, level="exploration", thorough_s=600):
    CLAIMS[p] = dict(quick_runs=runs, technique=TECH + oracle, note=note, real=[real], stub=[stub], assume=BASE_ASSUME + list(assume), probes=probes or {}, level=level, thorough_s=thorough_s)
claim("C01", 19000, "columns compared bit for bit with solo inference",
      "Every run is an exactly repeatable execution; columns, scores and classes of each collection compared bit for bit with single-document inference on a fresh model.")
claim("C02", 22000, "per-epoch ledger and independent sequential reference EM",
      "Ledger of every inference and maximisation call per epoch, bitwise re-execution of the epoch on fresh steps, and an independent reference implementation of all batch variants (1e-6).",
      stub=STUB_OS + "; in c02_tagged also corpus and steps", probes={0: "epochs compared with the reference", 1: "epochs skipped as numerically ambiguous"})
claim("C03", 14000, "recorded event history checked against the documents and the reference",
      "Every progress event of every run checked: count, order, thread, values against the reference likelihood and regression model.",
      probes={0: "training runs", 1: "ambiguous epochs", 2: "likelihoods compared with the reference", 3: "maximisation events compared"})
claim("C04", 200000, "delivery history of every event checked against a sequential model of the dispatchers",
      "Exactly-once delivery, registration history and order over seeded interleavings of dispatching, processing, adding and removing threads, with throwing and re-entrant listeners.",
      probes={0: "delivery obligations checked", 1: "order checks"})
claim("C05", 20000, "no deadlock or lost wake-up within a step budget, threads accounted for",
      "Deadlock is detected exactly (no runnable thread), livelock by a step budget; spurious wake-ups, stalls, any worker count, any corpus size.",
      probes={0: "stub steps", 1: "real steps", 2: "listeners that use the dispatcher"})
claim("C06", 26000, "happens-before race detection over every instrumented access of each seeded schedule",
      "Vector clock race detector in the simulator; the known race of online training is listed as a finding.",
      real=APP_REAL, probes={0: "batch training", 1: "online training", 2: "independent objects", 3: "generator", 4: "dispatchers", 5: "calls that failed", 6: "application runs"})
claim("C07", 20000, "faults injected into steps, listeners, corpora, allocation and thread creation; model, threads and later calls checked",
      "One injected fault per run at a seeded point; containment of the exception, threads, model state and usability afterwards.",
      probes={1: "listener threw", 2: "E step of a document threw", 3: "M step of a document threw", 4: "m_step threw", 5: "e_step threw", 6: "corpus threw", 7: "allocation failed", 8: "thread creation failed", 10: "inference after the failure", 11: "training after the failure", 12: "maximisation listener threw"})
claim("C08", 240000, "file bytes compared with an independent npy codec under injected I/O faults",
      "Saves and loads under open, read, write and close faults (errors, interruptions, short transfers, full disk), damaged and foreign files; an independent codec decides what the bytes mean.",
      probes={0: "saves completed", 1: "saves refused", 2: "loads completed", 3: "loads refused", 4: "valid foreign files", 5: "damaged files", 6: "streams of arrays", 7: "models loaded", 8: "models refused", 9: "data files"})
claim("C09", 5500, "crash at every kind of mutating I/O operation with torn writes; the files left compared with those of the uninterrupted run under the same schedule",
      "Each run executes a training program once to the end and then up to four times into a crash; every file left is loaded by the real loader and compared.",
      real=APP_REAL, probes={0: "files loaded after a crash", 1: "files refused after a crash", 2: "crashes judged"})
claim("C10", 15000, "snapshot files compared with the models a listener saw at each epoch",
      "The listener alone through long histories, inside library training of every variant, and inside the applications, with I/O faults during snapshots.",
      real=APP_REAL, probes={0: "snapshots compared", 1: "snapshots whose writing met faults", 2: "listener histories", 3: "library trainings", 4: "application runs", 5: "application runs refused", 6: "concurrent listeners"})
claim("C11", 8000, "crash, restart from the last durable snapshot, comparison with uninterrupted training",
      "Chains of crashes and restarts of the applications with changing worker counts and schedules; ambiguous numerics are detected by the reference model and not compared.",
      real=APP_REAL, probes={0: "resumed trainings compared", 1: "numerically ambiguous", 2: "several restarts", 3: "crashed before any snapshot", 4: "topics kept bit for bit", 5: "continued from unsupervised and trained", 6: "library resumes compared"})
claim("C13", 13000, "applications run as simulated processes, their files compared with the library configured by the harness",
      "Random documented options, data, invalid invocations and I/O faults; exit status and files judged.",
      real=APP_REAL, probes={0: "results compared bit for bit", 1: "results compared by shape or tolerance", 2: "transforms", 3: "runs refused after a fault", 4: "invalid invocations"})
claim("C12", 11000, "two executions of one program under different schedules, heap contents, clocks and entropy compared",
      "Same arguments, different environment: byte equality for one worker, rounding for several.",
      probes={0: "one worker", 1: "several workers", 2: "inference", 3: "shuffles", 4: "numerically ambiguous, not compared"})
claim("C14", 200000, "concurrent draw histories checked for linearizability against the seeded engine",
      "Threads draw from one generator, copies made beforehand and copies of copies; every value has to be the next of the engine's sequence in an order consistent with real time.", probes={0: "histories checked"})
claim("C15", 18000, "the same training and inference under two monitoring settings and schedules compared bit for bit",
      "Likelihood fractions, their seeds, listener sets and their churn varied; with one worker the whole model is compared, with several every document's inference.", probes={0: "one-worker programs compared", 1: "multi-worker epochs compared per document", 2: "inference compared"})
claim("C16", 12000, "two models on one or two threads compared with each of them alone",
      "Interleaved and concurrent use of several models, copies and moves, compared bit for bit with isolated use.",
      probes={0: "interleaved", 1: "concurrent", 2: "inference leaves the model alone", 3: "many workers", 4: "long life"})
claim("C17", 9500, "structural invariants checked after every epoch of every schedule",
      "Distributions sum to one, gamma accounts for the words, everything finite, over all variants and corpora.", probes={0: "epochs", 1: "runs", 2: "long trainings", 3: "many documents"})
claim("C18", 12500, "every completed minibatch compared with an independent reference of the online update",
      "Batch boundaries, momentum, decay and leftovers followed across epochs and calls by the reference.",
      probes={0: "updates compared", 1: "epochs with bitwise inference"})
NA = {
 "C19": "pure functions of their arguments (likelihoods): no schedule, clock, I/O, fault or multi-party behaviour for a simulation to vary",
 "C20": "pure functions of their arguments (gradient descent and regression objectives): nothing for a simulation to vary",
 "C21": "pure functions of their arguments (numeric helpers): nothing for a simulation to vary",
}
