"""Which simulator build, budget and description belongs to which property."""

GROUPS = {
    "pool": {"sources": ["sc_pool.cpp"]},
    "model": {"sources": ["sc_model.cpp"]},
    "loopy": {"sources": ["sc_loopy.cpp"]},
    "sample": {"sources": ["sc_sample.cpp"]},
    "set": {"sources": ["sc_set.cpp"]},
    "train": {"sources": ["sc_train.cpp"], "defs": ["-DEFG_LEARNING_ENABLED=1"], "incs": ["@SIM/stub"],
              "sysincs": ["-isystem", "/usr/include/eigen3"]},
    "io": {"sources": ["sc_io.cpp"], "incs": ["@REPO/src/src/io"]},
}

CORE = ["the whole library of /repo/src compiled from the working tree (thread pool, factors, structure, "
        "queries, sampling, training interfaces, JSON files)"]
SEAMS = ["thread creation, scheduling, mutexes, condition variables and atomics (baton scheduler)",
         "clock, rand(), memory allocator (seeded placement, poison, failures)"]
IOSEAM = ["open/read/write of files below the scratch directory (faults, chunks, crash); the file contents are "
          "real files"]
COMMON = ["interleavings are explored at synchronisation operations and at sampled plain accesses, with "
          "sequentially consistent memory; races are found by vector clocks instead of by weak memory effects",
          "search, not enumeration: what no explored seed reaches is not covered"]


def entry(group, rule, quick=30, thorough=600, stub=(), assumptions=(), probes=None):
    return {"group": group, "quick": quick, "thorough": thorough, "rule": rule, "real": CORE,
            "stub": SEAMS + list(stub), "assumptions": COMMON + list(assumptions), "probes": probes or {}}


ORACLE = ("every answer is compared with the one obtained by exact variable elimination in double precision "
          "(tolerance 6e-4, MAP ties below 1e-3 accepted)")

PROPS = {
    "C01": entry("pool", "A run is a seeded history of batches (0..many tasks, nested sizes, one or several "
                 "submitting threads, pools of 1..20, rarely 66 thousand tasks or batches) on real pools under a seeded schedule; non-trivial when at least "
                 "two threads existed and a preemption happened."),
    "C02": entry("pool", "A run creates, uses, resizes, resets and destroys pools and models owning pools, with "
                 "starved threads and delayed starts; non-trivial when at least one worker thread was created and "
                 "destroyed under a non default schedule. Progress is bounded by the number of steps without a "
                 "state change."),
    "C03": entry("pool", "A run mixes batches with throwing tasks (also of several clients at once), refused threads, failing allocations and zero "
                 "thread counts with ordinary batches and model queries; non-trivial when a fault was delivered."),
    "C04": entry("model", "A run builds one seeded acyclic model (forests, mostly up to 9 variables, now and then up to 24 (thorough: 40) or with up to 40 values per variable, unary and binary "
                 "factors, evidences that cut cycles) and queries marginals, joints and MAP with 1..8 threads under "
                 "a seeded schedule and heap layout; " + ORACLE + "; non-trivial when an answer was compared."),
    "C05": entry("model", "A run is a history of insertions, evidence and weight changes, sampling and queries of "
                 "both kinds on up to three models; " + ORACLE + "; non-trivial when an answer was compared after a "
                 "change."),
    "C06": entry("loopy", "A run builds a cyclic model (plus acyclic clusters) and queries it with iteration limits "
                 "0..60; the honest-completion rule is judged on residuals of the message equations recomputed in "
                 "double precision, contractive models are compared with their fixed point; non-trivial when a cyclic "
                 "cluster was propagated.",
                 assumptions=["completion is only demanded where the sum-product updates are contractive "
                              "(Mooij-Kappen bound < 0.55) and at least 30 iterations are allowed"],
                 probes={0: "residual checks of completed clusters", 1: "fixed point comparisons",
                         2: "effort checks"}),
    "C07": entry("model", "A run is a history of insertions, evidence changes, copies and queries; after every step "
                 "the variables, evidences, factors, groups and structure reported are compared with the reference "
                 "model; non-trivial when a report was compared after a change."),
    "C08": entry("model", "A run is a history in which invalid requests (26 kinds) are mixed with valid ones; after "
                 "each rejection all reports and answers are compared with the reference model that never saw it; "
                 "non-trivial when a request was rejected."),
    "C09": entry("model", "A run lets the n-th allocation (on whatever thread) fail inside a query, gradient or "
                 "sampling request, once or persistently, then repeats requests; " + ORACLE + "; non-trivial when an "
                 "allocation failure was delivered."),
    "C10": entry("model", "A run is a history of tunable insertions with sharing, weight assignments, absorptions, "
                 "deep and shallow copies and queries; weights, groups and answers are compared with the reference "
                 "model; non-trivial when weights were changed or copied."),
    "C11": entry("model", "A run computes gradients of random fields for seeded train sets with 1..8 threads, mixed "
                 "with queries, weight changes and other train sets; compared with the exact likelihood derivative "
                 "(tolerance 2e-3 relative); non-trivial when a gradient was compared."),
    "C12": entry("model", "As C11 for conditional random fields, with evidences assigned in the reported order; "
                 "non-trivial when a conditional gradient or an answer for assigned evidence was compared."),
    "C13": entry("model", "A run draws samples with explicit seeds under two schedules, thread counts 1..8, mixed with "
                 "evidence changes and queries; a fifth of the seeds make the engine draw numbers next to 0 or 1; non-trivial when samples were drawn."),
    "C14": entry("sample", "A run draws several hundred samples and compares the frequencies of variables and pairs "
                 "with the exact distribution; a deviation is only reported if it persists on 4 and then 16 times as "
                 "many further samples; the wall clock is frozen, ordinary or jumping; non-trivial when "
                 "frequencies were compared.",
                 assumptions=["frequencies are judged in standard errors estimated from batch means: 3, then 4, then 8 (and 0.015)"],
                 probes={0: "re-confirmations"}),
    "C15": entry("sample", "A run builds train sets of conditional models for seeded fractions, seeds and thread "
                 "counts and checks visited evidences, their spacing, counts, domains and conditional frequencies; "
                 "non-trivial when a train set was checked."),
    "C19": entry("model", "A run builds a model, deals deep copies, shallow copies, models sharing its factors, fresh "
                 "models and the model itself to 2..4 threads, each of which then performs its own history "
                 "(insertions, evidences, weights, queries with pools of their own, gradients, sampling, copies, "
                 "destruction) concurrently; " + ORACLE + ", reports and gradients as in C07 and C11; non-trivial "
                 "when an answer was compared in a thread.",
                 assumptions=["weights of factors shared between models of different threads are not changed (the "
                              "statement excludes it)"]),
    "C20": entry("set", "A run builds train sets of 1..700 (rarely 90 000) elements and draws subsets with seeded or extreme outcomes of "
                 "the random source, from one or several threads, iterates them repeatedly and after the set is gone, "
                 "counts how often elements are drawn, and makes invalid requests; non-trivial when a subset was "
                 "iterated.",
                 assumptions=["frequencies are judged at seven standard deviations, twice; drawing with or without "
                              "replacement are both accepted", "a fraction that is not a number is not generated"]),
    "C21": entry("train", "A run builds random or conditional random fields and trains them once or several times with a "
                 "simulated trainer: a seeded sequence of weight reads, weight assignments, gradients, gradient steps "
                 "and queries, ended normally or by a failure at a seeded point, with failing allocations, refused "
                 "threads, invalid fractions and thread counts; every gradient is compared with the exact negated "
                 "likelihood derivative of the whole set or of some multiset of the requested size; non-trivial "
                 "when an answer was compared.",
                 stub=["the optional TrainingTools library: its two abstract interfaces are stand-ins, the trainer is "
                       "the simulated one; the adapter in ModelTrainer.cpp is the real code"],
                 assumptions=["fractions that select no element at all are not generated",
                              "fractions of train sets of at most 5 elements (whole sets: up to 50)"],
                 probes={0: "freshness checks of subsets"}),
    "C16": entry("io", "A run builds a seeded model (values and weights of any magnitude, names that need escaping, "
                 "sharing groups, evidences), exports it under one I/O fault (open, write, close errors, short or "
                 "interrupted writes, full disk, crash between writes) and reads the file back "
                 "into an empty model; contents are compared factor by factor (relative 2e-5); non-trivial when a "
                 "file was read back or a fault was delivered.", stub=IOSEAM,
                 assumptions=["the data of a failed close is lost in part, as with delayed allocation"]),
    "C17": entry("io", "A run exports a seeded model, damages the document (truncation, bit flips, replaced, missing "
                 "or duplicated parts, odd numbers) or the reading of it (missing file, directory, open and read "
                 "errors, interrupted and split reads) and imports it into an empty or used "
                 "model, whose answers are then compared with the exact ones for the factors it reports; non-trivial "
                 "when the document was damaged or a fault delivered.", stub=IOSEAM,
                 assumptions=["numbers beyond 1e2, below 1e-3 or not finite are imported but answers for them are "
                              "not judged"]),
    "C18": entry("io", "A run writes seeded text tables (train sets and factor tables, several separators, with or "
                 "without final newline, ragged or out of range rows) and reads them with split, interrupted or "
                 "failing reads; non-trivial always (a file was read).", stub=IOSEAM,
                 assumptions=["blank lines and tokens that are no numbers are not generated"]),
}

PROPS["C25"] = entry(
    "model", "A run performs one seeded history (models built, copied, changed, queried with pools, sampled, "
    "differentiated and destroyed; rejected requests, failing allocations, refused threads) three or four times and "
    "compares the memory and threads that remain, or repeats a cycle of requests 32 times on models that stay and "
    "compares their memory after 4, 8, 16 and 32 repetitions; non-trivial when a request was answered or rejected.",
    assumptions=["memory kept once for good (caches, statics) is accepted: only what adds up with every repetition "
                 "is reported"])

PROPS["C26"] = entry(
    "model", "A run builds one model by a seeded history and lets 2..5 threads read it at the same time, each doing a "
    "seeded sequence of reads (reports, weights, values of its factors, algebra on them, variables by name, deep and "
    "shallow copies, export, models sharing its factors, the last propagation result), compared with the reference "
    "model and checked for data races; afterwards the model is compared once more; non-trivial when threads read.")

NOT_APPLICABLE = [
    ("C22", "The XML parser this part of the library needs (MinimalXML, fetched by CMake) is not available offline, "
            "the code is not part of the build here, so there is no real code to simulate."),
    ("C23", "Pure single-threaded functions of their arguments: no concurrency, time, I/O or fault the property could "
            "depend on (their results are exercised indirectly by every answer checked by C04-C12)."),
    ("C24", "A pure single-threaded iteration: no concurrency, time, I/O or fault the property could depend on."),
]
NOTES = {}
