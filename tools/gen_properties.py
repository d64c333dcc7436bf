#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "src/src/"; H = "src/header/EasyFactorGraph/"
POOL = [S+"structure/bases/PoolAware.cpp", H+"structure/bases/PoolAware.h"]
BEL = [S+"structure/bases/BeliefAware.cpp", S+"structure/Types.cpp", S+"structure/QueryManager.cpp", S+"structure/SpecialFactors.cpp"]

prop("C01", "A parallel section runs every task exactly once, then returns",
 "When a batch of tasks is handed to a thread pool, each task is executed exactly once, by a thread whose id is below the pool size and which no other task of that batch uses at the same time, and the call returns only after every task has ended, with all their effects visible to the caller without a data race. This also holds for batches of any size (empty included), for repeated batches, and when several threads hand batches to the same pool, whose batches then never overlap.",
 ["schedules", "inputs", "configurations"], "every interleaving of the caller(s) and the workers, every pool size, every batch size and batch sequence",
 "Tests run a handful of batches under whatever schedule the OS picks; a lost wake-up, a batch returned one store too early or a missing happens-before edge needs a particular interleaving.",
 POOL, [("per-worker task pointer handed over and cleared when done; caller spins until all are clear", S+"structure/bases/PoolAware.cpp Pool::parallelFor, Pool::Worker::Worker"), ("mutual exclusion of callers", "Pool::parallelForMtx")],
 ["the tasks themselves (counters, thread ids, plain memory they write)", "return of the parallel call"])
prop("C02", "Thread pools start, resize and stop cleanly and always make progress",
 "Creating, resizing, resetting and destroying a pool or a model that owns one always completes in a bounded number of steps once threads are scheduled again, no matter how long any thread is delayed; afterwards no worker thread is left running. No thread ever reads state of the pool that is not yet initialised or already released.",
 ["schedules", "configurations", "histories"], "every interleaving of construction, work, resize and destruction, with any thread stalled for any time",
 "Tests create and destroy pools under the natural schedule, in which a new thread starts long after its owner finished constructing; start-up and tear-down races need the opposite order.",
 POOL, [("life flag polled by workers, joined in the destructor", S+"structure/bases/PoolAware.cpp Pool::~Pool"), ("pool replaced in place when the size changes", "PoolAware::setPoolSize, PoolAware::resetPool")],
 ["thread creation and exit, memory accessed by workers, termination of each call"])
prop("C03", "Failing tasks and refused threads surface as errors, nothing breaks",
 "If a task ends with an exception, the parallel call reports an exception to its caller after every other task of the batch has stopped using the batch, the process is not terminated, and the pool runs later batches correctly. If the system refuses to start a worker thread, or a thread count of zero is requested for work that has to be computed, the requesting call throws and the model or pool it was called on still works for every later request.",
 ["fault_sequences", "schedules", "configurations"], "every choice of failing tasks and refused thread creations, at every position, under every interleaving",
 "No test makes a task throw or a thread creation fail; both need an injected fault, and the outcome depends on which thread meets it and when.",
 POOL + [H+"structure/QueryManager.h"], [("exception captured on the executing thread and rethrown by the caller after the barrier", "Pool::parallelFor"), ("a pool is always left behind, also when the wanted one can not be built", "PoolAware::setPoolSize"), ("scoped pool activation restores one thread", "PoolAware::ScopedPoolActivator")],
 ["exceptions at the call site, process termination, results of later calls"])
prop("C04", "Inference on acyclic models is exact for any threads and schedule",
 "For every model whose unobserved part has no cycles, the marginal distribution, the joint distribution of a connected set of unobserved variables (possibly together with observed ones) and the maximum a posteriori values equal, within float accuracy, those obtained by enumerating the product of all factors restricted to the evidence. The answer does not depend on the number of threads, on how they are scheduled or on memory layout.",
 ["inputs", "schedules", "configurations"], "every acyclic model, evidence set, query, thread count and interleaving",
 "Tests compare a few fixed graphs with hand-computed numbers under one schedule and one memory layout.",
 BEL, [("messages computed only when all their dependencies are available, in parallel batches", S+"structure/bases/BeliefAware.cpp message_passing"), ("merging of unary factors, evidence and messages", S+"structure/SpecialFactors.cpp"), ("query of the merged messages", S+"structure/QueryManager.cpp")],
 ["getMarginalDistribution, getJointMarginalDistribution, getMAP, getHiddenSetMAP"])
prop("C05", "Answers depend only on the current content, never on the past",
 "After any sequence of adding factors, setting, changing and removing evidence, changing weights, sampling and querying (of either kind, with any number of threads), a query returns what a freshly built model with the same factors, weights and evidence returns. In particular no result computed before a change is reused after it.",
 ["histories", "schedules"], "every finite sequence of mutating and querying operations, every thread count, schedule and memory layout",
 "Tests follow a few fixed histories; stale caches need a particular order of operations (change one thing, query the other kind, change back).",
 BEL + [S+"structure/EvidenceManager.cpp", S+"structure/bases/FactorsAware.cpp", S+"trainable/FactorsTunableManager.cpp"],
 [("propagation result invalidated by every mutation", "BeliefAware::resetBelief callers"), ("per node cache of merged unary factors and per cluster cache of the message order invalidated when inputs change", "Node::merged_unaries, HiddenCluster::connectivity")],
 ["query results after each step of a history"],
 [("lastPropagation", "kind and structure of the last propagation, empty when stale", H+"structure/bases/BeliefAware.h")])
prop("C06", "Loopy propagation is bounded, honest and schedule independent",
 "On models with cycles a query ends within the configured maximum number of iterations, reports completion only if the messages had converged, and returns normalised distributions; a cluster whose propagation did not complete is reported as such even when other clusters completed. Where the message equations have one attracting fixed point, the marginals agree with it for every thread count, schedule and memory layout, and a user supplied propagation strategy is invoked for exactly the cyclic clusters.",
 ["inputs", "schedules", "configurations"], "every cyclic model, iteration limit, thread count and interleaving",
 "Tests run two small loopy graphs with the default limit and compare with loose reference values.",
 [S+"structure/BaselineLoopyPropagator.cpp", S+"structure/bases/BeliefAware.cpp", S+"structure/Types.cpp"],
 [("independent message updates grouped in parallel batches, sweep until the largest variation is below a tolerance", "BaselineLoopyPropagator::propagateBelief, compute_loopy_order"), ("completion flag of the propagation result", "BeliefAware::propagateBelief")],
 ["getMarginalDistribution and getLastPropagationResult on cyclic models"])
prop("C07", "Hidden/observed partition and structure report mirror the requests",
 "After any sequence of insertions and evidence changes, every variable is reported either as hidden or as observed with exactly the last value requested for it, variables keep their order of insertion, and all factors inserted are reported exactly once. After a query, the reported structure lists exactly the connected groups of hidden variables with their sizes and whether each is acyclic, together with the kind of propagation done.",
 ["histories", "configurations"], "every sequence of insertions, evidence changes and queries, every memory layout and thread count",
 "Tests check the partition after a few fixed evidence changes; cluster splitting and merging depends on topology, order and hash iteration order.",
 [S+"structure/EvidenceManager.cpp", S+"structure/bases/FactorsAware.cpp", S+"structure/bases/StateAware.cpp", S+"structure/Types.cpp", S+"structure/bases/BeliefAware.cpp"],
 [("clusters recomputed when a node leaves or returns to the hidden set", "compute_clusters, EvidenceSetter::setEvidence, EvidenceRemover::resetState"), ("structure report", "BeliefAware::propagateBelief")],
 ["getHiddenVariables, getObservedVariables, getEvidences, getAllVariables, getAllFactors, getLastPropagationResult"])
prop("C08", "A rejected request leaves the model exactly as it was",
 "Whenever an insertion, evidence change, removal, weight assignment, query or copy is rejected with an exception because its arguments are invalid, the variables, factors, weights, evidence and all later answers of the model are the same as if the request had never been made. Invalid requests (null, duplicate or unsupported factor, second factor between the same variables, clashing variable, unknown variable, value out of range, removal of evidence that is not set, wrong number of values, unknown sharing group) are always rejected.",
 ["histories", "inputs", "fault_sequences"], "every history with rejected requests at any point",
 "Tests only assert that some invalid calls throw; they do not look at the model afterwards.",
 [S+"structure/EvidenceManager.cpp", S+"structure/bases/FactorsAware.cpp", S+"trainable/FactorsTunableManager.cpp", S+"model/ConditionalRandomField.cpp", S+"structure/QueryManager.cpp"],
 [("arguments validated before the state is touched", "FactorsAware::addDistribution, EvidenceSetter::setEvidence, EvidenceRemover::removeEvidences, FactorsTunableInserter::addTunableFactor, ConditionalRandomField::setEvidences")],
 ["state getters and queries before and after a rejected call"])
prop("C09", "A query that runs out of memory can be repeated with the right answer",
 "If memory allocation fails anywhere inside a marginal, joint, maximum a posteriori or sampling request, on the calling thread or on a worker, the request ends with an exception, the process goes on, and repeating that or any other request afterwards gives the same answer as if the failure had not happened.",
 ["fault_sequences", "schedules", "histories"], "every allocation that may fail, in every query, on every thread, under every interleaving",
 "Tests never make an allocation fail.",
 BEL + POOL + [S+"structure/GibbsSampler.cpp"], [("propagation marked stale before it starts and valid only when finished", "BeliefAware::propagateBelief"), ("message order installed only when complete", "HiddenCluster::updateConnectivity"), ("task exceptions carried to the caller", "Pool::parallelFor")],
 ["exception type, later query results"])
prop("C10", "Weights and weight sharing stay consistent with the factors and answers",
 "Weights are read and assigned in the order in which tunable groups are reported; assigning them (or resetting all to one) changes exactly the factors of the corresponding group, and every later answer reflects the new values. Factors that share a weight always have equal weights, including a factor that joins a group, and groups are preserved when a model is absorbed by another, with deep copies independent from the original and shallow ones not.",
 ["histories", "schedules", "configurations"], "every sequence of tunable insertions, sharing, absorptions, weight changes and queries",
 "Tests cover one or two fixed sharing layouts and never interleave weight changes with both kinds of queries.",
 [S+"trainable/FactorsTunableManager.cpp", S+"trainable/tuners/CompositeTuner.cpp", S+"factor/FactorExponential.cpp", S+"model/RandomField.cpp"],
 [("tuners hold the groups; setting weights invalidates the belief", "FactorsTunableGetter::setWeights, CompositeTuner::setWeight, addTunableFactor")],
 ["getWeights, setWeights, getTunableClusters, queries"])
prop("C11", "Random field weight gradients equal the likelihood derivative",
 "For an acyclic model the gradient of the weights with respect to a train set equals, for each tunable group in the reported order, the mean over the train set of the group's raw factor values minus their expectation under the model without evidence, within float accuracy. The result is the same for every thread count, schedule, earlier query, earlier gradient or train set, and concurrent tasks do not disturb each other.",
 ["inputs", "schedules", "histories"], "every acyclic tunable model, train set or subset of it, thread count, interleaving and preceding history",
 "Tests compare against one finite-difference-free closed form on small fixed graphs with a fixed order of calls.",
 [S+"model/RandomField.cpp", S+"trainable/tuners/BaseTuner.cpp", S+"trainable/tuners/UnaryTuner.cpp", S+"trainable/tuners/BinaryTuner.cpp", S+"trainable/tuners/CompositeTuner.cpp", S+"trainable/TrainSet.cpp"],
 [("empirical part cached per tuner, expectation from propagated messages, one task per tuner", "RandomField::getWeightsGradient_, BaseTuner::getGradientAlpha, *Tuner::getGradientBeta")],
 ["getWeightsGradient"])
prop("C12", "Conditional models: evidence assignment and gradients are correct",
 "In a conditional model the values passed when assigning evidence refer to the observed variables in the order in which the model reports them, and queries then answer for exactly that evidence. Its weight gradient equals the mean over the train set of the raw factor values of each group minus their expectation conditioned on the evidence contained in each train-set element (elements are ordered as the model reports its variables), whatever the thread count, schedule, memory layout or evidence previously set.",
 ["inputs", "schedules", "histories", "configurations"], "every acyclic conditional model with any number and size of observed variables, every train set, thread count and interleaving",
 "Conditional models are only tested with the training tools, which are not part of the default build, and with observed variables of equal size.",
 [S+"model/ConditionalRandomField.cpp", S+"model/HiddenObservedTuner.cpp", S+"trainable/FactorsTunableManager.cpp"],
 [("positions of the observed variables in a train-set element", "ConditionalRandomField::evidence_vars_positions"), ("tuners of factors touching evidence replaced", "ConditionalRandomField::replaceIfNeeded")],
 ["setEvidences, getEvidences, getWeightsGradient, queries"])
prop("C13", "Samples are valid, keep evidence and are reproducible from a seed",
 "Sampling returns exactly the requested number of combinations, each giving every variable, in the reported order, a value inside its domain, with observed variables at their evidence value. A value that a unary factor or the evidence excludes (probability zero whatever the other variables are) is never drawn, whatever the random source yields. With a given seed and thread count the samples of a given model object are identical on every repetition under every schedule and free of data races, and sampling changes no later answer.",
 ["schedules", "inputs", "configurations", "histories"], "every model, evidence, seed, thread count and interleaving",
 "Tests draw samples from a few graphs and compare frequencies under one schedule.",
 [S+"structure/GibbsSampler.cpp", H+"structure/GibbsSampler.h", S+"structure/bases/PoolAware.cpp"],
 [("sampling tasks of one batch never touch variables they depend on", "make_sampling_tasks"), ("one random engine per thread, static task partition", "UniformSampler, Pool::parallelFor")],
 ["makeSamples"])
prop("C14", "Sample frequencies follow the model for any thread count and clock",
 "The empirical frequencies of long sample runs converge to the distribution of the model given its evidence, including the correlations between variables, for every thread count, with or without an explicit seed, whatever the current time and the schedule.",
 ["schedules", "configurations", "inputs"], "every small model with positive factors, thread count, seed or clock value, interleaving",
 "Tests look at single-variable or few-variable frequencies with an explicit seed; unseeded runs depend on the wall clock.",
 [S+"structure/GibbsSampler.cpp", H+"structure/GibbsSampler.h"],
 [("per-thread engines seeded apart", "make_sampling_tasks"), ("conditional distribution of a variable given its neighbours", "make_sampling_task"), ("thinning and burn-in", "delta_and_burn_out")],
 ["makeSamples (frequencies of variables and pairs)"])
prop("C15", "Conditional train sets span the evidence and follow the conditionals",
 "Building a train set for a conditional model visits every combination of the observed variables exactly once when the whole range is requested, and a regularly spaced non-empty selection of about the requested fraction otherwise, producing the requested number of samples for each; every element carries the evidence combination it was drawn for, in the order in which the model reports its variables. The request always terminates, and fractions outside [0,1] are rejected.",
 ["inputs", "schedules", "configurations"], "every number and size of observed variables, fraction, thread count, seed and interleaving",
 "Only exercised by the samples that need the training tools; no test covers several observed variables or small fractions.",
 [S+"model/ConditionalRandomField.cpp", S+"categoric/GroupRange.cpp", S+"structure/GibbsSampler.cpp"],
 [("enumeration of the evidence range with a stride", "ConditionalRandomField::makeTrainSet")],
 ["makeTrainSet"])
prop("C16", "A reported export is complete on disk and reads back as the same model",
 "When exporting a model to a file returns normally, the file holds the complete model, and importing it into an empty model yields the same variables, factor values and weights (within float accuracy), sharing groups, tunability and evidence; the order in which the file lists variables and factors does not matter. When any open, write or space fault keeps the file from being complete, the export reports an error; a file cut short by a crash at any point is rejected by a later import, which then leaves the importing model unchanged.",
 ["crash_points", "fault_sequences", "inputs"], "every model, every failing or short write, every crash point during the export",
 "Tests export to a healthy disk and reload two fixed models.",
 [S+"io/json/Exporter.cpp", S+"io/json/Importer.cpp", S+"io/Utils.h", S+"io/Utils.cpp"],
 [("document built in memory, then streamed to the file and the stream checked", "json::Exporter::exportToFile"), ("strict parsing before any insertion", "json::Importer::importJsonFromFile")],
 ["bytes of the file, exceptions, the imported model"])
prop("C17", "Importing damaged or unreadable files never crashes or corrupts a model",
 "Importing from a file that is missing, unreadable part way, truncated, bit-flipped or lacks expected parts ends in bounded time either with an exception or with a successful import, never with a crash, and an unreadable or syntactically invalid file leaves the model unchanged. Whatever the outcome, the receiving model stays consistent: its answers are the exact ones for the factors and evidence it reports, and reads split into arbitrary pieces or interrupted do not change the outcome.",
 ["fault_sequences", "inputs", "histories"], "every damage of a valid file, every read fault and every splitting of the reads",
 "Tests import well-formed files from a healthy disk only.",
 [S+"io/json/Importer.cpp", S+"io/Utils.h", S+"io/Utils.cpp"],
 [("every part of the document looked up with a check", "access, try_access in json/Importer.cpp")],
 ["exceptions, state and answers of the receiving model"])
prop("C18", "Train-set and factor-table files are read exactly or rejected",
 "Reading a train set from a text file yields exactly the rows of the file in order, each with all its values, whatever the size of the chunks in which the file is delivered and whether or not the last line ends with a newline; the same holds for the combinations and images of a factor read from a file. A missing file, rows of different length, or a read error before the end of the file ends in bounded time with an exception, never with a crash, an endless loop or a silently shortened set.",
 ["fault_sequences", "inputs"], "every well-formed file, every splitting of the reads, every read error position",
 "One test imports a small factor table; the train-set reader is not tested at all.",
 [S+"io/TrainSetImport.cpp", S+"io/Utils.cpp", S+"io/Utils.h", S+"trainable/TrainSet.cpp"],
 [("line-wise parsing of the stream", "for_each_line, parse_combination_image, import_train_set, import_values")],
 ["import_train_set, import_values"])
prop("C19", "Models used from different threads do not disturb each other",
 "Different model objects may be built, queried, sampled, copied and destroyed concurrently from different threads, even when they share factors or variables that nobody modifies: there is no data race and every one answers as if it were alone. Deep copies are independent of their source: changing or destroying either never changes the answers of the other.",
 ["schedules", "histories"], "every interleaving of operations on distinct models sharing unmodified factors",
 "Tests use one model from one thread at a time.",
 [S+"factor/Function.cpp", S+"factor/Factor.cpp", S+"factor/FactorExponential.cpp", S+"structure/bases/FactorsAware.cpp", S+"model/RandomField.cpp", S+"model/Graph.cpp", S+"structure/GibbsSampler.cpp"],
 [("no mutable global state; shared factors only read", "factor/*.cpp, structure/*.cpp"), ("deep copies clone the images", "copyConstFactor, copyTunableFactor")],
 ["queries of concurrently used models"])
prop("C20", "Train-set subsets contain only real elements, as many as requested",
 "For every outcome of the random source, iterating a fraction of a train set visits exactly the floor of fraction times size elements, each an element of the set, the whole set in order when the fraction is one, and always the same elements when the same iterator is used again, also concurrently or after the train set object is gone. Fractions outside (0,1] and empty or ragged train sets are rejected, and over many draws every element is reachable with equal likelihood.",
 ["inputs", "schedules", "configurations"], "every train-set size, fraction and sequence of random outcomes; every interleaving of concurrent iterations",
 "Tests check the size of one subset; the elements depend on the process-wide random source.",
 [S+"trainable/TrainSet.cpp", H+"trainable/TrainSet.h"],
 [("indices drawn once at construction, combinations shared by reference count", "TrainSet::Iterator")],
 ["forEachSample, size"])
prop("C21", "Training drives the model with the right weights and gradients",
 "During training the trainer always reads the current weights of the model, every weight vector it assigns becomes the weights of the model, and every gradient it asks for is the negated likelihood gradient at the weights then set, over the whole train set or over a freshly drawn subset of the requested fraction. When training ends, normally or because the trainer fails, the model keeps the last weights assigned and answers queries for them with any number of threads.",
 ["schedules", "histories", "fault_sequences", "configurations"], "every sequence of trainer requests, train set, fraction, thread count, interleaving and point at which the trainer fails",
 "The learning tests need an optional dependency that is not part of the default build, and only look at the final weights.",
 [S+"trainable/ModelTrainer.cpp", H+"trainable/ModelTrainer.h", S+"trainable/FactorsTunableManager.cpp"],
 [("adapter between the trainer and the model", "FactorsTunableGetter::ModelWrapper"), ("pool activated for the whole training", "PoolAware::ScopedPoolActivator")],
 ["what the trainer sees, weights and answers afterwards"])
prop("C22", "XML files: same guarantees as for JSON files",
 "A model exported as XML and imported again has the same variables, factor values, weights, sharing groups and evidence; damaged documents are rejected without a crash.",
 ["inputs", "fault_sequences"], "every model and every damage of a valid document",
 "The XML tests need an optional dependency that is absent from the default build.",
 [S+"io/xml/Exporter.cpp", S+"io/xml/Importer.cpp"], [("tag tree built and parsed by the external XML library", "io/xml/*.cpp")], ["xml::Exporter, xml::Importer"])
prop("C23", "Factor algebra is exact",
 "Merging, permuting, cloning and marginalising factors, looking values up in sparse or dense tables and substituting variables gives the values defined by the product and projection of the tables, for every group of variables.",
 ["inputs"], "every factor and group of variables",
 "Tests cover a few small tables.",
 [S+"factor/Factor.cpp", S+"factor/Function.cpp", S+"factor/ImageFinder.cpp"], [("table lookups by combination", "Function::findImage, Factor::Factor(vector)")], ["Factor, FactorExponential"])
prop("C24", "Enumeration of a joint domain is complete and ordered",
 "Iterating the joint domain of a group of variables visits every combination exactly once, in lexicographic order, and then stops.",
 ["inputs"], "every group of variables",
 "Tests iterate two groups.",
 [S+"categoric/GroupRange.cpp"], [("odometer increment", "GroupRange::operator++")], ["GroupRange"])
prop("C25", "Memory and threads are given back, however the requests ended",
 "Building, copying, changing, querying, sampling and differentiating models and then destroying them gives back all the memory and threads they took: repeating the same work never accumulates anything, no matter how the requests ended (answered, refused as invalid, out of memory at any point, or without the threads they wanted). Repeating the same evidence changes, weight changes, copies and queries on a model that lives on does not make it grow either. A request that did not report a failure was carried out completely, also when memory ran short: in particular a copy of a model with parts missing is never passed off as a success.",
 ["histories", "fault_sequences", "schedules", "configurations"], "every history of requests, point at which memory runs out or a thread is refused, thread count and interleaving",
 "Tests do not look at memory, never make an allocation fail, and run each request once.",
 [S+"structure/Types.cpp", S+"structure/bases/FactorsAware.cpp", S+"structure/bases/PoolAware.cpp", S+"trainable/FactorsTunableManager.cpp", H+"structure/FactorsConstManager.h", H+"trainable/FactorsTunableManager.h"],
 [("ownership of nodes, messages and caches by the model, of factors by shared pointers without cycles", H+"structure/Types.h Node, GraphState"), ("absorption skips refused factors only", "absorbConstFactors, absorbTunableClusters")],
 ["live allocations and threads after the objects are gone, and between repetitions"])
prop("C26", "A model can be read by several threads at the same time",
 "Several threads may use the const part of the interface of one model at the same time, as long as none of them changes it: listing variables, evidences, factors, weights and weight sharing groups, finding variables by name, reading and combining its factors, reading the last propagation result, exporting it, making deep or shallow copies of it and building other models with its factors. Each gets the same answers as if it were alone, without a data race, and the model is afterwards as it was.",
 ["schedules", "histories", "configurations"], "every model, history before, set of concurrent readers and interleaving",
 "No test reads a model from more than one thread.",
 [S+"structure/bases/StateAware.cpp", S+"factor/Function.cpp", S+"factor/Immutable.cpp", S+"trainable/FactorsTunableManager.cpp", S+"io/json/Exporter.cpp"],
 [("const functions only read", "StateAware, FactorsAware, FactorsTunableGetter, Function"), ("factors shared between models are never written when they are inserted elsewhere", "FactorsTunableInserter::insertTunableFactor")],
 ["what the readers get, data races, later answers of the model"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
