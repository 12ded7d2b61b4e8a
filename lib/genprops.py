#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where property text is kept)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))

DT = "src/models/impl/DecisionTreeImpl.cpp"; RF = "src/models/impl/RandomForestImpl.cpp"
RG = "src/Region.cpp"; AP = "src/Apollo.cpp"; DS = "src/Dataset.cpp"; PN = "src/models/PolicyNet.cpp"
KK = "src/connectors/kokkos/kokkos-connector.cpp"; MF = "src/ModelFactory.cpp"; PA = "src/helpers/Parser.cpp"

prop("C01", "A trained decision tree selects the best measured policy",
 "After a decision-tree model whose depth limit is not binding has been trained, then for every feature vector that was measured before the training, the policy it selects is one whose recorded metric is the smallest among the policies measured for exactly that feature vector. This holds for all finite feature values (negative, huge, or differing only in the last bit), any number of features, policies, classes and samples.",
 ["inputs", "histories"], "every finite measurement set and every feature vector in it",
 "apollo-test checks one 4-value integer feature with busy-wait timing (and fails at the pinned commit); the rule quantifies over all measurement sets.",
 [DT, DS, "src/models/DecisionTree.cpp", RG],
 [("per-feature minimum over policies", "Dataset::findMinMetricPolicyByFeatures"), ("greedy Gini splitting until pure", "DecisionTreeImpl::build_tree/split"), ("threshold descent", "DecisionTreeImpl::evaluate_tree")],
 [("training samples", "one best policy per measured feature vector", "DecisionTreeImpl::data")],
 ["Region::getPolicyIndex after Apollo::train", "PolicyModel::getIndex"])

prop("C02", "The selected policy is always one of the region's policies",
 "Whatever the policy model and its parameters, whatever feature values are supplied (also ones never measured) and whatever was explored, trained or loaded before, the policy index handed to the application lies between 0 and the region's number of policies minus one. The only precondition is that the measurements or files the model was built from contain only such indices.",
 ["inputs", "histories", "configurations"], "all models, parameters, feature values and train/load histories",
 "Tests print or compare a handful of indices for at most 4 policies and never query features outside the training set.",
 ["src/models/*.cpp", MF, RG],
 [("index computed modulo/uniform over the policy count", "RoundRobin::getIndex, Random::getIndex"), ("classes come from training responses", "DecisionTreeImpl, RandomForestImpl::predict"), ("discrete distribution over network outputs", "PolicyNet::getIndex"), ("Static clamp", "ModelFactory::createPolicyModel")],
 observe=["Region::getPolicyIndex", "PolicyModel::getIndex"])

prop("C03", "Exploration covers all policies as configured until training, never after",
 "Under RoundRobin a region's successive selections are 0,1,...,N-1 cyclically, independently of the features and of other regions; under Random each of the N policies is drawn with equal probability on every selection; under Static the configured policy is returned always. A decision tree or random forest that is not trained yet selects through its configured explorer (RoundRobin by default), and once trained or loaded it selects as a fixed function of the features.",
 ["histories", "configurations", "inputs"], "all policy counts, selection histories, interleavings of regions and explorer settings",
 "Tests run one region with 2 or 4 policies and never check the explored sequence.",
 ["src/models/RoundRobin.cpp", "src/models/Random.cpp", "src/models/Static.cpp", "src/models/DecisionTree.cpp", "src/models/RandomForest.cpp", MF],
 [("per-model last policy counter", "RoundRobin::getIndex"), ("uniform_int_distribution", "Random::Random"), ("trainable flag selects explorer or predictor", "DecisionTree::getIndex, RandomForest::getIndex")],
 [("trainable", "still exploring", "DecisionTree/RandomForest")], ["Region::getPolicyIndex"])

prop("C04", "Each execution is recorded exactly once under its own features and policy",
 "While a region's model is still trainable (or datasets are persistent), each completed execution contributes exactly one measurement, filed under exactly the features set and the policy selected during that execution; executions of other regions, nested or interleaved, never mix in. A first measurement of a (features, policy) pair is kept as is, and each later one replaces the stored metric by the mean of the stored and the new value.",
 ["histories", "inputs"], "all interleavings of begin/set-feature/select/end over many regions, through every form of the API",
 "Tests never look at the recorded dataset.",
 [RG, DS, AP, "include/apollo/Region.h"],
 [("context collection", "Region::collectContext"), ("feature vector reset per execution", "Region::createRegionContext"), ("moving average with weight 0.5", "Dataset::insert")],
 [("dataset", "(features, policy) -> metric", "Apollo::Dataset::data"), ("sync_context", "reused context", "Region")],
 ["Region::dataset", "Dataset::toVectorOfTuples", "C API __apollo_region_*"])

prop("C05", "Asynchronous executions are collected exactly once, only when complete",
 "With event-based CUDA or HIP timing, each region execution is recorded exactly once, only after its stop event has completed, with the device-elapsed time in seconds and with its own features and policy, whatever the order in which executions complete and however many are in flight. Executions still pending when training is requested stay pending and are recorded later, those pending at program end are waited for and recorded, and every timing event created is destroyed once.",
 ["schedules", "histories"], "all completion orders and all interleavings of begin, end, train and exit with any number of executions in flight",
 "No test compiles the CUDA/HIP timers or the asynchronous path at all.",
 [RG, "src/timers/TimerCudaAsync.cpp", "src/timers/TimerHipAsync.cpp"],
 [("pending list swept with remove_if", "Region::collectPendingContexts"), ("not-ready polling", "TimerCudaAsync::isDone, TimerHipAsync::isDone"), ("drain at destruction", "Region::~Region")],
 [("pending_contexts", "ended, not yet timed", "Region")], ["Region::dataset", "CSV trace", "event API calls (stub runtime)"])

prop("C06", "The recorded metric is the monotonic time between begin and end, in seconds",
 "For synchronous timing the recorded metric of an execution equals the real time elapsed between the begin and the end of that execution, in seconds with sub-microsecond resolution, for durations from zero to days. It does not depend on adjustments of the system's wall clock or on how much CPU time was used, and a metric that the application supplies itself at the end replaces it unchanged.",
 ["inputs", "schedules", "fault_sequences"], "all durations, nestings and clock adjustments",
 "Tests only rely on 0 versus 10 ms; nothing adjusts the clock or checks the value.",
 ["src/timers/TimerSync.cpp", RG],
 [("CLOCK_MONOTONIC at begin and end", "TimerSync::start/stop"), ("difference in seconds", "TimerSync::isDone")],
 observe=["Region::dataset", "CSV trace xtime"])

prop("C07", "Persistent datasets survive restarts without loss or change",
 "With persistent datasets enabled, a run that ends normally leaves for every region a dataset from which the next run starts with exactly the same set of (features, policy) pairs and, up to the last bit, the same metrics; new measurements then continue from there. This holds for any number of features (including none), all finite values, all regions and any number of successive runs.",
 ["inputs", "histories"], "all finite datasets, region sets and run sequences",
 "No test enables persistent datasets; store and load are never executed.",
 [DS, PA, RG],
 [("text format writer", "Dataset::store"), ("token parser", "Dataset::load, Parser"), ("store at region destruction, load at creation", "Region::~Region, Region::Region")],
 observe=["dataset files", "Region::dataset in the next process"])

prop("C08", "A stored decision tree or forest reloads as the same predictor",
 "A decision-tree or random-forest model that is stored and later loaded (by path, by the load parameter in a later run, or into a model that was trained or loaded before) selects for every feature vector the same policy as the model that was stored, does not explore, and stores again to an equivalent file. With model storing enabled every training of a region's own model leaves it under the region's own name, rank and step and as the latest one, so that a later run loads each region's own most recent model.",
 ["inputs", "histories"], "all trained models, all query vectors and all store/load/retrain sequences",
 "No test stores or loads a model.",
 [DT, RF, PA, RG, "src/models/DecisionTree.cpp", "src/models/RandomForest.cpp", "src/helpers/OutputFormatter.h"],
 [("serializer", "DecisionTreeImpl::output_tree/output_node, RandomForestImpl::output_rfc"), ("parser", "DecisionTreeImpl::parse_tree, RandomForestImpl::parse_rfc"), ("file naming", "Region::train, Region::Region")],
 observe=["model files", "getPolicyIndex before and after"])

prop("C09", "A stored PolicyNet reloads with identical action probabilities",
 "A policy network that is stored and then loaded into a network of the same shape yields exactly the same selection probabilities for every feature vector, including the threshold behaviour that depends on the running reward average, no matter what the loading network computed or cached before. Storing it again yields the same file content.",
 ["inputs", "histories"], "all network shapes, training histories and query vectors",
 "No test runs PolicyNet.",
 [PN], [("binary dump of weights, biases, reward average and train count", "PolicyNet::store/load"), ("probability cache", "PolicyNet::actionProbabilityMap")],
 observe=["model files", "selections under a controlled random source"])

prop("C10", "Decision trees respect the depth limit and split to minimise impurity",
 "No path of a trained tree has more splits than the configured maximum depth (0 gives a single leaf). Every leaf answers with a class that is most frequent among the training samples reaching it, every split is on a feature and threshold that strictly separates the samples reaching it and attains the smallest weighted Gini impurity over all features and cut points, and a node is split whenever it is impure and the depth limit allows it.",
 ["inputs", "configurations"], "all training sets and depth limits",
 "apollo-test accepts any tree that fits four points; apollo-overhead checks nothing.",
 [DT], [("greedy split search", "DecisionTreeImpl::split"), ("recursion limit", "DecisionTreeImpl::build_tree"), ("majority class", "DecisionTreeImpl::Node::Node")],
 observe=["stored tree files", "PolicyModel::getIndex"])

prop("C11", "A random forest is the majority vote of its configured number of trees",
 "A trained forest consists of exactly the configured number of trees, each within the depth limit and fitted to a sample, drawn with replacement and of the same size, of the best-policy training data; training again replaces the previous forest. For every feature vector the selected policy is one that receives the largest number of votes of those trees.",
 ["inputs", "configurations", "histories"], "all training sets, tree counts, depths, query vectors and retraining histories",
 "No test runs RandomForest.",
 [RF, DT, "src/models/RandomForest.cpp"], [("bootstrap sampling", "RandomForestImpl::train"), ("vote counting", "RandomForestImpl::predict")],
 observe=["stored forest files", "PolicyModel::getIndex"])

prop("C12", "PolicyNet selects from its network's distribution and learns as documented",
 "PolicyNet draws each selection from the softmax distribution that its three-layer network assigns to the bit encoding of the features, always using the weights of the most recent training. One training performs one Adam ascent step (documented lr, beta1, beta2) of the policy-gradient objective over all recorded measurements with reward exp(-metric) minus the debiased moving-average baseline (documented beta); while the baseline is below the threshold it neither trains nor selects anything but policy 0.",
 ["inputs", "histories", "configurations"], "all feature counts, policy counts, hyper-parameters, datasets and training histories",
 "No test runs PolicyNet.",
 [PN], [("forward pass and softmax", "FCLayer/ReLU/Softmax::forward"), ("backpropagation and Adam", "FCLayer::backward/step, Softmax::lossGrad"), ("baseline", "PolicyNet::trainNet")],
 [("rewardMovingAvg, trainCount", "debiased reward baseline", "PolicyNet")], ["stored weights before and after training", "selections under a controlled random source"])

prop("C13", "Training happens exactly when it is requested or due",
 "With per-region models, a trainable model is trained exactly when the application requests it and data exist, after every P-th region execution overall (global period P, when that execution is of a region that is still trainable), after every Q-th execution of that region (per-region period Q), or as soon as its dataset holds the region's minimum number of entries (also at creation, from a persistent dataset); otherwise it keeps exploring. Models that are not trainable (static, exploring-only, loaded or already trained trees) are left unchanged by all of these, and a region with no data is skipped without error.",
 ["histories", "configurations"], "all execution histories over several regions and all trigger settings",
 "Tests call train once explicitly; no test sets a period or a minimum.",
 [RG, AP], [("trigger chain", "Region::autoTrain"), ("guards", "Region::train"), ("global loop", "Apollo::train")],
 [("region_executions, idx", "global and per-region execution counts", "Apollo, Region")], ["selections before/after", "stored model files per step", "isTrainable"])

prop("C14", "Per-region models are isolated; a single model uses every region's data",
 "In the default mode a region's model depends only on the executions of that region: whatever other regions exist, execute or train, its selections are as if it were alone. In single-model mode one training fits every region to the union of all regions' measurements, so that all regions select the same policy for the same features; a training with no data at all changes nothing.",
 ["histories", "configurations"], "all sets of regions, data and training orders",
 "Tests use one region and never the single-model mode.",
 [AP, RG, DS], [("merged dataset", "Apollo::train"), ("per-region dataset and model", "Region")],
 observe=["Region::getPolicyIndex across regions"])

prop("C15", "Collective training gives every rank the union of all ranks' measurements",
 "When ranks train collectively, each rank's dataset for a region it knows becomes the union of the (features, policy) pairs that all ranks recorded for the region of that name, with each pair that only one rank measured keeping that rank's exact metric and each shared pair getting a value between the smallest and largest contributed metric. Nothing is lost, duplicated or filed under another region, for any number of ranks, regions, region name lengths, features and measurements per rank (including none), and regions unknown to a rank are ignored there.",
 ["inputs", "configurations", "schedules"], "all rank counts and per-rank measurement sets, with differing region sets",
 "apollo-test-mpi runs 2 ranks without collective training; the gathering code is never executed by any test.",
 [AP], [("packing", "packMeasurements, get_mpi_pack_measure_size"), ("exchange and unpacking", "Apollo::gatherCollectiveTrainingData")],
 observe=["Region::dataset on each rank after Apollo::train"])

prop("C16", "Traces report every execution once, in order and faithfully",
 "With CSV tracing each region's trace has, after a header, exactly one row per completed execution in completion order giving rank, model, region, execution number (0,1,2,... in begin order), all features, the selected policy and the metric, and the rank's global trace lists the executions of all regions in completion order with the same numbers and policies. The execution-info file lists each region once with its number of executions, and best-policy and policy traces show the policies actually trained on and actually selected; in a parallel run each rank's traces carry its own rank and tell its own executions, and the gather trace of a collective training lists every measurement of every rank once.",
 ["histories", "configurations"], "all histories over several regions and models",
 "No test enables any trace.",
 [RG, AP], [("row writing before the context is consumed", "Region::collectContext"), ("exec info", "Apollo::~Apollo"), ("policy/best-policy traces", "Region::getPolicyIndex, Region::train")],
 observe=["trace files"])

prop("C17", "Damaged model or dataset files are rejected, never half-used",
 "Loading a dataset or a model file that is truncated at any point or whose structure is damaged ends in a reported failure (error exit or exception) before the application gets a policy from it; it never reads or writes memory out of bounds, hangs, or continues with part of the content. The same holds for files whose entries do not fit the region (number of features, policy range, tree nodes), a model whose load failed keeps its previous state, and a file that is complete is always accepted. Bytes after the last token are unspecified.",
 ["crash_points", "inputs", "fault_sequences"], "every truncation point of every file the library writes, and structural corruptions",
 "No test loads a file.",
 [PA, DS, DT, RF, PN, RG], [("expected-token checks", "Parser::parseExpected"), ("token buffer bound", "Parser::getNextToken"), ("required file checks", "Region::Region")],
 observe=["exit status, sanitizer reports, selections after load"])

prop("C18", "Configuration is honoured exactly or rejected",
 "The model named in the region's model string, or else in the environment, is the one used, with its parameters in any order: static policy (out of range falls back to 0), per-region static map, tree count, depth, explorer, network parameters. Contradictory training or modelling modes, unknown models, unknown parameters, negative static policies and missing files that are to be loaded stop the program with an error instead of running with something else. Datasets, traces and the models of per-region trainings are written exactly when enabled, and in the configured directories.",
 ["configurations", "inputs"], "all model strings and combinations of environment settings",
 "Tests use two hard-coded model strings and the default environment.",
 [RG, AP, MF], [("model string parser and validation", "Region::parsePolicyModel, validate"), ("mode checks", "Apollo::Apollo"), ("factory", "ModelFactory::createPolicyModel")],
 observe=["exit status", "selections", "stored model files"])

prop("C19", "Kokkos tuning variables only receive declared candidate values",
 "Every value that the Kokkos connector assigns to a tuning variable is one of the candidates declared for that variable: a member of its set, or a point of its range that respects the bounds, their openness and the step (lower bound plus a multiple of the step; distinct points within the bounds when there is no step). Variables without candidates or with too many combinations keep the value passed in. The selected policy determines the combination of all tuning variables one-to-one, so exploring all policies tries every combination of candidates once.",
 ["inputs", "histories", "configurations"], "all declarations of set and range variables (integer, real, text) and their combinations",
 "The connector is compiled but never called by a test.",
 [KK], [("candidate enumeration", "count_range_slices, form_set_from_range, associate_candidates"), ("mixed-radix decoding", "kokkosp_request_values")],
 [("candidate_values", "values per variable", "VariableDatabaseData")], ["values written by kokkosp_request_values"])

prop("C20", "Kokkos contexts are measured in their own region and models are reused",
 "Contexts with the same list of input and tuning variables share one region and other lists never do; each ended context adds one measurement with the values of its input variables as features, also when contexts of different regions are nested, and ending an unknown context does nothing. Training happens at every flush interval, device fences are requested around kernels exactly while untrained regions exist, and a later run reuses a stored model so that it selects the same values the trained model did.",
 ["histories", "configurations"], "all interleavings of request and end over several variable sets, over successive runs",
 "The connector is compiled but never called by a test.",
 [KK], [("region lookup by variable ids", "tuning_regions, less<variableSet>"), ("context table", "tuned_contexts"), ("flush and model reuse", "kokkosp_end_context, kokkosp_request_values")],
 observe=["persistent datasets, stored models, fence callbacks, returned values"])

prop("C21", "JIT-compiled decision trees select the same policies as interpreted ones",
 "In a build with JIT compilation of decision trees, every decision tree or forest selects, for every feature vector, the same policy as the same model does when interpreted: after training, after each retraining, after loading from a file, and with any number of models and processes at the same time.",
 ["inputs", "histories", "schedules"], "all trained or loaded models, query vectors (also exactly at the thresholds), retraining histories and concurrent processes",
 "The JIT tests run one model in one process and, for apollo-overhead, compare nothing.",
 [DT], [("source generation, compilation and linking", "DecisionTreeImpl::generate_source, compile_and_link_jit_evaluate_function")],
 [("jit_evaluate_function", "compiled evaluator", "DecisionTreeImpl")], ["PolicyModel::getIndex in the JIT build versus the default build"])

prop("C22", "No conforming use causes memory errors or undefined behaviour",
 "Any sequence of API calls that respects the interface (features as declared, begin before end, one open synchronous execution per region) runs to normal process exit without out-of-bounds or use-after-free access, use of uninitialised values, undefined arithmetic, or an unexpected exception or abort. This covers all models and configurations, long region and variable names, repeated training, storing and loading, and regions that are created but never executed.",
 ["histories", "inputs", "configurations"], "all conforming call sequences",
 "Tests run three fixed call sequences without sanitizers and with assertions off.",
 ["src/**", "include/apollo/**"], [("ownership of regions, contexts, nodes and buffers", "Apollo::~Apollo, Region, DecisionTreeImpl, PolicyNet"), ("bounded copies of names", "Region::Region, kokkosp_declare_*")],
 observe=["AddressSanitizer, UndefinedBehaviorSanitizer, Valgrind memcheck reports"])

prop("C23", "Training is deterministic in the set of measurements",
 "Two decision trees, or two random forests, trained with the same parameters on the same set of measurements select the same policy for every feature vector, regardless of the order in which distinct measurements were recorded, of the process or rank they are trained in, and of what was trained or loaded there before.",
 ["histories", "inputs", "schedules"], "all measurement sets, insertion orders and process histories",
 "No test trains two models.",
 [DT, RF, DS], [("ordered measurement map", "Dataset::data"), ("fixed-seed bootstrap generator", "RandomForestImpl::train"), ("state reset before training", "DecisionTreeImpl::train")],
 observe=["PolicyModel::getIndex, stored model files"])

prop("C24", "Oracle models replay exactly what their files prescribe",
 "A dataset-map model selects, for every feature vector in the region's dataset file, the policy with the smallest recorded metric, and stops the program for features that are not in it. An optimal-sequence model returns the policies of its file in order, one per selection, per region and rank, and stops the program when they are used up; neither is changed by a training request.",
 ["inputs", "histories"], "all dataset and sequence files and selection histories",
 "No test runs either model.",
 ["src/models/DatasetMap.cpp", "src/models/Optimal.cpp", DS, RG], [("lookup of the minimum-metric policy", "DatasetMap::train/getIndex"), ("queue", "Optimal::load/getIndex")],
 observe=["Region::getPolicyIndex, exit status"])

prop("C25", "Analysis scripts draw the stored model and run every policy",
 "The drawing scripts turn every stored decision tree or random forest into a directed graph with exactly one vertex per stored node carrying that node's stored attributes, an edge from each split to its left and its right child, and one subgraph per tree of a forest. The exhaustive-run script runs the given program once per policy with that policy fixed, then once exploring round-robin, each run traced, without retraining and otherwise in the caller's environment, and stops with an error at the first run that fails.",
 ["inputs", "configurations", "fault_sequences"], "all stored models, policy counts, programs and failing runs",
 "No test runs the scripts.",
 ["src/python/analysis/dtree2dot.py", "src/python/analysis/rfc2dot.py", "src/python/analysis/run-exhaustive.py"],
 [("recursive drawing", "parse_node, parse_tree, parse_rfc"), ("loop over policies", "run-exhaustive.py main")],
 observe=["dot files, environment and number of program runs, trace files"])

prop("C26", "Call-path identifiers name exactly the calling code",
 "For every place in the program that asks for it and every walk distance from two (the caller) up to the depth of the call stack, the call-path identifier is <module>@<address> of exactly the frame that many levels up: the name of the executable or shared library without its directory, and the address within the running process. The same place gives the same identifier each time and different places give different ones, through recursion, callers in shared libraries, and programs and libraries in any directory and of any name.",
 ["inputs", "configurations", "histories"], "all call sites, walk distances within the stack, modules and file names",
 "No test asks for a call-path identifier.",
 ["src/Apollo.cpp"],
 [("walk the stack and cut module and address out of the symbol text", "Apollo::getCallpathOffset")],
 observe=["returned identifiers against an independent unwinding at the same place"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P))
