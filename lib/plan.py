"""Which harnesses decide which property. Job: (harness, variant[, sections[, scale]])."""

LEARN = "scales,mixed,dense,filters,temporal,resets,longer,large,gradient,huge"

PLAN = {
    "C01": {
        "quick": [("infer", "rel")],
        "thorough": [("infer", "rel"), ("infer", "asan", None, 0.2)],
        "rule": "A case is a random architecture (1-5 layers of all types, 1D/2D/3D inputs, all activations) with random weights and 1-7 inputs; "
                "each layer's output is compared with its mathematical definition computed in double precision from the same weights and inputs, "
                "and the network's output with the composition. Distinct: the architecture text. Non-trivial: values were compared.",
        "require": {"values compared with the specification": 100000, "values of any magnitude compared": 50000},
        "assumptions": ["the float result may differ from the double precision definition by the accumulated rounding bound of the specification (about 1e-6 relative)"],
    },
    "C02": {
        "quick": [("learn", "rel", LEARN)],
        "thorough": [("learn", "rel", LEARN), ("learn", "asan", LEARN, 0.1)],
        "rule": "A case is a random architecture (all layer types and activations, momentum 0..1, learning rate 0.001..0.9) trained 2-6 steps. At each step every layer's "
                "new weights and propagated errors are compared with gradient descent with momentum computed in double precision from the layer's real inputs, errors and weights "
                "(one specification state per layer: momentum, previous outputs, carried error), and training the whole network must equal, bit for bit, training its layers one after the other. "
                "Section scales: one layer whose inputs, errors, weights, learning rate and momentum have any magnitude. Section gradient compares weight changes with a numeric gradient of the squared error. Distinct: the architecture text.",
        "require": {"weights of any magnitude compared": 100000, "weights compared after a step": 1000000, "weight changes compared with a numeric gradient": 5000},
        "assumptions": ["a difference within the accumulated float rounding bound (about 1e-6 relative) is not seen",
                        "cases whose numbers explode until the bound says nothing are skipped (counted as vague)"],
    },
    "C03": {
        "quick": [("learn", "rel", "sequences,memoryless,dependence,hugeSequences"), ("deliver", "rel", "resets", 0.4)],
        "thorough": [("learn", "rel", "sequences,memoryless,dependence,hugeSequences"), ("learn", "asan", "sequences,memoryless,dependence,hugeSequences", 0.1), ("deliver", "rel", "resets", 2)],
        "rule": "A case is a random temporal architecture going through 4-16 steps of interleaved inference and training with resets at random places; a specification of each layer whose memory is "
                "emptied at each reset must explain every output, weight and propagated error. Networks without memory are compared bit for bit with a copy that had another history and other resets. Section resets observes trainings and evaluations of all natures of data: each presentation that does not continue its sequence or window comes with a reset, and none inside does. "
                "Distinct: the architecture text.",
        "require": {"starts of sequences presented": 100000, "sequences": 5000, "comparisons of networks without memory": 5000, "visible dependences": 100},
        "assumptions": ["differences within the float rounding bound are not seen in the specification comparison (the comparison of networks without memory is exact)"],
    },
    "C08": {
        "quick": [("stats", "rel", "scripted,many,real", 3)],
        "thorough": [("stats", "rel", "scripted,many,real", 10), ("stats", "asan", "scripted,many,real", 0.5)],
        "rule": "A case is a data set (problem kind, sizes, separator or precision, several evaluations) and either a monitor layer whose outputs follow a script - ties, values on and "
                "around the separator and precision, classes absent or never predicted, negative and large outputs - or a real network; after each evaluation the five scores are compared with "
                "their definitions computed in double precision from the outputs the network gave. Distinct: the data set and its outputs.",
        "require": {"evaluations compared with the definitions": 20000, "data scored": 100000},
        "assumptions": ["data sets where float rounding could change a decision are not counted (decisions exactly on the limit are)"],
    },
    "C09": {
        "quick": [("stats", "rel", "best", 2)],
        "thorough": [("stats", "rel", "best", 20), ("stats", "asan", "best", 0.5)],
        "rule": "A case is a history of evaluations with scripted scores (improving, equal, worse, mixed) over trainings, copies, saves and loads; after each one the best of every score must be "
                "the best value the monitor saw since creation, and isBest-dependent effects must follow strict improvement. Distinct: the history of scores.",
        "require": {"histories": 3000, "improvements": 20000},
    },
    "C10": {
        "quick": [("deliver", "rel", "nonTemporal,orders,means", 2)],
        "thorough": [("deliver", "rel", "nonTemporal,orders,means", 20), ("deliver", "asan", "nonTemporal,orders,means", 0.5)],
        "rule": "A case is a training of a network made of a monitor layer that records every presentation (input, target error, reset, learning or not) over several epochs and batch sizes; the record is checked "
                "for exactly-once delivery with the right target, fresh shuffling and means of batches; all the orders of two to six data must come (orders), and batches of any values, repeated ones included, be means (means). Distinct: the orders of the epochs.",
        "require": {"epochs observed": 5000, "presentations observed": 50000, "places whose variety was checked": 2000, "batch means compared": 100000, "sets of few data whose orders were all seen": 100},
    },
    "C11": {
        "quick": [("deliver", "rel", "sequential,timeSeries", 2)],
        "thorough": [("deliver", "rel", "sequential,timeSeries", 20), ("deliver", "asan", "sequential,timeSeries", 0.5)],
        "rule": "As C10 for sequential and time series data: the recorded presentations must be the sequences (each once, contiguous, in order, reset at the first data only) or the windows "
                "(n+1 consecutive data, reset at the start, alignment moving by one per epoch), evaluation in order. Distinct: the orders of the epochs.",
        "require": {"windows observed": 50000, "sequence orders compared": 100, "window orders compared": 100},
    },
    "C26": {
        "quick": [("stats", "rel", "cluster,realCluster,labels", 2)],
        "thorough": [("stats", "rel", "cluster,realCluster,labels", 20), ("stats", "asan", "cluster,realCluster,labels", 0.5)],
        "rule": "A case is a scripted or real network and inputs (ties, negative, tiny, huge outputs); the cluster must be the index of the first largest output, the decision counted by evaluation must be the same, "
                "and labels must be the index of the 1 of the data, before and after shuffling. Distinct: the outputs.",
        "require": {"clusters compared": 50000, "decisions compared": 50000, "labels compared": 100000},
    },
}

TECHNIQUE = {
    "C01": "runtime monitor: online comparison of every layer output with an executable specification, over random architectures",
    "C02": "runtime monitor: every weight update and propagated error compared online with an executable specification, plus numeric gradients",
    "C03": "runtime monitor: stateful per-layer specification over interleaved sequences, and bitwise comparison with a copy that has another history",
    "C08": "runtime monitor: scripted layer drives evaluations, each score compared online with its definition",
    "C09": "runtime monitor: online tracking of every score over random histories with a scripted layer",
    "C10": "runtime monitor: trace of every presentation recorded by a monitor layer, checked for exactly-once delivery",
    "C11": "runtime monitor: trace of every presentation recorded by a monitor layer, checked against the sequence and window specification",
    "C26": "runtime monitor: every predicted cluster and label compared online with the outputs and targets",
}
_BASE = "Exploration: holds on every generated case; the oracle is independent of the code under test. "
NOTE = {
    "C01": _BASE + "Trusts the double precision specification in harness/ref.hpp and a rounding bound of about 1e-6 relative.",
    "C02": _BASE + "Trusts the specification in harness/ref.hpp (itself compared with numeric gradients) and a rounding bound.",
    "C03": _BASE + "Trusts the specification in harness/ref.hpp; the known finding K1 is modelled exactly, so that any other dependence is reported.",
    "C08": _BASE + "Decisions that float rounding could change are skipped.",
    "C09": _BASE + "Scores reach their values through a scripted layer that replaces the first layer of the network.",
    "C10": _BASE + "The monitor layer sees what the training engine presents to the first layer; freshness of the shuffle is statistical over many epochs with a fixed seed.",
    "C11": _BASE + "The monitor layer sees what the training engine presents to the first layer.",
    "C26": _BASE + "Finite outputs only.",
}


def add(pid, quick, thorough, technique, note, rule, require=None, assumptions=(), **more):
    PLAN[pid] = {"quick": quick, "thorough": thorough, "rule": rule, "require": require or {}, "assumptions": list(assumptions), **more}
    TECHNIQUE[pid] = technique
    NOTE[pid] = _BASE + note


add("C17",
    [("layeropt", "rel"), ("learn", "rel", "optimizers,dropout,hugeOptimizers")],
    [("layeropt", "rel"), ("learn", "rel", "optimizers,dropout,hugeOptimizers"), ("layeropt", "asan", None, 0.2), ("learn", "asan", "optimizers,dropout,hugeOptimizers", 0.1)],
    "runtime monitor: outputs, errors and weight updates of every layer compared online with the optimizers' definitions; statistical monitor of the dropout masks",
    "Statistical bounds (6.5 standard deviations, fixed seed) for the rate, independence and renewal of the masks; the rest is exact or within float rounding.",
    "A case is a layer or a network with random optimizers (type, value, order, several) trained a few steps: one dropout mask must explain outputs, errors and weights (order, optimizers, dropout), "
    "thousands of masks are tested for rate, independence and renewal at each sequence (rate), softmax on values from 1e-30 to 1e30 (softmax), errors and values of any magnitude (values), outputs not changed by regularization (unchanged), "
    "the whole network against its layers with the same random numbers (whole), evaluation without mask (evaluation), whole trainings on each nature of data where every presentation must be masked, with one mask for each sequence (trainings). Distinct: the architecture text.",
    {"steps explained by one mask": 10000, "masks observed": 100000, "probability vectors": 30000, "whole steps compared": 5000, "weights compared after a step": 500000, "errors changed by values of any magnitude": 50000})

add("C04",
    [("state", "rel", "purity", 2)],
    [("state", "rel", "purity"), ("state", "asan", "purity", 0.1)],
    "runtime monitor: a twin that did not compute or evaluate must stay bitwise equal, now and in its whole future",
    "The momentum of a GRU, which its memory hides, is compared through its weights only.",
    "A case is a random network with a random past, on which random inferences, evaluations, exports and summaries are done; its weights and counters must not change, its evaluation repeated must give the same scores, "
    "and a twin with the same past without them must give bitwise the same outputs, weights and scores afterwards. Distinct: architecture, past and operations.",
    {"operations that must change nothing": 10000, "futures compared": 2000, "momenta of recurrent networks compared": 200})

add("C05",
    [("state", "rel", "copies,copyBusy,afterNan,valuesCopy", 2)],
    [("state", "rel", "copies,copyBusy,afterNan,valuesCopy"), ("state", "asan", "copies,copyBusy,afterNan,valuesCopy", 0.1)],
    "runtime monitor: copies and source driven through the same and through different futures, everything observable compared bitwise",
    "Both networks use the same random numbers, so that dropout and shuffling are compared too.",
    "A case is a random network (all layers, optimizers, dropout) with a random past, its copies, a copy of a copy, and random futures applied to both, to one of them, or to one after the other is destroyed. Distinct: architecture and past.",
    {"copies compared": 10000, "future steps compared": 20000, "copies during a training": 50, "networks with settings of any magnitude": 1000})

add("C06",
    [("state", "rel", "persist,damaged,saveBusy,afterNan,locale,valuesLoad", 2)],
    [("state", "rel", "persist,damaged,saveBusy,afterNan,locale,valuesLoad"), ("state", "asan", "persist,damaged,saveBusy,afterNan,locale,valuesLoad", 0.1)],
    "runtime monitor: loaded network against the saved one, bitwise and through a common future; fault injection in the files",
    "A file cut inside its last value is not distinguishable from a shorter number (excluded).",
    "A case is a random network with a random past, saved (also over longer files, twice) and loaded: all observable state, and a random future, must be bitwise the same; the file is cut at random places, replaced by foreign content, "
    "removed, and saved where nothing can be written or during a training (saveBusy); it is saved and loaded by programs whose global locales write numbers in other ways (locale); settings of any magnitude (values). Distinct: architecture and past.",
    {"networks loaded": 4000, "future steps compared": 5000, "damaged files rejected": 5000, "impossible saves rejected": 1000, "networks loaded in another locale": 1000, "networks with settings of any magnitude": 1000})

add("C07",
    [("autosave", "rel", None, 2)],
    [("autosave", "rel"), ("autosave", "asan", None, 0.1)],
    "runtime monitor: the auto save file is watched between evaluations and training steps of scripted and real networks",
    "Crashes of the process while the file is written are out of scope.",
    "A case is a history of evaluations with scripted accuracies over evaluations, synchronous and asynchronous trainings, copies, loads and settings; after each evaluation the file must have been written exactly when the accuracy is "
    "strictly better than all before, and must load as the network of that moment. Real networks: same weights, outputs and accuracy. Distinct: the history.",
    {"evaluations observed": 50000, "auto saves loaded": 3000, "real auto saves loaded": 2000, "auto saves of long lives": 300})

add("C20",
    [("state", "rel", "equality,histories,oneWeight,pooling,progress,valuesEqual", 2)],
    [("state", "rel", "equality,histories,oneWeight,pooling,progress,valuesEqual"), ("state", "asan", "equality,histories,oneWeight,pooling,progress,valuesEqual", 0.1)],
    "runtime monitor: equality compared with the construction of pairs that are the same or differ by one attribute",
    "Pairs with the same weights come from the same random numbers.",
    "A case is a network and others that are the same, copied, loaded, or differ in one attribute (type, size, kernel, shape, activation, optimizers, learning rate, momentum, one weight by one unit in the last place (set, or edited in a saved file), auto save settings, progress; settings of any magnitude by the smallest step), "
    "compared both ways with == and !=; after any history copies, loaded saves and twins are equal and one training step makes them different (histories). Distinct: architecture and attribute.",
    {"pairs that must be different": 20000, "pairs that must be equal": 10000, "settings of any magnitude compared": 3000})

add("C21",
    [("replay", "rel", None, 2)],
    [("replay", "rel"), ("replay", "asan", None, 0.1)],
    "runtime monitor: presentations recorded by taps around the first and last layer, replayed step by step on a twin, compared bitwise",
    "For batches the recorded errors are replayed (their targets are checked by C10).",
    "A case is one to three trainings (synchronous, or asynchronous stopped anywhere, with observers) of a random network; the recorded presentations replayed with single training steps on a twin must give bitwise the same weights, momentum, memory and count. Distinct: architecture, data and trainings.",
    {"presentations replayed": 200000, "steps replayed": 80000, "asynchronous trainings replayed": 500})

add("C12",
    [("stop", "rel", None, 2)],
    [("stop", "rel"), ("stop", "asan", None, 0.1)],
    "runtime monitor: scripted network and virtual clock; an online model of the criteria says at each step whether the training must go on",
    "The clock of the library is replaced by one that the script moves, so that durations are exact.",
    "A case is one to three trainings with random criteria (epochs, accuracy, MAE, durations in ms, s and min, combined with || or &&, nested), data, batch size and evaluation frequency, scripted outputs at each evaluation "
    "and a clock that moves during the steps; the model checks every step, evaluation, counter and the end (sync). Waiting for an asynchronous training (async). Criteria used in others stay what they are; trees of operators that mix || and && (mixing). Distinct: criteria, data and end.",
    {"trainings observed": 30000, "evaluations observed": 150000, "trainings stopped inside an epoch": 3000, "waits observed": 500, "mixed criteria rejected": 1000, "criteria used in others": 5000})

add("C13",
    [("async", "rel"), ("async", "asan", None, 0.4)],
    [("async", "rel"), ("async", "asan", None, 0.5), ("async", "tsan", None, 0.3)],
    "runtime monitor: a layer inside the network reports every execution (step, evaluation, save) and when none may happen; injected delays, exceptions, NaN and slow saves",
    "A stop may let 16 more training steps start (one is usual); a hang is a case without progress for 60 s, confirmed alone with 180 s.",
    "A case is a random history of start, stop, restart, destruction, rejected operations, observations and synchronous trainings with random delays inside the training (operations); stops during an auto save, the first evaluation or at once (moments); "
    "trainings that end by NaN (ended); exceptions of the training and of its auto save (exceptions); synchronous trainings stopped from another thread (elsewhere); threads waiting for what will not happen when the training is stopped (waits). Distinct: the history and the number of steps it executed.",
    {"stops observed": 4000, "destructions observed": 300, "rejections observed": 500, "restarts observed": 300, "stops during an auto save": 200, "exceptions observed": 400, "trainings in another thread": 300, "waits for a stopped training": 300})

add("C14",
    [("race", "tsan"), ("race", "rel", "several,copies"), ("async", "tsan", "operations,moments,elsewhere", 0.4)],
    [("race", "tsan"), ("race", "rel", "several,copies"), ("async", "tsan", None, 0.5)],
    "ThreadSanitizer on the real library under concurrent observers, stops, restarts and several networks; results compared with the same networks alone",
    "A race that needs an interleaving without happens-before is seen whenever both accesses are executed; races inside system libraries are not instrumented.",
    "A case is a training observed by one to three threads reading every getter and waiting (observers), two to five networks living at the same time in threads of their own, whose results must be those they give alone (several), "
    "copies of one network trained at the same time (copies), or a history of C13 (operations, moments, elsewhere). Distinct: architecture and data, seeds, or history.",
    {"observations": 3000, "asynchronous trainings observed": 150, "networks living at the same time": 500, "stops observed": 1000},
    only_sanitizer=True, keep=("influence", "structure", "progress"))

add("C15",
    [("nonfinite", "rel", None, 2)],
    [("nonfinite", "rel"), ("nonfinite", "asan", None, 0.2)],
    "runtime monitor: outputs judged by their bits, in the optimized build, against what the network reports and does",
    "An evaluation whose very last output is the first non finite one may still report finite scores (only later evaluations are covered).",
    "A case is a history of inferences, steps, trainings, evaluations and copies of a network whose outputs are scripted - any finite float, then any NaN or infinity at any place (scripted) - "
    "or of a real network with inputs of 1e-45 to 3e38, NaN or infinity (real): it must report exactly the non finite outputs, apply no step from then on, end every training and give NaN scores. Distinct: the history.",
    {"special outputs": 2000, "histories without special output": 2000, "trainings ended by a special output": 2000, "real special outputs": 1500, "steps not applied": 10000, "steps with finite outputs": 30000})

add("C16",
    [("arch", "rel")],
    [("arch", "rel"), ("arch", "asan", None, 0.1)],
    "runtime monitor: every built or rejected architecture compared with an executable definition of validity, shapes and counts",
    "Networks whose weights would not fit in memory are not tried.",
    "A case is a list of random layer models with random or edge numbers (random), a valid architecture with one thing made wrong (oneWrong), or one near the documented limits (large). Accepted or rejected must be what the definition says; "
    "shapes, neurons, parameters (and real weights) of each layer and their totals must be the defined ones, and the network must compute and train. Distinct: the architecture.",
    {"architectures built": 6000, "architectures rejected": 15000, "layers compared": 20000, "networks used": 6000})

add("C18",
    [("data", "rel", "normalize", 2)],
    [("data", "rel", "normalize", 2), ("data", "asan", "normalize", 0.3)],
    "runtime monitor: every normalized value compared online with the affine map computed in double precision from the values before",
    "Spreads that only denormal numbers can represent are checked for finiteness only (the optimized build flushes them).",
    "A case is a data set of any nature (two sets or the same for both, shuffled or not) whose features are constant, tied, sorted, with outliers, neighbours or of magnitudes 1e-44 to 1e37, normalized once or twice to a range; "
    "each value must be the affine image of the old one, the ends of the training range the ends of the range, order, sequences, labels unchanged. Distinct: the data set and range.",
    {"values compared": 1000000, "constant features": 20000, "features compared": 100000})

add("C19",
    [("data", "rel", "construction,mismatch")],
    [("data", "rel", "construction,mismatch"), ("data", "asan", "construction,mismatch", 0.2)],
    "runtime monitor: executable definition of consistent data against random and malformed data sets; rejected uses of a network against a twin that did not see them",
    "An empty testing set and rows without any value are left unspecified.",
    "A case is the arguments of one of the four constructors with up to two defects (row sizes, counts, empty sets or sequences, classes, recurrences, nature): it must be rejected or accepted as the definition says and then report what was given (construction); "
    "or a network used with data, batch sizes or vectors that do not match it, which must throw, write nothing and leave it bitwise equal to its twin now and later (mismatch). Distinct: the arguments, or the architecture.",
    {"data rejected": 15000, "data accepted": 10000, "uses rejected": 10000})

add("C22",
    [("activ", "rel", None, 2)],
    [("activ", "rel"), ("activ", "asan", None, 0.2)],
    "runtime monitor: values and derivatives of the real functions compared with double precision over every sign and exponent of float; neurons compared with the function they were given",
    "Mantissas are sampled; results that only denormal numbers can represent may be flushed to 0.",
    "A case is one sign and exponent with random and edge mantissas for the seven functions (values), random points where the derivative must be the slope of the library's own values (slopes), "
    "or a layer of one input whose outputs and training step must be those of its function, its copy and its saved and loaded version too (neurons). Distinct: sign, exponent and draw, or layer.",
    {"values of a function compared": 10000000, "slopes compared": 500000, "neuron outputs compared": 500000, "neuron steps compared": 5000})

add("C23",
    [("bitmap", "rel", None, 2)],
    [("bitmap", "rel"), ("bitmap", "asan", None, 0.2)],
    "runtime monitor: files exported by the real library parsed and compared pixel by pixel with the outputs, weights and inputs of the network",
    "One level of rounding out of 255 is allowed; unwritable destinations are not covered.",
    "A case is a random network on 2D (or other) data with 1 to 13 filters, weights and inputs inside and outside the color range; the three exports must write exactly the expected files with the expected size and pixels (exports), and be refused during a training (training). Distinct: architecture and input.",
    {"pixels compared": 1000000, "bitmaps of in": 3000, "bitmaps of map": 5000, "bitmaps of out": 5000, "exports refused during a training": 100})

add("C24",
    [("summary", "rel")],
    [("summary", "rel"), ("summary", "asan", None, 0.1)],
    "runtime monitor: the text of the summary parsed and compared with the architecture given, the real weights and the history",
    "Numbers printed with 6 digits are compared with that precision.",
    "A case is a random architecture with layer optimizers and a random history of inferences, trainings, copies, saves and loads; after each one the summary must list the layers in order with their type, shapes, sizes, parameters, activation and optimizers, "
    "and the network's name, parameters (counted on the real weights), epochs, trainings and optimizer, also after trainings of up to a million epochs (longLives). Distinct: the architecture.",
    {"summaries compared": 20000, "values compared": 500000, "epochs of summarized trainings": 4000000})

add("C25",
    [("hostile", "asan", "program,anyData"), ("hostile", "rel", "leakProgram,leakRefused"), ("early", "asan", None, 0.5), ("early", "rel", None, 0.5), ("infer", "asan", None, 0.1), ("learn", "asan", None, 0.1), ("arch", "asan", None, 0.1),
     ("data", "asan", None, 0.1), ("bitmap", "asan", None, 0.1), ("state", "asan", None, 0.05)],
    [("hostile", "asan", "program,anyData"), ("hostile", "rel", "leakProgram,leakRefused"), ("hostile", "tsan", "program", 0.2), ("early", "asan"), ("early", "rel")]
    + [(h, "asan", None, 0.2) for h in ("infer", "learn", "arch", "data", "bitmap", "state", "layeropt", "deliver", "stats", "replay", "stop", "async", "nonfinite", "activ", "summary", "weights", "autosave")],
    "AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions and a counter of live memory blocks watching hostile random programs over the whole public interface",
    "Exceptions thrown inside the thread of an asynchronous training end the process (not covered), as do weights that do not fit in memory.",
    "A case is a random program of 4 to 30 calls of the public interface on up to 4 networks and 4 data sets with hostile values (NaN, infinities, denormals, extreme floats), sizes, batches, paths and damaged files (program), "
    "data of any shape and everything they can be asked (anyData), a program or a refused construction repeated three times, which must keep no block of memory (leakProgram, leakRefused), "
    "a whole program whose networks and data are static objects, used before main, in main and still training at its end, run as a process of its own that must end well with the results it gives in main (statics), "
    "or a case of the harnesses of the other properties under the sanitizers. Distinct: architecture and calls, or the case's own.",
    {"calls": 60000, "data built": 1500, "lives without leak compared": 10000, "refusals without leak compared": 8000, "allocations observed": 10000000, "programs with static networks": 400},
    only_sanitizer=True, keep=("leak", "early"))

add("C27",
    [("weights", "rel")],
    [("weights", "rel"), ("weights", "asan", None, 0.2)],
    "runtime monitor: weights of new networks read and compared with the bound, across neurons, layers, networks, threads and processes",
    "Real random_device in the sections of threads and processes; coincidences have a probability below 1e-9.",
    "A case is a random architecture whose initial weights must be within bounds, of both signs, different in every neuron, layer and network, with one set per filter of a convolution and per filter and position of a locally connected layer (bounds), "
    "networks built at the same time in several threads (threads) or executions (processes), which must all differ. Distinct: the architecture.",
    {"initial weights": 3000000, "networks of threads": 5000, "executions": 16})

add("C28",
    [("log", "rel", "silence"), ("log", "loud", "evaluations,progress"), ("replay", "loud", None, 0.1), ("stop", "loud", None, 0.1)],
    [("log", "rel", "silence"), ("log", "loud", "evaluations,progress"), ("replay", "loud", None, 0.3), ("stop", "loud", None, 0.3), ("async", "loud", None, 0.3)],
    "runtime monitor: every text on the console judged online, while it is printed, against the state of the network and the auto save file",
    "What two threads print at the same time may be mixed on a line: each thread is judged on its own text.",
    "A case is a random history of trainings (synchronous and asynchronous) and evaluations with the log on (evaluations), a training slow enough to show its progress (progress), or a history with the log at its default level whose standard output "
    "and error must stay empty (silence). The harnesses replay and stop (C21, C12) run again with the log on: the trainings must be the same. Distinct: architecture, data and history.",
    {"evaluation lines compared": 50000, "saved lines compared": 1000, "progress lines compared": 200, "silent histories": 4000, "steps replayed": 20000})

# Cases per quick run, so that each one takes about ten seconds once built.
_FACTOR = {"C01": 16, "C02": 16, "C03": 20, "C05": 5, "C06": 4, "C07": 4, "C08": 12, "C09": 15, "C10": 6, "C11": 12, "C12": 6, "C13": 2, "C14": 2, "C19": 6, "C21": 12, "C23": 2, "C24": 4, "C25": 1.5, "C27": 6, "C28": 3}
for _pid, _p in PLAN.items():
    _f = _FACTOR.get(_pid, 8)
    _p["quick"] = [((j + (None, 1.0))[:2]) + ((j[2] if len(j) > 2 else None), (j[3] if len(j) > 3 else 1.0) * _f) for j in _p["quick"]]

# Long lives: tens of thousands of data, epochs, evaluations, steps or restarts. Their own scale, quick and thorough.
_LONG = {"C07": ("saves", 4), "C04": ("outputs", 8), "C05": ("copy", 8), "C06": ("load", 8), "C09": ("evaluations", 8), "C10": ("rows,epochs,batches", 8), "C11": ("sequences,series", 8), "C12": ("epochs", 8),
         "C13": ("restarts", 4), "C15": ("nan", 8), "C20": ("equal", 8), "C21": ("replay", 8)}
for _pid, (_sections, _scale) in _LONG.items():
    PLAN[_pid]["quick"].append(("long", "rel", _sections, _scale))
    PLAN[_pid]["thorough"].append(("long", "rel", _sections))
    PLAN[_pid]["rule"] += " Harness long: the same over a life of thousands to 140000 data, epochs, evaluations, steps or restarts (the counters in the evidence name them)."

# Very large networks and data: more than 65536 inputs, outputs, neurons, kernels or weights.
_HUGE = {"C04": ("outputs", 8), "C05": ("copy", 8), "C06": ("load", 8), "C08": ("scores", 8), "C10": ("batch", 4), "C15": ("nan", 8), "C18": ("normalize", 8), "C20": ("equal", 8), "C21": ("replay", 8), "C26": ("scores", 8)}
for _pid, (_sections, _scale) in _HUGE.items():
    PLAN[_pid]["quick"].append(("huge", "rel", _sections, _scale))
    PLAN[_pid]["thorough"].append(("huge", "rel", _sections, 4))
for _pid in [*_HUGE, "C01", "C02", "C03", "C17"]:
    PLAN[_pid]["rule"] += " " + ("Harness huge" if _pid in _HUGE else "Sections huge") + ": the same on networks and data of more than 65536 inputs, outputs, neurons, kernels or weights, or of hundreds of layers."
