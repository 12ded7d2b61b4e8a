#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SANX = "AddressSanitizer/UBSan-instrumented runs of generated scenarios"
T = {
 "C01": ("event-log oracle: minimum-metric policy per feature vector, " + SANX, "selections after training are compared with an independent minimum over the recorded dataset"),
 "C02": ("range monitor on every selection, " + SANX, "every index the library hands out is range-checked over all models, histories and hostile features"),
 "C03": ("trace-specification checker of exploration sequences, chi-square monitor for Random, controlled entropy", "exact sequences for RoundRobin/Static, statistical test (alarm below p=1e-10) for Random"),
 "C04": ("offline exactly-once checker of recorded measurements against the driver's event log", "datasets dumped through the API are compared entry by entry with a reference model of the log"),
 "C05": ("stub CUDA/HIP event runtime with controlled completion order; exactly-once and lifetime checker over its event log", "assumes the stub's cudaEventQuery/Elapsed semantics match the real runtimes"),
 "C06": ("virtual-clock monitor: recorded metric versus injected monotonic, wall and CPU clock advances; a real-clock sample", "interposes clock_gettime, gettimeofday, time and clock in the process"),
 "C07": ("cross-process conservation checker over datasets of successive runs", "exact comparison of datasets before exit and after restart"),
 "C08": ("differential monitor: selections of stored model versus reloaded ones in other processes", "compares on training points, thresholds +-1 ulp and random vectors"),
 "C09": ("differential monitor of PolicyNet selections under controlled entropy, before store and after load", "same random stream, so equal probabilities give equal selection sequences"),
 "C10": ("offline checker of stored trees against an independent Gini/majority oracle", "tolerance 2e-5 on impurity for float arithmetic"),
 "C11": ("offline checker of stored forests (bootstrap membership, tree oracle, votes) plus selection monitor", "resampling checked statistically over all trees of a run"),
 "C12": ("reference implementation of network, policy gradient and Adam compared with stored weights after every training; distribution monitor", "chi-square at p<1e-10; numerical tolerance on weights"),
 "C13": ("trace-specification checker of when training happens (trainable flag, selections, stored steps)", "reference automaton of all triggers"),
 "C14": ("differential monitor: each region of an interleaved history replayed alone; union oracle in single-model mode", "same entropy for replay"),
 "C15": ("offline checker over all ranks' datasets after collective training in real MPI runs with injected delays", "1-6 ranks of Open MPI on one host"),
 "C16": ("offline row-by-row checker of trace files against the driver's event log", "metrics compared to the printed precision"),
 "C17": ("fault enumeration: every truncation point and structural mutations of every file kind, loaded under sanitizers", "all prefixes of sampled files; failure must be reported before any selection"),
 "C18": ("configuration monitor: behaviour under generated model strings and environments versus reference; MPI part for modes", "rejections judged by process end, acceptance by behaviour"),
 "C19": ("monitor on every value returned by the Kokkos connector against the declaration; exploration-coverage checker", "driver plays the Kokkos runtime"),
 "C20": ("offline checker of the Kokkos connector's datasets, models, fences and selections over successive runs against a reference table", "virtual clock, driver plays the Kokkos runtime"),
 "C21": ("differential monitor: JIT build versus interpreting build on the same scripts, concurrent processes with delayed compiler", "thresholds +-1 ulp of every trained tree probed"),
 "C22": ("AddressSanitizer, UBSan, libstdc++ assertions and Valgrind memcheck over fuzzed conforming sequences and all other workloads", "uninitialised values by memcheck samples only"),
 "C23": ("differential monitor: predictors trained on the same measurements after different orders, histories, processes, ranks, entropy and clocks", "compared on training points, thresholds and random vectors"),
 "C24": ("trace-specification checker of DatasetMap and Optimal selections against their files; process-end monitor", "dataset files written by the library and independently"),
 "C25": ("offline checker of the drawings against the stored models (graphviz as reader); recorder of the programs the exhaustive runner starts, with injected failures", "scripts run with the system python3 and PyYAML"),
 "C26": ("monitor of every returned identifier against the driver's own unwinding of the stack at the same place", "walk distances within the stack; gcc frames of an unsanitized build"),
}
checks = [dict(property=p, quick_cmd="VERIF_TIER=quick ./check " + p, thorough_cmd="VERIF_TIER=thorough ./check " + p,
               technique="runtime monitoring: " + t, level="fault_enumeration" if p == "C17" else "exploration",
               level_note="Holds on every execution observed (counts in the evidence file); " + n + ". Trusts the compiler's sanitizers and the driver in lib/drv.")
          for p, (t, n) in sorted(T.items())]
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
         notes="No hooks in /repo: monitors observe the public API, the files written and interposed system interfaces. Every check builds the "
               "instrumented variants it needs from /repo's working tree into /verif/build. Commits in /repo are repairs only (known_findings.txt).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
