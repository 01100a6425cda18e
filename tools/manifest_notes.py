DEFAULT_TECH = "runtime monitoring: randomized and noise-perturbed executions judged by an online oracle"
DEFAULT_NOTE = ("Holds on every execution observed (random inputs, options, worker counts and perturbed schedules); nothing is claimed about inputs and schedules not driven.")
CLI = "runtime monitoring: the real command run on generated corpora, half of the runs with yields and sleeps injected at every atomic operation; "
PY = "runtime monitoring: the real scripts run as processes on generated shards, in any mapper order and number of jobs; "
ES = "runtime monitoring: histories of real client calls against an in-memory server that executes and logs the requests; "
TECH = {
    "P01": CLI + "exact multiset of windows from an independent tokenizer as oracle",
    "P02": CLI + "crowded tables; bounds and the omission rule checked against exact counts",
    "P03": CLI + "exact counts as oracle, bounds in crowded tables, statistics of the keep probability",
    "P04": CLI + "naive positional count over independently tokenized texts as oracle",
    "P05": CLI + "matches of an independent regex run over the raw lines as oracle, location by location",
    "P06": CLI + "independent recount of records, bytes and tokens as oracle",
    "P07": CLI + "analytic confidence interval of the collision process around the true number; metamorphic monotonicity",
    "P08": "runtime monitoring: recorded concurrent histories of the counter checked offline for interval, conservation and saturation conditions; injected delays at atomics, ThreadSanitizer, and Miri in the thorough tier",
    "P09": "runtime monitoring: random operation sequences on the collection, every step judged against a naive model; Miri in the thorough tier",
    "P10": "runtime monitoring: random and small exhaustive token sequences against slices as model; sums of windows over real runs; Miri in the thorough tier",
    "P11": "runtime monitoring: random and adversarial Unicode strings against an independent segmentation; agreement between the commands",
    "P12": "runtime monitoring with fault injection: random streams, truncations and bit flips at chosen and random places, against an independent inflater; Miri in the thorough tier",
    "P13": CLI + "one defect of each kind planted at any place; exit status, standard output and output file observed",
    "P14": "runtime monitoring with fault injection: chosen open/read calls fail with chosen errors through an LD_PRELOAD layer that logs them; results compared to the fault-free oracle",
    "P15": CLI + "output files compared byte for byte before and after",
    "P16": CLI + "generated directory trees and limits, selected set recomputed naively",
    "P17": CLI + "the same data under different shardings, worker counts and schedules must give equal answers",
    "P18": "runtime monitoring: hostile corpora and options under ThreadSanitizer, injected delays and injected read errors; crashes, sanitizer reports, races and deadlocks (by thread states) are violations",
    "P19": CLI + "token sequences of an independent use of the tokenizer as oracle",
    "P20": CLI + "every kind of invalid request; exit status and the whole scratch tree observed",
    "P21": PY + "exact counts recomputed from the records",
    "P22": PY + "sums recomputed from the records; deterministic stand-ins for models",
    "P23": PY + "per-match verdicts recomputed at each match's own position",
    "P24": PY + "delays injected at every executed line of the worker processes; kept and removed documents compared as multisets over all shards",
    "P25": PY + "set and multiset model of all combinations",
    "P26": PY + "parts concatenated and compared to the inputs",
    "P27": ES + "answers judged by direct evaluation over the documents",
    "P28": ES + "live index changed between pages; exactly-once, order and snapshot use judged over the history",
    "P29": ES + "counts by direct evaluation, requests counted from the log",
    "P30": ES + "sums over the shards by direct evaluation",
    "P31": "runtime monitoring with fault injection: the process ends at a chosen executed line (any thread), or the download fails, and is run again; files compared to the dataset",
    "P32": "runtime monitoring with fault injection: the script run against an in-memory server that rejects chosen documents, repeated; index, id list and draws compared to the files",
    "P33": PY + "exact extremes, and tests of the sampling distribution at error probabilities below 1e-11",
    "P34": PY + "labels recomputed naively; deterministic stand-in for the model",
    "P35": "runtime monitoring with fault injection: interrupted at every output in turn and run again against a stand-in for the storage",
    "P36": PY + "means recomputed exactly; deterministic stand-in for the sentiment model",
    "P38": "runtime monitoring with fault injection: interrupted at uploads and run again, forked workers in any order, against stand-ins for storage and record files; all outputs compared to all inputs",
    "P39": "runtime monitoring with fault injection: interrupts, lost connections, and the process ended at executed lines; files compared to the tables",
    "P40": PY + "a local server that answers with every kind of status, redirect and broken connection",
    "P41": "runtime monitoring: random sequences of changes against a model, compared in memory and on disk",
    "P42": PY + "lines recomputed from the records",
    "P37": PY + "distributions recomputed exactly",
}
NOTE = {}
