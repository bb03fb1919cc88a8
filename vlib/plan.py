"""Which engines decide which property, and with how much time (seconds)."""
BINS = ("run", "ops", "spec", "sync", "bench", "proc")


def job(engine, quick, thorough, **kw):
    return dict(engine=engine, quick=quick, thorough=thorough, **kw)


PLAN = {
    "C01": [job("run", 120, 400), job("ops", 120, 300)],
    "C02": [job("run", 180, 600), job("sync", 60, 300)],
    "C03": [job("run", 180, 600), job("cli", 30, 300), job("sync", 60, 300)],
    "C04": [job("run", 180, 600), job("cli", 120, 400), job("sync", 60, 300)],
    "C05": [job("run", 180, 600), job("cli", 30, 300), job("sync", 60, 300)],
    "C06": [job("run", 180, 600), job("cli", 120, 400), job("sync", 60, 300)],
    "C07": [job("proc", 120, 600), job("cli", 150, 900)],
    "C08": [job("run", 180, 600), job("cli", 30, 300)],
    "C09": [job("run", 60, 300, processes=2), job("cli", 150, 400), job("sync", 60, 300)],
    "C10": [job("spec", 90, 600), job("cli", 40, 120)],
    "C11": [job("spec", 60, 600), job("cli", 20, 60)],
    "C12": [job("ops", 150, 600)],
    "C13": [job("ops", 150, 600)],
    "C14": [job("run", 180, 600), job("cli", 30, 300), job("sync", 90, 300)],
    "C15": [job("run", 120, 400), job("ops", 120, 300), job("cli", 120, 300), job("sync", 60, 300)],
    "C16": [job("cli", 240, 600)],
    "C17": [job("ops", 60, 400), job("bench", 60, 300)],
}

COMMON_ASSUMPTIONS = [
    "the code under test is compiled from /repo's working tree with rustc's dev profile (overflow and debug assertions on)",
    "rand and tokio are the pinned versions with an inert-by-default hook in front of StdRng/Bernoulli/UniformInt and of the start branch of select!",
    "values outside the stated alphabets and runs beyond the stated bounds are not covered",
]
_RUN = "evaluations complete at the checker's command between polls of the run; the memory model below an await point is not explored"
_CLI = "child processes are ours (vchild) and act only on command; what the kernel does between two events of one process is not enumerated"
_OPS = "random draws are owned at the level of Bernoulli, uniform integers and raw 64-bit words (raw words on a grid)"
ASSUMPTIONS = {
    "C01": [_RUN, _OPS],
    "C02": [_RUN],
    "C03": [_RUN, _CLI],
    "C04": [_RUN, _CLI, "a time limit is observed through the real clock: never early; late only by less than 40 s"],
    "C05": [_RUN, _CLI],
    "C06": [_RUN, _CLI],
    "C07": [_CLI, "in real time an evaluation counts as in time when it ends within two thirds of its limit; in virtual time (tokio's paused clock) up to two milliseconds before it"],
    "C08": [_RUN],
    "C09": [_RUN, "equality is judged between runs on this machine and build"],
    "C10": ["the reference parser starts from serde_yaml's value tree: YAML syntax itself is not re-implemented"],
    "C11": ["the reference validator starts from serde_json's value tree: JSON syntax itself is not re-implemented"],
    "C12": [_OPS],
    "C13": [_OPS],
    "C14": [_RUN, _CLI],
    "C15": [_RUN, _CLI, "a run that takes no step for 30 s of processor time (120 s on the clock) is taken to hang"],
    "C16": [_CLI],
    "C17": [_OPS, "the battery's budgets are the property's 'stated' ones as fixed in bench.rs"],
}
_SE = "stateless exploration of the real code: "
TECHNIQUE = {
    "C01": _SE + "all schedules and outcomes of bounded runs, all single random-choice deviations, and operator choice trees, against a reference conformance model",
    "C02": _SE + "all schedules, values and orders of bounded runs and families past the population cap, against a reference best-seen model",
    "C03": _SE + "all budgets x concurrency x orders x outcomes within bounds, counted by a reference model; replayed on the threaded entry point and the CLI",
    "C04": _SE + "a stop request or target hit at every point of bounded runs, every in-flight set, every ending order; replayed on threads, signals and timers",
    "C05": _SE + "in-flight count judged in every state of all bounded schedules; replayed on threads and processes",
    "C06": _SE + "fault enumeration, every failure kind at every point of bounded runs; replayed on threads and child processes",
    "C07": _SE + "cause of end x group shape x position on the real CLI with explorer-controlled processes, death seen as socket end-of-file; all orders of ends, limits and stops of real processes under a clock the explorer moves",
    "C08": _SE + "identity, seeds and sampling judged in every state of all bounded schedules and long re-evaluation families",
    "C09": _SE + "every explored execution repeated in the same process, in another process and at another pace, traces compared",
    "C10": "bounded-exhaustive enumeration of documents against a reference parser and resolver",
    "C11": "bounded-exhaustive enumeration of values, single damages and JSON documents against a reference codec, and runs started from them",
    "C12": "exhaustive exploration of the choice tree of recombination (owned randomness) against a provenance oracle by position",
    "C13": "exhaustive exploration of the choice tree of mutation and of operator programs (owned randomness) against a locality oracle",
    "C14": _SE + "all schedules of bounded runs, records, counts and files compared with a reference log after each",
    "C15": _SE + "extreme values, outputs, streams and durations enumerated with logging on and off; no panic, no hang, same trace",
    "C16": _SE + "the CLI protocol over enumerated options, arguments, answers and directory states",
    "C17": "exact outcome probabilities from weighted choice trees, exhaustive reachability, and an enumerated battery of deterministic runs",
}
_B = " Nothing is claimed beyond the stated alphabets, bounds and deviation counts; evidence lists them per part."
NOTE = {
    "C01": "Complete for budgets 0-4 x concurrency 1-3 x {low, high, reject} x all orders; beyond that long families, every spec of the catalogue, and choice trees up to one or two deviations from five baselines." + _B,
    "C02": "Complete for the small runs; the minimum at every position of runs past the population cap in four shapes and three orders; sample sizes 1, 2, 3, 5." + _B,
    "C03": "Complete for N 0-5 x concurrency 1-4; families up to concurrency 1025, N past 2^16 and N up to 2^64-1." + _B,
    "C04": "A stop at every point of the bounded runs, alone or in one batch with completions, three abort answers; CLI part by real signals and timers." + _B,
    "C05": "Judged in every state of all bounded schedules, families up to concurrency 1025, processes and threads." + _B,
    "C06": "Every failure kind at every index of the bounded runs with anything in flight; all exit codes and signals on the CLI." + _B,
    "C07": "All causes x group shapes x positions within the stated sizes on the real CLI; crowds of processes and series of time limits; limits from 5 ms to 2.8 years in virtual time." + _B,
    "C08": "Judged in every state of the bounded schedules and of re-evaluation families past the population sizes 20 and 100." + _B,
    "C09": "Every bounded schedule twice in one process, once more in a second process, and CLI runs repeated at another pace." + _B,
    "C10": "All attribute combinations over small alphabets, all single and double rule violations, all scopings of small trees, all short texts over YAML tokens; two resource findings are listed." + _B,
    "C11": "Catalogue of specs and values, every single damage, all JSON documents to depth two over an alphabet; one finding (inexact number parser) is listed." + _B,
    "C12": "All tuples of up to three parents of the samples, larger populations by families; choice trees complete or by deviations." + _B,
    "C13": "Choice trees complete for small specs, by deviations for nested ones; chains with one path context." + _B,
    "C14": "All bounded schedules; files byte by byte on the threaded entry point and the CLI." + _B,
    "C15": "Values to 1e300 and their differences, steep drifts of the adaptive parameters, all byte patterns of the alphabets." + _B,
    "C16": "Option and argument alphabets to length three, all directory states x force x outcome." + _B,
    "C17": "Ranks 1..n at nine pressures exactly; battery x guesses x concurrency x fair orders; thresholds far from what the current tree needs." + _B,
}
NA = {}
COMMON_NOTE = "Every execution of the stated bounded space is run on the real code and judged by a reference model." + _B
