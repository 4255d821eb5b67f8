"""Which sub-properties decide which property, and how many cases each tier runs."""
BINARIES = {
    "numpy": dict(),
    "math": dict(lib=True),
    "estep": dict(lib=True),
    "mstep": dict(lib=True),
    "lda": dict(lib=True),
    "events": dict(lib=True),
    "builder": dict(lib=True),
    "apps": dict(lib=True),
}
CHECKS = {
    "C01": dict(bin="numpy", subs=[dict(sub="c01_roundtrip", quick=300000, thorough=1500000, weight=3),
                                   dict(sub="c01_files", quick=60000, thorough=200000), dict(sub="c01_huge", quick=6, thorough=24, flavour="plain", serial=True, noshrink=True, weight=2)],
                rule="A case writes 1-5 records of generated type, order, shape and bits through one of the public ways of "
                     "writing, parses the bytes with an independent parser and reads them back; non-trivial: more than one "
                     "element of payload, counted by distinct choice sequences."),
    "C02": dict(bin="numpy", prep=[["gen_npy.py"]],
                subs=[dict(sub="c02_foreign", quick=700000, thorough=3000000, weight=3), dict(sub="c02_numpy_files", quick=4000, thorough=20000),
                      dict(sub="c02_huge", quick=6, thorough=24, flavour="plain", serial=True, noshrink=True, weight=2)],
                rule="A case is one record made by an independent writer following numpy's layout (or by numpy itself, sub "
                     "c02_numpy_files) read through a generated API path; non-trivial: more than one element."),
    "C03": dict(bin="numpy", subs=[dict(sub="c03_malformed", quick=1000000, thorough=8000000, weight=3), dict(sub="c03_truncations", quick=12000, thorough=40000)],
                fuzz=dict(bin="fuzz_numpy", time=600, quick_time=15, seeds="npy_seeds"),
                rule="A case is a valid record with 0-3 mutations (truncation, byte flip, insertion, deletion, shape/type/order "
                     "text, header length, prefix) or raw bytes, read as a generated type under ASan/UBSan; non-trivial: at "
                     "least one mutation or raw bytes. c03_truncations tries every truncation point of a record."),
    "C04": dict(bin="math", subs=[dict(sub="c04_history", quick=300000, thorough=2000000, weight=2), dict(sub="c04_uniform", quick=160, thorough=3000), dict(sub="c04_large", quick=40, thorough=400)],
                rule="c04_history: a corpus and a history of shuffles, reads and prior queries; non-trivial: more than one document "
                     "and at least one shuffle. c04_uniform: position counts over 4000 shuffles."),
    "C10": dict(bin="math", subs=[dict(sub="c10_first_order", quick=60000, thorough=200000), dict(sub="c10_second_order", quick=30000, thorough=100000)],
                rule="A case is a generated data set, label vector, weights, penalty and parameter matrix; non-trivial: at least two "
                     "topics, classes and documents."),
    "C11": dict(bin="math", subs=[dict(sub="c11_line_search", quick=400000, thorough=2000000), dict(sub="c11_descent", quick=150000, thorough=600000)],
                rule="A case is a generated smooth problem with a start, line search parameters and a stopping time; non-trivial: "
                     "non-zero gradient, at least one update."),
    "C17": dict(bin="math", subs=[dict(sub="c17_digamma", quick=60000, thorough=200000), dict(sub="c17_fast_exp", quick=60000, thorough=200000), dict(sub="c17_helpers", quick=200000, thorough=1000000)],
                rule="A case evaluates 50-100 generated arguments (boundaries, ulps around them, all magnitudes) or one set of "
                     "generated matrices; all cases with more than one element are non-trivial."),
    "C05": dict(bin="estep", subs=[dict(sub="c05_valid", quick=400000, thorough=3000000)],
                rule="A case is one document, model and setting for one of the five expectation steps (float or double); "
                     "non-trivial: more than one topic, more than one word and at least one iteration."),
    "C06": dict(bin="estep", subs=[dict(sub="c06_update", quick=150000, thorough=1200000, weight=2), dict(sub="c06_stop", quick=150000, thorough=1000000), dict(sub="c06_embedded", quick=60000, thorough=600000)],
                rule="c06_update: one more iteration compared with a long double reference of the update, tolerance from "
                     "admissible errors of the exponential; non-trivial: more than one topic and a non-empty document. "
                     "c06_stop: final weights compared with the iterate the rule selects; non-trivial: the tolerance stopped it. "
                     "c06_embedded: a document and the same document within a larger vocabulary; non-trivial: several topics and words."),
    "C07": dict(bin="estep", subs=[dict(sub="c07_bound", quick=400000, thorough=2000000, weight=3), dict(sub="c07_multinomial", quick=100000, thorough=1000000),
                                   dict(sub="c07_fraction", quick=2000, thorough=8000)],
                rule="c07_bound: the reported value against a long double evaluation of the bound, the exact evidence (small "
                     "cases) and the previous iterate; non-trivial: more than one topic and a repeated word. c07_fraction: "
                     "600 documents per case; non-trivial: a fraction strictly between 0 and 1. c07_multinomial: the difference of "
                     "two reports of the multinomial or correspondence method against a long double evaluation; non-trivial: "
                     "different documents or class parameters, several topics and classes."),
    "C08": dict(bin="mstep", subs=[dict(sub="c08_topics", quick=200000, thorough=2000000, weight=2), dict(sub="c08_vast", quick=60, thorough=600)],
                rule="A case is a history of 1-15 passes of 0-400 documents with generated variational parameters through one of "
                     "the six batch maximization steps; non-trivial: more than one document, topic and word."),
    "C09": dict(bin="mstep", subs=[dict(sub="c09_logistic", quick=100000, thorough=1000000, weight=2), dict(sub="c09_counts", quick=100000, thorough=1000000)],
                rule="A case is a history of passes with generated variational parameters; non-trivial: more than one document, "
                     "topic and class, and at least one update allowed."),
    "C15": dict(bin="mstep", subs=[dict(sub="c15_inference", quick=200000, thorough=1000000), dict(sub="c15_maximization", quick=100000, thorough=1000000)],
                rule="A case is a sequence of labelled and unlabelled documents; non-trivial: both kinds occur (in one pass)."),
    "C20": dict(bin="mstep", subs=[dict(sub="c20_online", quick=200000, thorough=2000000)],
                rule="A case is a sequence of documents and pass ends (mostly up to 40, at most 600) against a long double reference of the minibatch "
                     "updates; non-trivial: at least two updates."),
    "C12": dict(bin="lda", subs=[dict(sub="c12_transform", quick=20000, schedule=True, weight=2), dict(sub="c12_many", quick=16, thorough=160, schedule=True), dict(sub="c12_race", quick=1000, flavour="tsan", schedule=True)],
                rule="A case is a history of transform/decision/predict/fit calls and model changes on one trainer (matrices used again included) with generated worker count and "
                     "controlled completion order against direct inference; non-trivial: more than one topic and a call with more "
                     "than one document."),
    "C13": dict(bin="lda", subs=[dict(sub="c13_ledger", quick=12000, schedule=True), dict(sub="c13_schedule", quick=40000),
                                 dict(sub="c13_race", quick=4000, flavour="tsan", schedule=True)],
                rule="c13_ledger: a history of calls with recording steps and controlled completion orders; non-trivial: training "
                     "more than one document with more than one worker. c13_schedule: training with workers against one-by-one "
                     "training. c13_race: the same under ThreadSanitizer."),
    "C21": dict(bin="lda", subs=[dict(sub="c21_symmetry", quick=60000)],
                rule="A case trains a model and its relabelled twin; non-trivial: more than one topic, word and document."),
    "C22": dict(bin="lda", subs=[dict(sub="c22_interleaved", quick=20000), dict(sub="c22_memory", quick=20000, flavour="plain"),
                                 dict(sub="c22_threads", quick=10000, schedule=True), dict(sub="c22_race", quick=1500, flavour="tsan", schedule=True),
                                 dict(sub="c22_fresh", quick=4000)],
                rule="A case is 2-4 trainers (all methods, both number types, built by hand or by the builder) with generated histories "
                     "of calls, run interleaved or in threads of their own and again each alone; non-trivial: at least two training or transform calls. "
                     "c22_memory fills fresh memory differently in the two runs. c22_fresh repeats the last trainer in a process that has never trained anything."),
    "C14": dict(bin="events", subs=[dict(sub="c14_history", quick=400000), dict(sub="c14_threads", quick=4000, schedule=True),
                                    dict(sub="c14_training", quick=4000, schedule=True), dict(sub="c14_steps", quick=5000, schedule=True),
                                    dict(sub="c14_threads_race", quick=400, flavour="tsan", schedule=True),
                                    dict(sub="c14_training_race", quick=800, flavour="tsan", schedule=True)],
                rule="c14_history: operations on one dispatcher with re-entrant listeners against interval bookkeeping; non-trivial: "
                     "at least two deliveries. c14_threads: 1-7 dispatching threads and one processing thread; non-trivial: several "
                     "threads and events. c14_training/c14_steps: event logs of training; non-trivial: several documents and workers."),
    "C16": dict(bin="builder", subs=[dict(sub="c16_builder", quick=20000, weight=3), dict(sub="c16_init", quick=8000), dict(sub="c16_refusal", quick=30000),
                                     dict(sub="c16_workers", quick=400, schedule=True), dict(sub="c16_defaults", quick=8000)],
                rule="c16_builder: a generated sequence of builder calls against a trainer assembled by hand, comparing initial model, "
                     "events and trained model; non-trivial: more than one topic and at least one epoch. c16_init: contributions of "
                     "documents to seeded topics. c16_refusal: incomplete configurations; non-trivial: more than one call. "
                     "c16_workers: observed parallelism; non-trivial: more than one worker. c16_defaults: steps and trainers constructed directly; non-trivial: arguments left out."),
    "C18": dict(bin="apps", apps=True, subs=[dict(sub="c18_train", quick=2000, weight=3), dict(sub="c18_transform", quick=800), dict(sub="c18_failures", quick=1200), dict(sub="c18_usage", quick=600)],
                rule="A case runs one console application with generated options and data files and compares its files, exit status and "
                     "output with the library; non-trivial: more than one topic and epoch (c18_train), more than one topic and document "
                     "(c18_transform), every failure and usage case."),
    "C19": dict(bin="apps", apps=True, subs=[dict(sub="c19_snapshots", quick=800, weight=2), dict(sub="c19_roundtrip", quick=800), dict(sub="c19_continue", quick=800, weight=2)],
                rule="A case trains with snapshots or continues from a model file and compares every file with the library's model of that "
                     "epoch; non-trivial: a snapshot was taken / both trainings have epochs / several topics and words."),
}
