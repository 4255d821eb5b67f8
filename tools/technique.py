G = "Searches generated cases only; no proof. "
TECHNIQUE = {
 "C01": ("property-based round-trip and differential testing against an independent .npy parser", G + "Trusts the 110-line reference parser/writer in harness/npy_ref.hpp and a little-endian host."),
 "C02": ("property-based differential testing against numpy and an independent .npy writer", G + "Trusts numpy (if installed; otherwise only the independent writer runs)."),
 "C03": ("structure-aware mutation fuzzing with a strict reference parser as oracle, under ASan/UBSan, plus coverage-guided libFuzzer with the same oracle (15 s quick, 600 s thorough)", G + "Memory errors are those ASan/UBSan see; inputs up to a few hundred bytes (fuzzer: 4 kB)."),
 "C04": ("stateful property-based testing against a permutation model, plus statistical uniformity", G + "Uniformity is a fixed-seed frequency test with a 6-sigma style threshold."),
 "C05": ("property-based testing of validity invariants under ASan/UBSan", G + "Priors bounded to where the number type can represent the updates."),
 "C06": ("property-based differential testing against long double references of the update equations", G + "Trusts the reference equations in harness/estep.cpp, written from the papers/docs."),
 "C07": ("property-based differential testing against a reference bound and exhaustive enumeration of small evidences", G + "Trusts the reference bound; fractions are tested statistically; for the multinomial and correspondence method only differences of reports are judged."),
 "C08": ("stateful property-based testing against a reference accumulator", G + "Histories of up to 15 passes of up to 400 documents."),
 "C09": ("stateful property-based testing against reference objectives and counts", G + "Objective compared within rounding tolerance."),
 "C10": ("property-based differential testing against long double formulas and finite differences", G + "Trusts the reference formulas in harness/math.cpp."),
 "C11": ("property-based testing of the line-search contract on generated problems", G + "Trusts the replayed Armijo rule."),
 "C12": ("metamorphic and differential testing under harness-controlled schedules, ThreadSanitizer", G + "Schedules explored: controlled completion orders and OS scheduling; up to 2000 documents."),
 "C13": ("stateful testing with recording steps under harness-controlled completion orders, ThreadSanitizer", G + "Up to 3000 documents, 60 workers, 120 epochs. One known data race of the online step is listed in known_findings.json."),
 "C14": ("model-based stateful testing of dispatcher histories, multi-threaded histories, ThreadSanitizer", G + "OS scheduling for the multi-threaded part; bursts of up to 6000 events, 80 listeners."),
 "C15": ("differential testing against the underlying steps", G + "Compares with the library's own unsupervised/supervised steps."),
 "C16": ("differential testing of generated builder call sequences against hand-assembled trainers", G + "Trusts the documented defaults table in harness/builder.cpp."),
 "C17": ("property-based differential testing against libm and long double references", G + "Accuracy bounds as stated in the property."),
 "C18": ("differential testing of the console applications against the library, generated option sets, data and faults", G + "Applications run as processes built with ASan/UBSan from /repo; number of threads counted, command lines outside the usage included."),
 "C19": ("model-based testing of snapshot/continue histories of the console applications", G + "Interruption is modelled at epoch boundaries (snapshots)."),
 "C20": ("stateful property-based testing against a long double reference of the minibatch updates", G + "Histories of up to 600 documents and pass ends, minibatches up to 200."),
 "C21": ("metamorphic testing with permutations", G + "Tolerances allow for rounding only; cases in which one rounding error changes a line-search decision are discarded."),
 "C22": ("metamorphic testing of interleaved and concurrent trainer histories against the same histories run alone, ThreadSanitizer", G + "Bit equality with one worker; concurrency under OS scheduling; memory contents varied with M_PERTURB."),
}
