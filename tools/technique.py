"""Per property: (technique, level note) for MANIFEST.json."""
N = "No violation in the executions driven; inputs, schedules and layouts that were not driven are not covered. "
TECHNIQUE = {
 "C01": ("online monitor of the emitted cycles (simple-cycle walk, GF(2) rank) over bounded-exhaustive and generated graphs with perturbed heap layouts", N + "All labelled graphs up to 5 (quick) / 6 (thorough) vertices are driven, one weighting each."),
 "C02": ("runtime oracle: return value, emitted weight and sorted weight vector against an independent exact minimum cycle basis", N + "The oracle (unpruned de Pina in integers) is itself cross-checked against matroid greedy over all simple cycles on small graphs."),
 "C03": ("controlled-scheduler runs of the real TBB code (random splits, orders, partial-reduction seeds) with result oracle, plus ThreadSanitizer on real threads", N + "The schedules are sampled; distinct schedules seen are counted in the evidence."),
 "C04": ("real mpiexec runs over several rank counts with per-rank heap perturbation, injected delays and a hang watchdog; result oracle on rank 0, silence on other ranks", N + "Rank counts driven are listed in the evidence."),
 "C05": ("online monitor of emitted cycles dereferenced through the caller's maps after return", N),
 "C06": ("runtime oracle: weight against (2k-1) times an independent exact optimum, k=0 rejection observed at the output iterator", N),
 "C07": ("AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, ThreadSanitizer, valgrind memcheck and libstdc++ debug mode over every entry point (sequential, TBB, MPI, concurrent callers), with lifetime-checked maps and int weights at the limit of the type", N + "Sanitizers see executed paths only."),
 "C08": ("metamorphic monitor over return values of all exact variants and backends on a graph and its transforms", N),
 "C09": ("runtime oracle in exact fixed-point arithmetic over graphs with inexact decimal weights", N),
 "C10": ("generated DIMACS texts read by the real reader and compared field by field; validators against brute force", N),
 "C11": ("black-box monitor of the real demo executables: exit status, diagnostics, termination, printed weight", N),
 "C12": ("runtime oracle on SPTree contents for all sources: exact distances, tree shape, reversal and sub-path consistency", N),
 "C13": ("runtime oracle: emitted set distinct, valid and acyclic remainder", N),
 "C14": ("runtime oracle on candidate collections: genuine cycles, true weights, nesting, greedy optimum", N),
 "C15": ("monitor in the place of the exact phase (a template parameter) that records the spanner it is given and traces every edge to the output: subgraph, weights, partition, light hop-bounded detours, girth", N),
 "C16": ("runtime oracle: bijection and spanning forest against union-find", N),
 "C17": ("model-based operation histories against a dense bit vector", N),
 "C18": ("model-based runs against wide-integer arithmetic, under UBSan", N),
 "C19": ("observed compiler and linker outcomes of generated one-header and multi-unit programs", "Every public header is enumerated with the compiler and configurations installed here (gcc, clang; with and without TBB/MPI); other toolchains are not covered."),
 "C20": ("runtime monitor of global_control active value and of the threads executing library tasks, in-process and inside the demos", N),
}
