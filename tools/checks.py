"""The checks: which modules decide which property, in which build, over how many cases."""
FLAVOURS = {
    "plain": dict(cxx="g++", flags="-O1 -g -D_GLIBCXX_ASSERTIONS"),
    "asan": dict(cxx="g++", flags="-O1 -g -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -D_GLIBCXX_DEBUG", limit_as=False),
    "leak": dict(cxx="g++", flags="-O1 -g -DMON_LEAK"),
    "count": dict(cxx="g++", flags="-O1 -g -DMON_COUNT", libflags="-fsanitize-coverage=trace-pc"),
    "python": dict(cxx="g++", flags="-O1 -g -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all", target="python"),
    "pyleak": dict(cxx="g++", flags="-O1 -g", target="python"),
}
VALGRIND = ["valgrind", "-q", "--error-exitcode=76", "--leak-check=no", "--exit-on-first-error=yes"]


def P(module, quick, thorough, flavour="plain", **kw):
    return dict(module=module, quick=quick, thorough=thorough, flavour=flavour, **kw)


def V(module, quick, thorough):      # under valgrind: reads of uninitialised memory
    return P(module, quick, thorough, "plain", wrap=VALGRIND, limit_as=False, cpu=300, label=module + " (valgrind)")


K = 1000
M = 1000000
CHECKS = {
    "C01": dict(parts=[P("exact_linear", 2500 * K, 100 * M), P("products", 400 * K, 20 * M), P("product_window", 1, 1)],
                rule="random formula, trace, parameters, evaluation time, linear interpolation, trace covering the horizon; judged against an independent reference semantics; non-trivial: the formula has an operator and the trace several samples; distinct by formula, trace and time"),
    "C02": dict(parts=[P("exact_previous", 2500 * K, 100 * M)], rule="as C01 with piecewise-constant interpolation"),
    "C03": dict(parts=[P("bounds_sound", 2 * M, 80 * M)], rule="random formula and trace that does not cover the horizon, both interpolations; judged against the exact range over all completions"),
    "C04": dict(parts=[P("bounds_refine", M, 40 * M)], rule="random formula; the bounds are recorded after every sample of a growing trace; judged by an online nesting monitor"),
    "C05": dict(parts=[P("bounds_early", 1500 * K, 60 * M)], rule="random formula and prefix whose truth is already decided"),
    "C06": dict(parts=[P("time_rob", 900 * K, 60 * M)], rule="random formula and trace, left and right time semantics; judged against a reference that measures the distance to the change of truth value"),
    "C07": dict(parts=[P("purity", 200 * K, 10 * M)], rule="random sequence of operations on a driver and its monitors; each answer compared with that of a fresh object"),
    "C08": dict(parts=[P("values_copy", 200 * K, 10 * M)], rule="as C07 with copies, moves, assignments and destruction in between"),
    "C09": dict(parts=[P("interference", 200 * K, 10 * M)], rule="as C07 with several drivers and monitors of different semantics used alternately"),
    "C10": dict(parts=[P("params", 600 * K, 30 * M)], rule="random formula with parameters in values and interval bounds; judged against the formula with the numbers written in"),
    "C11": dict(parts=[P("admission", 1500 * K, 60 * M)], rule="random sequence of acceptable and unacceptable samples, interleaved with evaluations; judged against a model of the accepted trace"),
    "C12": dict(parts=[P("parse_fidelity", 1 * M, 40 * M)], rule="random formulas in random spellings of the language; the parsed formula is judged by its values"),
    "C13": dict(parts=[P("malformed", 800 * K, 40 * M)], rule="ill-formed and mutated texts given to a driver in use"),
    "C14": dict(parts=[P("whole_signal", 700 * K, 40 * M)], rule="random formula over an interval of evaluation times; the returned signal is judged at each sample and between them"),
    "C15": dict(parts=[P("signal_ops", 2300 * K, 110 * M), P("signal_build", 400 * K, 20 * M)], rule="random signals (also discontinuous) and operator; the result is judged pointwise; signals made sample by sample, from vectors, from parts and cut, judged against the list of samples that was given"),
    "C16": dict(parts=[P("hostile", 60 * K, 6 * M, "asan"), P("exact_linear", 20 * K, 2 * M, "asan"), P("exact_previous", 12 * K, M, "asan"), P("bounds_sound", 20 * K, 2 * M, "asan"), P("time_rob", 2 * K, 200 * K, "asan"),
                       P("values_copy", 3 * K, 300 * K, "asan"), P("whole_signal", 4 * K, 400 * K, "asan"), P("signal_ops", 40 * K, 4 * M, "asan"), P("signal_build", 10 * K, M, "asan"), P("parse_fidelity", 8 * K, 800 * K, "asan"), P("malformed", 10 * K, M, "asan"),
                       P("trace_files", 4 * K, 400 * K, "asan"), P("dumps", 3 * K, 300 * K, "asan"), P("spec_tests", 3 * K, 300 * K, "asan"),
                       V("hostile", 4 * K, 100 * K), V("exact_linear", 1600, 40 * K), V("signal_ops", 1600, 40 * K), V("spec_tests", 400, 10 * K), V("trace_files", 1000, 20 * K), V("parse_fidelity", 800, 20 * K), V("whole_signal", 400, 20 * K)],
                rule="random sequences of calls on every part of the interface, well-formed and hostile (NaN, infinities, huge numbers, random bytes, rows of the wrong length), and the workloads of the other checks, under address and undefined-behaviour sanitizers with a checking standard library, and under valgrind"),
    "C17": dict(parts=[P("leaks", 40 * K, 4 * M, "leak"), P("growth", 60 * K, 4 * M, "leak"), dict(script="pycheck", mode="leak", flavour="pyleak", quick=1600, thorough=100000, module="python_leaks")],
                rule="random sequences of calls, run again and again with every allocation counted; repeated operations on one object; scenarios through the Python binding with allocated bytes measured"),
    "C18": dict(parts=[P("trace_files", 500 * K, 20 * M), P("dumps", 300 * K, 12 * M)], rule="random traces written and read back; hand-written trace files; dumped satisfaction signals read back"),
    "C19": dict(parts=[dict(script="pycheck", mode="all", flavour="python", quick=6000, thorough=400000, module="python")],
                rule="random sequences of calls recorded on the C++ objects and performed again through the Python binding"),
    "C20": dict(parts=[P("spec_tests", 150 * K, 8 * M)], rule="random specification files with test blocks, run over random traces; reports, logs, counters and verdicts judged against the reference semantics"),
    "C22": dict(parts=[P("printing", 250 * K, 10 * M)], rule="random formulas printed by every route and read back by a second driver, before and after parameter changes; names and values shown compared with a model"),
    "C21": dict(parts=[P("work", 45 * K, 2 * M, "count")], rule="executed basic-block edges counted while the size of trace, formula or text grows geometrically"),
}
