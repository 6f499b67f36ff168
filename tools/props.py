"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, technique):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, note=note, technique=technique))


IEEE = "src/backends/interflop-backend-ieee/interflop_ieee.c"
MCA = "src/backends/interflop-backend-mcaquad/interflop_mca.c"
MCAI = "src/backends/interflop-backend-mcaint/interflop_mca_int.c"
BM = "src/backends/interflop-backend-bitmask/interflop_bitmask.c"
CA = "src/backends/interflop-backend-cancellation/interflop_cancellation.c"
VP = "src/backends/interflop-backend-vprec/interflop_vprec.c"
VPT = "src/backends/interflop-backend-vprec/common/vprec_tools.c"
VFI = "src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c"
WR = "src/vfcwrapper/main.c.in"
FI = "src/vfcwrapper/funcinstr.c"
RNG = "src/interflop-stdlib/rng/vfc_rng.c"
FU = "src/interflop-stdlib/common/float_utils.h"
FMA = "src/interflop-stdlib/fma/interflop_fma.c"
OPT = "src/interflop-stdlib/common/options.h"
PASS = "src/libvfcinstrument/libVFCInstrument.cpp"
FPASS = "src/libvfcfuncinstrument/libVFCFuncInstrument.cpp"
DRV = "verificarlo.in.in"

PBT = "property-based testing: "

prop("C01", "The IEEE back-end is numerically transparent",
     "Under the IEEE back-end every instrumented addition, subtraction, multiplication, division, fused multiply-add, "
     "double-to-float conversion and comparison (all ordered and unordered predicates), scalar or vector, in single or "
     "double precision, returns exactly what IEEE-754 arithmetic returns for these operands. This holds for every operand, "
     "including zeros of both signs, sub-normals, infinities and NaNs, and whatever display or counting options are set.",
     ["inputs", "configurations"], "all operand bit patterns, all operations and predicates, all IEEE back-end options",
     "The tests compare a few dozen operand pairs, never the unordered predicates, ties, sub-normals or all vector widths.",
     [IEEE, WR, FMA], [("IEEE operations", IEEE), ("scalar and vector entry points", WR)],
     ["results of the instrumentation entry points"],
     "about 1.2 million generated operations against exact rational arithmetic in software",
     PBT + "generated operands and options, exact software reference")

prop("C02", "Configurations that ask for no perturbation are exact",
     "A back-end configured so that no perturbation is requested (ieee mode of any back-end whatever its other options, "
     "simulated formats equal to the native ones, a bit mask that keeps every bit, the cancellation detector on operations "
     "other than addition and subtraction) returns exactly the IEEE-754 result of every operation, fused multiply-add and "
     "double-to-float conversion.",
     ["inputs", "configurations"], "all operands x every configuration without perturbation of every back-end",
     "The tests exercise ieee modes with a handful of values; double rounding or an option leaking into ieee mode is invisible to them.",
     [MCA, MCAI, BM, VP, CA, FMA], [("mode tests before noise", MCA), ("rounding helpers", VPT)],
     ["results of the instrumentation entry points"],
     "about 1.2 million generated operations; VPREC casts that underflow to zero are judged up to the sign of zero and the last tie",
     PBT + "generated configurations and operands, exact software reference")

prop("C05", "MCA noise stays within the bounds of the chosen model",
     "Under the MCA back-end, for every mode (random rounding, precision bounding, full MCA), virtual precision t and error mode, "
     "the result of an operation differs from the exact result by no more than the noise model allows: half of 2^(e-t+1) for each "
     "perturbed value of exponent e, plus half of 2^E for an absolute error of exponent E, plus the final rounding. Results that fit "
     "on t bits are returned exactly in random rounding mode, and NaN, infinite and zero results are those of IEEE arithmetic.",
     ["inputs", "configurations", "histories"], "all operands, operations, modes, precisions, error modes, exponents and seeds",
     "The tests look at averages over samples of a few programs; one operand class (carry into the next binade, sub-normals, huge exponents) with wrong noise goes unseen.",
     [MCA, FU, RNG], [("noise added to operands and results", MCA), ("representability test", FU)],
     ["results of the instrumentation entry points"],
     "about 0.7 million generated operations against an exact interval model",
     PBT + "generated operands/configurations/seeds, interval reference model")

prop("C06", "Integer MCA noise stays within the bounds of the model",
     "Under the integer MCA back-end, in each mode, the result of an operation differs from the exact result by no more than one "
     "unit of noise of the native precision per perturbed value allows (half a unit in the last place per perturbed value, twice that above a "
     "power of two), plus the final rounding; exact results are returned exactly in random rounding mode and NaN, infinite and zero results "
     "are those of IEEE arithmetic.",
     ["inputs", "configurations", "histories"], "all operands, operations, modes and seeds",
     "The tests check statistics of a few programs only.",
     [MCAI, FU, RNG], [("noise added on the integer representation", MCAI)],
     ["results of the instrumentation entry points"],
     "about 0.7 million generated operations against an exact interval model",
     PBT + "generated operands/configurations/seeds, interval reference model")

prop("C07", "Noise is uniform, centred and independent",
     "For any operation and operands the noises drawn by the MCA, integer MCA and cancellation back-ends over repeated executions follow the "
     "documented law: uniform and centred over the noise interval, so that random rounding at native precision rounds up with a probability "
     "equal to the fraction that is lost (stochastic rounding). Successive noises are uncorrelated.",
     ["inputs", "configurations", "histories"], "all operations, operands in the interior of binades, modes, precisions, seeds",
     "The tests compare empirical error of three operations with a loose tolerance; a bias or a truncated range at one precision or operation passes.",
     [MCA, MCAI, CA, RNG], [("uniform draw in (0,1)", RNG), ("scaling of the noise", MCA)],
     ["empirical distribution of results over 2000 executions of the same operation"],
     "1500 samples of 2000 executions, Kolmogorov-Smirnov/binomial/auto-correlation with false-alarm probability below 1e-10 each and fixed seeds",
     PBT + "generated operations and configurations, distributional oracle at fixed seeds")

prop("C09", "Fixed seeds reproduce runs; threads have private noise streams",
     "With a fixed seed, running the same program again gives bit-identical results under every stochastic back-end; the results of a thread "
     "depend only on the seed, the order in which threads started drawing noise and the thread's own operations, never on how threads interleave. "
     "Different threads, different seeds and runs without a seed receive different noise.",
     ["schedules", "histories", "configurations"], "all programs of several threads, interleavings, seeds and stochastic back-ends",
     "The tests rerun one single-threaded program with one seed; interleavings are not explored at all.",
     [RNG, MCA, MCAI, BM, CA], [("per-thread generator state", RNG), ("thread numbering", RNG)],
     ["results per thread of the same per-thread programs under generated interleavings"],
     "about 900 generated multi-threaded programs; interleavings owned by the harness plus truly concurrent runs",
     PBT + "stateful generation of multi-threaded histories with a controlled scheduler, metamorphic oracle")

prop("C10", "Sparsity perturbs the requested fraction of operations",
     "With sparsity s below 1 each operation is perturbed with probability s independently of the others, and an operation that is not perturbed returns "
     "its unperturbed result; sparsity 1 (the default) perturbs every inexact operation.",
     ["inputs", "configurations"], "all sparsity values, operations, modes and seeds of the MCA back-ends",
     "One test checks one value of sparsity on one program.",
     [MCA, MCAI, OPT], [("skip decision before the noise", OPT)],
     ["fraction of perturbed results over 3000 executions"],
     "600 samples of 3000 executions, binomial and auto-correlation bounds at 7 sigma",
     PBT + "generated configurations, binomial oracle at fixed seeds")

prop("C11", "Denormal flushing options act on denormals only",
     "With denormals-are-zero, an MCA, integer MCA or bitmask back-end behaves exactly as if sub-normal operands had been replaced by zero, in every mode and for every operation "
     "including conversions; with flush-to-zero it never returns a sub-normal result and leaves all other results unchanged.",
     ["inputs", "configurations"], "all operands and operations, modes, precisions, seeds and combinations of the two flags",
     "One test uses a few denormal values with two operations.",
     [MCA, MCAI, BM, FU], [("operand and result flushing", FU)],
     ["same seeded run with and without the flags"],
     "about 0.7 million generated operations, exact metamorphic comparison; the sign of a flushed zero is left open",
     PBT + "metamorphic relation between seeded runs with and without the flags")

prop("C12", "Bitmask changes exactly the bits below the virtual precision",
     "Under the bitmask back-end with virtual precision t, the bits of weight below the t most significant bits of a value are cleared, set or randomly flipped "
     "according to the operator, all other bits and the special values are untouched; operands are masked in input mode, results in output mode, both in full mode, "
     "and output mode leaves a normal result that fits on t bits unchanged. A conversion to single is masked at the double precision. Random masks flip each concerned bit with probability one half.",
     ["inputs", "configurations"], "all operands, arithmetic operations, modes, operators, precisions",
     "The tests check a few precisions on one operation.",
     [BM, FU], [("mask construction, also for sub-normals", BM)],
     ["bit patterns of results"],
     "about 1.1 million generated operations against a bit-exact model",
     PBT + "generated operands/configurations, bit-exact reference model and bit frequencies")

prop("C13", "Cancellations are detected and perturbed at the right scale",
     "Under the cancellation back-end an addition or subtraction that cancels fewer bits than the tolerance returns its exact IEEE result, and one that cancels c bits, "
     "c at least the tolerance, returns that result plus a random noise of magnitude below 2^(e-c) for a result of exponent e. Other operations are never perturbed, and "
     "requested warnings report exactly the detected cancellations with their sizes.",
     ["inputs", "configurations"], "all operands, tolerances and seeds",
     "One test checks one subtraction series; full cancellations, sub-normals and tolerance boundaries are not reached.",
     [CA, RNG], [("detection and noise", CA)],
     ["results and warnings"],
     "about 1.1 million generated operations; exact comparison and bounded noise; variation required over 8 repetitions",
     PBT + "generated operands with a chosen number of cancelled bits, reference model")

prop("C14", "VPREC rounds correctly to the simulated format",
     "In output mode, VPREC returns the result of the operation rounded to nearest, ties to even, in the simulated format with the chosen number of exponent and mantissa bits, "
     "with gradual underflow and overflow to infinity at the format's limits. NaN and infinities pass unchanged.",
     ["inputs", "configurations"], "all (range >= 2, precision >= 1) pairs of both types, all operations and operands",
     "The tests sample a few formats with random inputs that rarely meet a tie, a carry at the overflow threshold or a sub-normal of the simulated format.",
     [VP, VPT], [("rounding of normals and denormals", VPT), ("overflow/underflow decisions", VP)],
     ["bit patterns of results"],
     "about 1.4 million generated operations against exact rational rounding; sign of zero on underflow and the tie at half of the smallest sub-normal are left open",
     PBT + "generated formats and operands at their boundaries, exact reference model")

prop("C15", "VPREC modes, presets, flags and casts select the right rounding",
     "VPREC rounds operands in input mode, results in output mode and both in full mode, to the format of the operation's type as selected by presets and explicit options "
     "(later options win), vectors lane by lane; denormals-are-zero flushes operands and flush-to-zero results that are denormal in the simulated format, to a zero of the same sign. Double-to-float conversions round once to the simulated single format "
     "(in input mode, to the simulated double format limited to single).",
     ["inputs", "configurations"], "all modes, presets, option orders, flags, operations and operands",
     "The tests use fixed modes with default flags and check two presets.",
     [VP, VPT], [("mode selection", VP), ("preset table", VP)],
     ["bit patterns of results"],
     "about 1 million generated operations against the reference model",
     PBT + "generated configurations and operands, exact reference model")

prop("C16", "VPREC absolute error modes round on the absolute grid",
     "With an absolute error exponent E, VPREC results are the nearest multiples of 2^E (absolute mode), or of 2^E and of the last place of the simulated format (combined mode), "
     "whichever is coarser, for normal and denormal values of the simulated format; values beyond its range are infinite.",
     ["inputs", "configurations"], "all formats, error exponents, operations and operands",
     "One test checks a few exponents with normal values of the default format.",
     [VP, VPT], [("absolute error handling", VP)],
     ["bit patterns of results"],
     "about 1 million generated operations; ties and zero signs are left open; overflow binade not judged",
     PBT + "generated configurations and operands near the threshold, grid-distance oracle")

prop("C20", "Run-time calls take effect immediately and on every back-end",
     "After a program sets the precision or range of a type at run time, every following operation of that type behaves as if the back-end had been configured with this value, and no other setting changes; the "
     "inexact call perturbs the given value with the given precision (or relative to the current one) and nothing else. Calls reach every loaded back-end that supports them and unknown calls change nothing.",
     ["histories", "configurations"], "all histories of operations and calls on all chains of back-ends",
     "Two tests perform two or three calls in a fixed order on one back-end.",
     [WR, MCA, VP], [("call dispatch", WR), ("setters", VP)],
     ["results of operations after each call"],
     "700 generated histories of about 900 steps with a model of the settings",
     PBT + "stateful model-based generation of call/operation histories")

prop("C27", "A vector operation is its scalar operations, lane by lane",
     "For every back-end, chain of back-ends, vector width (2, 4, 8, 16), type and operation or comparison, an instrumented vector operation gives exactly the results that the scalar operations on its lanes, in order, would give in the same seeded run.",
     ["inputs", "programs", "configurations"], "all programs mixing scalar and vector operations, all back-ends",
     "The vectorisation test checks that vector code is produced and one result per width.",
     [WR], [("vector entry points", WR)],
     ["results of a program and of its scalarised version under the same seed"],
     "800 generated programs of 500 operations, exact metamorphic comparison",
     PBT + "metamorphic relation between vector and scalarised programs")

exec(open(os.path.join(HERE, "tools", "props2.py")).read())

NOT_APPLICABLE = []
try:
    NOT_APPLICABLE = NA
except NameError:
    pass


def main():
    have = {f[:-3] for f in os.listdir(os.path.join(HERE, "checks")) if f.endswith(".py")}
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks = []
    for p in P:
        if p["id"] in have:
            checks.append({"property": p["id"], "quick_cmd": "python3-vt run.py %s quick" % p["id"],
                           "thorough_cmd": "python3-vt run.py %s thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                           "level": "exploration", "level_note": p["note"]})
    na = [n for n in NOT_APPLICABLE]
    for p in P:
        if p["id"] not in have and p["id"] not in {n["property"] for n in na}:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "python3-vt lib/vbuild.py",
         "hooks": {"guard": "none", "enable": "no hooks are needed: checks link or run the unmodified sources", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "Commands run from /verif. Each check builds what it needs from /repo's working tree into /verif/.cache "
                  "(content-addressed by the sources). Replay: python3-vt run.py <id> replay <file>."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
