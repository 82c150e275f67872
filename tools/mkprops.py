#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long records stay readable)."""
import json, os
API = ["src/fnft_nsev.c", "src/fnft_nsev_inverse.c", "src/fnft_nsep.c", "src/fnft_kdvv.c", "src/fnft_manakovv.c"]
KERN = ["src/private/fnft__akns_scatter.c", "src/private/fnft__akns_fscatter.c",
        "src/private/fnft__akns_discretization.c", "src/private/fnft__manakov_fscatter.c",
        "src/private/fnft__manakov_discretization.c", "src/private/fnft__poly_fmult.c",
        "src/private/fnft__poly_chirpz.c", "src/private/fnft__poly_specfact.c",
        "src/private/fnft__poly_roots_fftgridsearch.c", "src/private/fnft__misc.c",
        "src/private/fnft__nse_finvscatter.c", "include/private/fnft__fft_wrapper.h"]
EIS = ["src/private/fnft__poly_roots_fasteigen.c", "src/3rd_party/eiscor/z_poly_roots_modified.f90"]
P = []
def p(id, title, st, over, q, why, files, mech, state=None, obs=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": st,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})

OBS = ["return codes and output arrays of the public transforms", "malloc/calloc/realloc/free seam (link-time wrap)"]

p("C01", "A transform that runs out of memory never takes the process down",
  "Whatever sequence of memory requests is refused while a transform (or one of the library's numerical building blocks) runs, the call returns to its caller with a return code. It never crashes, aborts, exits the process, hangs, or touches memory outside live blocks and the caller's arrays.",
  ["fault_sequences", "inputs", "configurations"],
  "every transform x every discretization/option/output combination x every set of refused allocation requests (single, several, all from some point on, by size or by byte budget)",
  "The tests never refuse an allocation; each call makes tens to thousands of requests and each one has its own error path that runs only then.",
  API + KERN + EIS, [("allocation result checked, jump to the cleanup label", "CHECK_NOMEM uses throughout src/"), ("freeing of everything at leave_fun / release_mem", "src/*.c, src/private/*.c")], obs=OBS)
p("C02", "Running out of memory is always reported, and success is never false",
  "If memory requests are refused during a call, the call either returns the out-of-memory error (possibly as the negative sub-routine form of that code) or succeeds with exactly the results it delivers when memory is plentiful. It never reports success with missing, partial or different results, and never blames a different cause.",
  ["fault_sequences", "inputs", "configurations"],
  "every transform and building block x options x every set of refused allocation requests",
  "No test makes an allocation fail, so a return code that is dropped or overwritten on the way up is never noticed.",
  API + KERN + EIS, [("return code propagation", "CHECK_RETCODE / E_SUBROUTINE, include/private/fnft__errwarn.h"), ("E_NOMEM", "include/private/fnft__errwarn.h")], obs=OBS)
p("C03", "Every call gives back all memory it took, on success and on every failure",
  "When a call returns, every heap block obtained during the call has been released exactly once, except blocks it hands to the caller as documented. This holds for successful calls, for calls refused because of their arguments, for calls that meet a singular or degenerate problem, and for calls in which memory requests were refused.",
  ["fault_sequences", "inputs", "histories"],
  "every transform and building block x options (valid and invalid) x degenerate data x every set of refused allocation requests",
  "The tests do not count heap blocks and take almost no failure path; a leak or a second release shows only on a path some fault selects.",
  API + KERN + EIS, [("single exit with free() of all buffers", "leave_fun / release_mem labels in src/")], obs=OBS)
p("C04", "A failed call leaves nothing behind: the same call works once memory is back",
  "After any history of calls that failed because memory ran out, arguments were refused or data were corrupted, repeating a call with plentiful memory and the same arguments returns the same code, bit-identical outputs and the same messages as in a process where nothing ever failed.",
  ["histories", "fault_sequences"],
  "every finite history of calls with refused memory requests and refused arguments, followed by each transform",
  "Needs a failure in the middle of an earlier call; the tests run each call once in a fresh, healthy process.",
  API + EIS, [("option fields toggled internally are restored", "src/fnft_nsev.c, src/fnft_kdvv.c, src/fnft_manakovv.c, src/fnft_nsep.c"), ("no state kept between calls", "src/")],
  state=[("process-wide default option records", "used when the caller passes no options", "top of src/fnft_*.c")], obs=OBS)
p("C05", "A call never modifies its inputs or the caller's options",
  "Sample arrays, time and frequency intervals, discrete-spectrum inputs and the options record passed to a transform are bit-for-bit unchanged after the call, whether it succeeds, is refused or runs out of memory, and are not modified even temporarily while it runs. The only exceptions are arguments documented as in/out (guess arrays, counts, and the inverse transform's continuous spectrum).",
  ["fault_sequences", "inputs", "schedules", "configurations"],
  "every transform x options x refused memory requests x observation points during the call",
  "Tests use each options record once in a successful call and never look at it again; a lost restore needs a failure between change and restore, and a temporary change is only visible to another thread.",
  API, [("const-qualified inputs", "include/fnft_*.h"), ("options handled as input", "src/fnft_*.c")], obs=["options and input arrays, at every instrumented write and after the call"])
p("C06", "Output goes only where documented, and short arrays are filled, not overrun",
  "A transform writes only to the documented extents of the arrays it is given: as many continuous-spectrum values as the requested type calls for, no more discrete-spectrum values than the capacity announced by the caller, and nothing to an output that was passed as absent. When more values are found than fit, the call still succeeds, warns, returns as many as fit together with their correct accompanying constants, and reports a count not above the capacity. The count announced by fnft_*_max_K is never exceeded by the count a call returns for the same sizes and options.",
  ["configurations", "inputs", "fault_sequences"],
  "every transform x spectrum types x extrapolation x localization x capacity from zero upward x absent outputs x refused memory requests",
  "The tests always pass generous arrays without guard zones; overruns and wrong shortening need particular combinations of capacity, spectrum type and localization.",
  API, [("capacity check and warning before copying", "compute_boundstates / mainspec / auxspec functions in src/fnft_*.c"), ("spectrum type switch", "compute_contspec, compute_normconsts_or_residues in src/fnft_*.c")], obs=["guard zones around every output array"])
p("C07", "Concurrent calls from several threads behave as if each ran alone",
  "When several threads call transforms at the same time, on separate output arrays but possibly sharing input arrays and an options record or all passing no options, then for every interleaving each call returns the code, outputs and messages it would have produced running alone. This includes calls in which other threads fail or run out of memory.",
  ["schedules", "fault_sequences", "inputs"],
  "every mix of concurrent transforms x shared inputs/options x every interleaving of their memory accesses x faults in any of the threads",
  "All tests are single-threaded; interference needs a switch between two particular accesses to shared data.",
  API + KERN + ["src/fnft_errwarn.c", "src/3rd_party/kiss_fft/kiss_fft.c"], [("work buffers allocated per call", "src/"), ("thread-local message handler", "src/fnft_errwarn.c")],
  state=[("default option records, message handler pointer", "only mutable process-wide data", "src/fnft_*.c")], obs=OBS + ["every access to static data of the library"])
p("C08", "Default options are constants of the library",
  "At any moment in the life of a process, after any history of calls (succeeding, failing, concurrent or still running), asking for the default options returns the documented defaults, editing a returned record affects nobody else, and passing no options gives exactly the results of passing those defaults explicitly.",
  ["histories", "schedules", "fault_sequences"],
  "every history of calls with and without options, with failures, and every interleaving of threads; observation by asking for defaults and by calls without options",
  "Tests ask for defaults once at the start of a process and never pass no options twice.",
  API, [("default options returned by value", "fnft_*_default_opts in src/fnft_*.c")], state=[("default option records", "documented defaults", "src/fnft_*.c")])
p("C09", "Each thread has its own message handler, and messages go only there",
  "The message handler set by a thread receives the errors and warnings of calls made by that thread and of no other; threads that never set one use the default, whatever other threads set, before or after. A thread reads back exactly what it last set, and while it has messages disabled its calls print nothing anywhere.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of handler changes, failing and warning calls, and thread starts and exits",
  "The tests set the handler once in a single thread.",
  ["src/fnft_errwarn.c", "src/private/fnft__errwarn.c"] + API, [("thread-local handler pointer", "src/fnft_errwarn.c"), ("messages formatted only through the handler", "src/private/fnft__errwarn.c")], state=[("handler pointer", "where this thread's messages go", "src/fnft_errwarn.c")])
p("C10", "Reporting a problem never changes the outcome of a call",
  "The return code and outputs of a call do not depend on how its messages are handled: disabled, sent to a handler that fails or returns arbitrary values, sent to a handler that itself calls the library or changes the handler, or sent to a standard error stream that is broken or full.",
  ["fault_sequences", "histories", "inputs"],
  "every failing or warning call x every handler behaviour x failing output stream",
  "Tests run with a working stderr and never install a misbehaving handler.",
  ["src/fnft_errwarn.c", "src/private/fnft__errwarn.c"] + API, [("handler result ignored, code passed through", "src/private/fnft__errwarn.c")])
p("C11", "The result of a call depends on its arguments only",
  "The same call with the same arguments returns the same code, the same bit-identical outputs and the same messages whatever happened before in the process and whatever the environment: contents of fresh or recycled memory, stale stack contents, placement of memory, the state of random number generators, and previous contents of pure output arrays.",
  ["histories", "configurations", "inputs"],
  "every transform and building block x options x preceding history x memory contents x entropy",
  "The tests run each call once in fresh, mostly zero memory and compare with tolerances, so reads of stale data or hidden randomness go unnoticed.",
  API + KERN + EIS + ["src/3rd_party/eiscor/z_upr1fact_startchase.f90"], [("buffers fully written before use", "src/"), ("deterministic algorithms", "src/private/")], state=[("exceptional shifts of the eigenvalue solver", "random numbers drawn after many iterations", "src/3rd_party/eiscor/z_upr1fact_startchase.f90")])
p("C12", "No silent failure and no false alarm in messages",
  "Every call that returns an error has reported at least one error message through the calling thread's handler, and every shortening of a result to the caller's array is announced by a warning. A call that returns success has reported no error.",
  ["fault_sequences", "inputs", "configurations"],
  "every transform x refused arguments, degenerate problems, refused memory requests, short arrays",
  "The tests look at return codes of a handful of refused arguments and never at the messages.",
  ["include/private/fnft__errwarn.h", "src/private/fnft__errwarn.c"] + API, [("error macros print at every level", "include/private/fnft__errwarn.h")])
p("C13", "Calls leave the surrounding process as they found it",
  "A call writes nothing to standard output and nothing to standard error except messages through its handler, opens or closes no file, does not read input, terminates no process and starts none, and leaves rounding mode, floating-point traps, errno-independent global settings such as locale and signal handling, and the application's random number streams unchanged. This holds on success and on every failure, whatever rounding mode and exception flags the caller has set.",
  ["fault_sequences", "inputs", "configurations"],
  "every transform x options x refused arguments x refused memory requests",
  "The tests do not observe the process around the call.",
  API + KERN + EIS, [("no I/O outside the message handler", "src/")])
p("C14", "Misuse is refused with the documented error before any harm is done",
  "A call with arguments outside the documented domain (missing mandatory arrays, too few samples, empty or reversed intervals, unknown equation sign, unsupported discretization or option values) returns an error code other than out-of-memory without crashing, without reading or writing beyond what it was given, and without affecting any later call. Absurd but well-typed option values (huge or zero counts, factors, tolerances and iteration limits) are at least contained: no crash, no access outside live memory, no leak.",
  ["inputs", "histories", "configurations"],
  "every transform x every subset of documented-domain violations interleaved with healthy calls",
  "The tests exercise very few invalid arguments and never continue afterwards.",
  API, [("input checks at entry", "top of the public functions in src/fnft_*.c")])
p("C15", "Every call finishes within its documented amount of work, even under faults",
  "Counted in simulated steps, a call always terminates; the fast discretizations compute the continuous spectrum, and the fast inverse transform the signal, in quasi-linear work and the slow ones in at most quadratic work, eigenvalue localization in at most quadratic work, and a call that is refused memory finishes in no more work than the same call with plentiful memory.",
  ["inputs", "configurations", "fault_sequences"],
  "every transform x discretization x growing sample counts x refused memory requests",
  "Unit tests check values, not the number of steps; wall-clock limits are too noisy to see an extra factor of D.",
  API + KERN, [("FFT-based polynomial multiplication tree", "src/private/fnft__poly_fmult.c"), ("chirp z-transform", "src/private/fnft__poly_chirpz.c"), ("bounded Newton iterations", "src/fnft_*.c")])
p("C16", "The MATLAB gateways are leak-free and contain every failure",
  "A gateway call from MATLAB with any arguments either returns fully formed results or raises an error in MATLAB: it never crashes the host, never modifies the caller's MATLAB arrays, and releases every temporary buffer, also when the host refuses memory or the underlying transform fails. Arguments and options reach the transform as they were written, and the script receives what the transform returned, not shortened by the gateway.",
  ["inputs", "fault_sequences", "histories"],
  "every gateway x argument lists (valid, invalid types and sizes, unknown options) x refused memory requests",
  "The gateways are not compiled by the test build at all, so no test reaches them.",
  ["matlab/mex_fnft_nsev.c", "matlab/mex_fnft_nsev_inverse.c", "matlab/mex_fnft_nsev_inverse_XI.c", "matlab/mex_fnft_nsep.c", "matlab/mex_fnft_kdvv.c", "matlab/mex_fnft_manakovv.c", "matlab/mex_fnft_version.c"],
  [("argument checking and jump to a failure label", "mexFunction in matlab/mex_fnft_*.c"), ("host-managed memory", "mxCalloc / mexErrMsgTxt")])
p("C17", "Corrupted sample data is contained",
  "If samples, intervals or guesses handed to a transform are corrupted (not-a-number, infinite, denormal or absurdly large values, flipped bits), the call still terminates within its usual amount of work, stays inside its arrays and live memory, gives back all memory, and does not influence any other or later call.",
  ["inputs", "fault_sequences", "histories"],
  "every transform x options x corruption patterns of its numeric inputs, followed by healthy calls",
  "The tests feed clean analytic signals only.",
  API + KERN + EIS, [("bounded iteration counts", "src/"), ("index computations independent of data values", "src/")])

p("C18", "What else is asked for does not change a result",
  "The continuous spectrum, the bound states, the norming constants, the residues, the main and the auxiliary spectrum that a forward transform returns for a signal do not depend on which of the other outputs are requested in the same call: a part can be obtained whenever the full call succeeds, and a part requested alone (outputs left out, another type of continuous or discrete spectrum selected) equals the same part of the full result up to rounding, and options that only concern the discrete spectrum leave the continuous spectrum alone. The value at a frequency (for the focusing NSE and Manakov equations and the KdV equation) does not depend on which other frequencies are asked for in the same call, up to rounding; longer arrays for the results do not change them. This holds in any history and while other threads run.",
  ["configurations", "inputs", "histories"],
  "every forward transform x discretization/option combination x every pair of output selections, in seeded histories with other, failing and concurrent calls",
  "Most tests request a fixed selection of outputs for a given option set and compare with loose numeric tolerances; the branches that combine outputs (extrapolation, subsampling, shared buffers, offsets) interact only in combinations no test lists.",
  ["src/fnft_nsev.c", "src/fnft_kdvv.c", "src/fnft_manakovv.c", "src/fnft_nsep.c"],
  [("contspec_type / discspec_type offsets", "nsev_compute_contspec, kdvv_compute_contspec, manakovv_compute_contspec, *_compute_normconsts_or_residues"), ("reserve array for residues, second pass for extrapolation", "fnft_nsev, fnft_kdvv, fnft_manakovv"), ("separate main and auxiliary branches", "gridsearch, subsample_and_refine in src/fnft_nsep.c")], obs=["output arrays of calls that differ in the requested outputs"])
p("C19", "Memory and stack use stay in proportion to the problem",
  "The memory a transform holds at any moment grows at most in proportion to the number of samples, spectral points and bound states it was given, its use of stack is small (well below 128 kB) and does not grow with the problem, so that it can run in threads with small stacks. Refused memory requests do not make it take more than it would with plentiful memory.",
  ["inputs", "configurations", "fault_sequences"],
  "every transform x discretization/option combination x pairs of problem sizes x refused allocation requests",
  "The tests run small problems on a large stack with memory granted and never look at the footprint.",
  API + KERN, [("work buffers sized by D, M, K", "malloc calls in src/ and src/private/"), ("recursion depth of the FFT and of the fast polynomial multiplication", "src/3rd_party/kiss_fft, src/private/fnft__poly_fmult.c")], obs=["peak of live heap bytes and lowest stack address during a call, both counted by the simulator"])

p("C20", "A successful call delivers every value it announces, and numbers",
  "When a forward or inverse transform of an ordinary signal reports success, every value of every output it announces (the whole continuous spectrum or signal, and as many bound states, norming constants, residues, main and auxiliary spectrum points as it reports) has been written by this call, and continuous spectra, signals, frequency intervals, spectra of periodic signals and bound states are finite numbers, also for the smallest problems (one frequency, few samples), in any history and after refused memory requests. (Newton's method started from guesses of the caller, or its unfiltered output, may diverge.)",
  ["inputs", "configurations", "fault_sequences", "histories"],
  "every transform x discretization/option/output combination x small problem sizes x refused allocation requests, in histories with failing and concurrent calls",
  "The tests use output arrays that happen to hold zeros, problem sizes for which every branch is filled, and compare aggregate errors; a value that is left unwritten or is not a number for some size or option is not seen.",
  API, [("grids with one point", "eps_xi in src/fnft_nsev.c, src/fnft_kdvv.c, src/fnft_manakovv.c"), ("Richardson extrapolation", "src/fnft_nsev.c, src/fnft_kdvv.c, src/fnft_manakovv.c"), ("regula falsi of the grid search", "src/fnft_kdvv.c")], obs=["output arrays, filled with a not-a-number pattern before the call"])

NA = "pure function of its numeric input: there is no schedule, clock, message, storage or fault for a simulator to control, and a seeded scheduler or fault plan adds nothing to evaluating it on inputs; needs numerical testing or analysis, not simulation"
def na(id, title, st, files, mech):
    p(id, title, st, ["inputs", "configurations"], "every admissible signal, grid and option set",
      "Tests compare a handful of analytic signals with fixed tolerances; the claim is for all signals.", files, mech)
na("C50", "The computed NSE spectrum converges to the exact one at the documented order",
   "For vanishing boundary conditions the reflection coefficient, a and b, bound states, norming constants and residues converge to those of the continuous-time signal as the number of samples grows, at the order documented for the discretization, with or without extrapolation.",
   ["src/fnft_nsev.c", "src/private/fnft__akns_scatter.c", "src/private/fnft__akns_fscatter.c"], [("discretizations", "src/private/fnft__akns_discretization.c")])
na("C51", "The computed KdV spectrum converges to the exact one at the documented order",
   "For real vanishing signals the KdV continuous spectrum, bound states, norming constants and residues converge to the exact ones at the documented order.",
   ["src/fnft_kdvv.c", "src/private/fnft__kdv_scatter.c"], [("discretizations", "src/private/fnft__kdv_discretization.c")])
na("C52", "The computed Manakov spectrum converges to the exact one at the documented order",
   "For vanishing two-component signals the Manakov coefficients a, b1, b2, reflection coefficients and bound states converge to the exact ones at the documented order.",
   ["src/fnft_manakovv.c", "src/private/fnft__manakov_fscatter.c"], [("discretizations", "src/private/fnft__manakov_discretization.c")])
na("C53", "The periodic NSE transform returns the main and auxiliary spectrum",
   "Up to the tolerance, the returned main spectrum points are the solutions of trace condition inside the filter box for every requested spine value and the auxiliary points are zeros of the off-diagonal monodromy entry, none missing, with (quasi-)periodic boundary conditions.",
   ["src/fnft_nsep.c"], [("grid search, subsampling and refinement", "src/fnft_nsep.c")])
na("C54", "Inverse and forward NSE transforms are inverses of each other",
   "Transforming the signal generated from a continuous and discrete spectrum returns that spectrum within discretization accuracy, for every supported spectrum representation and inversion method.",
   ["src/fnft_nsev_inverse.c", "src/private/fnft__nse_finvscatter.c"], [("spectral factorization, inverse scattering, Darboux transform", "src/fnft_nsev_inverse.c")])
na("C55", "Fast and slow algorithms agree",
   "A fast discretization evaluates, up to rounding, the same scattering coefficients as multiplying its transfer matrices sample by sample.",
   ["src/private/fnft__akns_fscatter.c", "src/private/fnft__manakov_fscatter.c", "src/private/fnft__poly_fmult.c"], [("polynomial transfer matrices", "src/private/fnft__*_fscatter.c")])
na("C56", "Polynomial building blocks compute what they say",
   "Products, chirp transforms, spectral factors and roots of polynomials are correct up to rounding for every degree and coefficient range.",
   ["src/private/fnft__poly_fmult.c", "src/private/fnft__poly_chirpz.c", "src/private/fnft__poly_specfact.c", "src/private/fnft__poly_roots_fasteigen.c", "src/private/fnft__poly_roots_fftgridsearch.c"], [("FFT-based algorithms", "src/private/fnft__poly_*.c")])
na("C57", "Physical invariants and symmetries of the spectra hold",
   "|a|^2 plus or minus |b|^2 equals one on the real axis, bound states lie in the documented half-plane or axis, and phase rotation, time shift and scaling of the signal act on the spectrum as theory says.",
   ["src/fnft_nsev.c", "src/fnft_kdvv.c", "src/fnft_manakovv.c"], [("transfer matrices in SU(2)/SU(1,1)/SU(3)", "src/private/")])
na("C58", "Bound-state filtering keeps exactly the admissible bound states",
   "Filtering removes duplicates and points outside the admissible or user-given region and keeps all others, in every filtering mode.",
   ["src/fnft_nsev.c", "src/private/fnft__misc.c"], [("misc_filter, misc_merge", "src/private/fnft__misc.c")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P), "properties")
