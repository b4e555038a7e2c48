#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
T = "deterministic simulation with fault injection: "
SAMPLED = "Seeded search: what it explored held; it is not a proof. "
C = {
 "C01": ("exploration", "seeded scheduler interleaving several callers at basic-block granularity, outcomes compared bit for bit with lone executions",
  SAMPLED + "Callers run real library code on one shared set of curves; memory is sequentially consistent and switches fall between basic blocks of an unoptimised build. Also checks that every type is Send + Sync. Trusts the compiler's coverage instrumentation and the harness."),
 "C02": ("exploration", "simulated process histories (repeats, near-identical curves, failing calls, 10^5-call marathons) under a simulated clock, OS randomness and environment, outcomes compared bit for bit with those of fresh processes",
  SAMPLED + "A state-dependent result needs a history the generator draws; histories stay below a few hundred thousand calls. The simulated platform includes the clock, OS randomness, the process id, environment variables, destructors during unwinding and at thread end, and new threads."),
 "C03": ("fault_enumeration", "a nested call is injected at chosen basic blocks and operator calls of another call, both outcomes compared bit for bit with separate executions",
  SAMPLED + "Injection points are drawn over all distinct basic blocks and operator kinds of each sampled call; chains of nested calls are mostly 1-4 and sometimes up to 20 deep."),
 "C04": ("fault_enumeration", "callers are suspended for good at chosen basic blocks, the others must finish in a bounded number of their own steps with their normal outcome",
  SAMPLED + "The step bound is 20 times the lone execution's plus 10^5 basic blocks; waiting in the kernel is seen through the intercepted futex, sleep and yield calls. Up to 39 callers."),
 "C05": ("fault_enumeration", "operators of the caller's scalar and point types panic at chosen invocations, with retries and other callers in mid-call",
  SAMPLED + "Only types whose arithmetic the caller supplies (SimScalar, SimPoint) can panic this way; plain f64 cannot."),
 "C06": ("exploration", "every call runs under an allocator that refuses and a system-call dispatch that traps, outcomes compared bit for bit with ordinary processes",
  SAMPLED + "Needs Linux syscall user dispatch for the system-call half; where the kernel lacks it only the allocator half is checked (said in the evidence)."),
 "C07": ("exploration", "hostile bit patterns in all inputs and corrupted operator and comparison results during calls, under a step and stack budget",
  SAMPLED + "The budget is relative: 32 times the work and 4 times the stack of the same call on ordinary numbers, plus a constant; it applies to each of some thousand calls in a row."),
 "C08": ("exploration", "simulated histories of edits, abandoned and panicking edits, copies and calls by interleaved callers against a reference model",
  SAMPLED + "The model is an array of numbers; every outcome is compared with a newly built curve in a fresh process."),
 "C09": ("exploration", "not-a-number injected at scalar operations and decayed knots and parameters, outcomes against the recursive Cox-de Boor definition",
  SAMPLED + "Tolerance 1e-11 of the magnitude of the control points involved, per axis; infinite knots, magnitudes beyond 1e150 (points) or 1e300 (knots) and empty domains are only checked for panics and wrongly accepted parameters."),
 "C10": ("exploration", "one coordinate (stored, or an operator's result) is corrupted and every other axis and everything outside the support is compared bit for bit with the clean twin",
  SAMPLED + "Bounding boxes are compared for finite corruptions only."),
 "C11": ("exploration", "discrete-event simulation of a coordinator and workers subdividing a curve over a network with loss, duplication, delay, crashes and retries, chain and trace checked against independent de Casteljau evaluation",
  SAMPLED + "Joints and ends are compared exactly, positions within 1e-10 of the control points' magnitude, per axis."),
 "C12": ("exploration", "discrete-event simulation of workers that measure the boxes of pieces over a network with loss, duplication, delay, crashes and retries, each box against subdivision of the Bernstein form, and all of them together against the box of the whole curve",
  SAMPLED + "Within 1e-9 of the coordinates' magnitude, per axis."),
 "C13": ("exploration", "discrete-event simulation of workers that measure the lengths of pieces over an unreliable network, each length against the polyline of independently computed points, the sums against chord and control polygon",
  SAMPLED + "Within 1e-10; B-splines that jump inside their domain are not compared."),
 "C14": ("exploration", "discrete-event simulation of workers that measure distances from pieces over an unreliable network, each against branch and bound over convex hulls and 65 samples, the least of them against the whole curve",
  SAMPLED + "The true minimum is known within 1e-7 of the numbers' magnitude; how close the answer has to be away from the best sample is left open, as the method is a sampling one."),
 "C15": ("exploration", "discrete-event simulation of workers that differentiate pieces over an unreliable network, in axes and units of their own, each derivative against differences of control points (basis functions) and, put together, against the whole curve",
  SAMPLED + "Within 1e-10 of the numbers involved, per axis; at knots the derivative from the right counts."),
 "C16": ("exploration", "discrete-event simulation of an adaptive flattening by unreliable workers: ends within a computed number of levels, chords within the tolerance of the curve, answers against distances to the chord and monotone",
  SAMPLED + "Answers within 1e-12 of the threshold are not judged, and closed curves may be called not linear."),
 "C17": ("exploration", "B-splines damaged in transit and operators that panic or lose numbers in the receiving constructor, its answers against the three rules",
  SAMPLED + "Up to 10 knots, 6 points and degree 4, two point types."),
 "C18": ("exploration", "not-a-number injected at scalar operations, in stored coordinates and as the parameter, every number of the outcome compared with that of the clean twin",
  SAMPLED + "Infinity counts as visible; distances, boxes and predicates are not judged."),
 "C19": ("exploration", "simulated histories of vector operations and transfers between accounts, interrupted by panics of the arithmetic and retried, against component-wise bookkeeping and conservation of the sum",
  SAMPLED + "Squared lengths within 1e-14."),
}
NA = {}
m = {"version": 1, "setup_cmd": "./check.sh build",
 "checks": [{"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
   "technique": T + t, "level": l, "level_note": n} for p, (l, t, n) in C.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
 "notes": "No hooks in /repo: the seams are the Point and Scalar traits, the global allocator, the C library's entry points and compiler instrumentation of a separate build. Replay a violation with ./check.sh replay FILE."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
