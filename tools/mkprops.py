#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json
ALL=["src/bezier.rs","src/bspline.rs","src/cubic_bezier.rs","src/quadratic_bezier.rs","src/line.rs","src/bezier_segment.rs","src/point_generic.rs"]
def P(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["return values, panics and errors of the public methods of every curve type"]
    a["hook_needed"]=hook
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
NOHOOK="none in /repo: the caller's point and scalar types (trait Point and its Scalar) are the seam for operators, and compiler instrumentation of every basic block is the seam for the schedule"
props=[
P("C01","Concurrent calls on shared curves return what each returns alone",
 "Curves and B-splines can be shared between threads, and any number of callers may use the same or different curves at the same time. Whatever the interleaving of their instructions, every call returns, bit for bit, the result (value, error or panic) it returns when it is the only call ever made, and no curve changes.",
 ["schedules","inputs"],"every interleaving, at instruction granularity, of calls to any public method of any curve, B-spline, segment or point type by several callers on shared and unshared values",
 "The unit tests are single calls from one thread each and never share a value between threads; interference needs two calls overlapping at a particular instruction.",
 ALL,[("all methods take &self and work on by-value temporaries; no statics, no interior mutability","src/*.rs"),("#![forbid(unsafe_code)]","src/lib.rs")],
 [("knots, knot_kind, control_points","the only state of a B-spline, immutable after construction","src/bspline.rs struct BSpline"),("control_points","only state of a Bezier","src/bezier.rs struct Bezier")],hook=NOHOOK),
P("C02","A call's result never depends on what the process did before",
 "The result of a call (value, error or panic) is a function of the receiver's value and the arguments only. It is bit for bit the same as the first call of a process and after any number of other calls, on similar or different curves, including calls that failed or panicked, and whatever the clock or the operating system's randomness say.",
 ["histories","inputs"],"every history of calls made earlier in the same process: repeats, near-identical curves, other degrees and dimensions, failing and panicking calls, thousands of calls",
 "Each unit test makes a handful of calls, on one curve; a memo with an incomplete key, a warm-up counter or state left by a failed call shows only after a particular history.",
 ALL,[("no state survives a call: temporaries are locals, there are no statics and no caches","src/*.rs")],hook=NOHOOK),
P("C03","A call may be interrupted by, or nested in, another call",
 "A call into the library made while another call of the same thread is still in progress - from inside the caller's own point or scalar operators, or from an interrupt or signal handler at any instruction - completes, and both calls return bit for bit what they return when made separately.",
 ["schedules","inputs"],"every instruction of every call as the place where another call (same or different method, curve and type) runs to completion on top of it",
 "No test nests a call in another one; the tests' point type has plain float arithmetic that never calls back.",
 ALL,[("no locks, no shared scratch space: intermediate results live in arrays on the stack","src/bezier.rs eval/split, src/bspline.rs de_boor_iterative")],hook=NOHOOK),
P("C04","A stalled or abandoned caller never holds up another caller",
 "When a caller stops for good in the middle of a call, at any instruction, every other call - on the same curve or another one, already running or started later - still finishes, with its normal result, within a bounded number of its own steps. No call ever waits for another caller.",
 ["schedules","fault_sequences"],"every instruction of every call as the place where its thread is never scheduled again, with up to all but one caller stalled, under every interleaving of the rest",
 "Tests run calls that are never suspended; a lock, a spin or a wait shows only if the holder is stopped inside its critical section.",
 ALL,[("no blocking primitive anywhere; every loop is bounded by an array length or the step count argument","src/*.rs")],hook=NOHOOK),
P("C05","A panic in the caller's arithmetic leaves everything else intact",
 "If an operator of the caller's point or scalar type panics during a call, that same panic reaches the caller of that call, and nothing else happens: no value changes, no other call in progress is affected, and every later call, including a retry of the interrupted one, returns bit for bit its normal result. The process never aborts because of it.",
 ["crash_points","fault_sequences","histories"],"every operator invocation (add, subtract, multiply, divide, negate, compare, convert, axis, squared length, iterate, default, equality ...) of every call as the place of the panic, repeatedly, with other callers in mid-call",
 "No test uses a point or scalar type whose operators can fail.",
 ALL,[("results are built in locals and only returned when complete; no Drop implementations, no guards, no shared state to restore","src/*.rs")],
 observe=["the payload caught by the caller","control points, knots and domain of every live curve afterwards","results of all later calls"],hook=NOHOOK),
P("C06","Calls need nothing from the platform: no heap and no system calls",
 "No call on any curve, B-spline, segment or point - construction, evaluation, splitting, derivatives, lengths, distances, bounding boxes, iteration, formatting - requests heap memory or makes a system call. With every allocation and every system call failing, all of them still return their normal results.",
 ["inputs","fault_sequences","configurations"],"every call, argument, curve size and degenerate configuration, under an allocator and an operating system that refuse every request",
 "The tests run with a working allocator and operating system, so a Vec or a lock on a rarely taken path goes unnoticed.",
 ALL,[("#![no_std], fixed-size arrays sized by const generics, tinyvec::ArrayVec for root lists","src/lib.rs, src/bezier.rs, src/bspline.rs, src/*_bezier.rs")],
 observe=["requests seen by the process's global allocator during a call","system calls attempted during a call"],hook="none in /repo: global allocator and syscall dispatch of the process"),
P("C07","Every call ends within bounded work and stack, whatever the numbers",
 "Every call returns or panics after an amount of work bounded by the sizes of its types and the step-count argument, and with a stack use bounded by the sizes of its types alone. This holds for every value of coordinates, knots, parameters and tolerances - infinities, not-a-number, huge, tiny and equal values included - and even if the caller's scalar operations and comparisons return garbage while the call runs.",
 ["inputs","fault_sequences"],"every bit pattern in control points, knots, parameters and tolerances, and every sequence of corrupted operator and comparison results during the call",
 "The tests use small well-behaved decimals, so a search or refinement loop that needs ordered or finite numbers to terminate passes them.",
 ALL,[("loops run over array lengths, halve an index interval, or count to nsteps; no loop or recursion waits for a numeric condition","src/bspline.rs knot_span_start_for_t_*, src/*bezier*.rs distance_to_point/arclen")],hook=NOHOOK),
P("C08","In-place edits of curves and points are never lost, torn or seen stale",
 "Editing control points (or a point's coordinates) through the mutable iterators changes exactly the elements the caller wrote, in order, even if the edit loop is abandoned or panics half way, and never changes a copy taken earlier. After any history of edits and copies, every call on the curve returns bit for bit what it returns on a curve newly built from the same control points, and iterating yields each of them exactly once, in order.",
 ["histories","crash_points","schedules"],"every history of partial, complete, reversed, skipping and interrupted edits, copies, iterations and calls, by several callers each on their own curves",
 "No test edits a curve at all, so nothing samples a history in which derived data could go stale.",
 ["src/bezier.rs","src/point_generic.rs","src/bspline.rs"],[("IntoIterator for &mut Bezier / &mut PointN hand out slice::IterMut over the one stored array; no derived data is kept","src/bezier.rs, src/point_generic.rs"),("Clone/Copy of plain arrays","src/bezier.rs, src/point_generic.rs")],
 [("control_points","the single source of truth for a curve","src/bezier.rs struct Bezier")],hook=NOHOOK),
P("C09","A successful B-spline evaluation is always the true curve point",
 "Evaluating a B-spline inside its reported domain yields the Cox-de Boor point of its knots and control points; evaluating outside it, or at not-a-number, yields an error. When a scalar operation returns not-a-number during the call, or knots or parameter were corrupted beforehand, the constructor or the call reports an error or the result is still the true point (or visibly not-a-number): never a finite wrong point, and never a panic of the library's own.",
 ["fault_sequences","inputs"],"every placement of not-a-number results among the scalar operations of the call, every corruption of stored knots and parameter, for clamped, half-clamped and unclamped knot vectors with repeated knots and every degree",
 "The tests never look at an interior point's value, never use half-clamped or repeated interior knots, and have no faults, so the error path is never taken.",
 ["src/bspline.rs"],[("domain check and span search","src/bspline.rs eval, knot_domain*, knot_span_start_for_t*"),("alpha guarded by epsilon tests and the is_nan check returning EvaluationAlphaIsNaN","src/bspline.rs de_boor_iterative"),("constructor validation","src/bspline.rs new")],
 observe=["Result of BSpline::new and BSpline::eval"],hook=NOHOOK),
P("C10","A corrupted coordinate stays in its axis and in its control point's reach",
 "If one coordinate of one control point is corrupted, before a call or by an operator during it, points, sub-curves, derivative curves and per-axis samples keep bit for bit their uncorrupted values on every other axis; bounding boxes do so when the corrupted value is finite. On a B-spline, evaluation at parameters outside the span of knots that the control point influences is bit for bit unchanged on all axes.",
 ["fault_sequences","inputs"],"every coordinate of every control point and every operator invocation as the place of the corruption, every corrupted bit pattern, every method and parameter",
 "The tests have no corrupted data and compare whole points on one curve.",
 ALL,[("all arithmetic is component-wise through the point operators; axis loops index one dimension at a time","src/point_generic.rs, bounding_box in src/line.rs, src/quadratic_bezier.rs, src/cubic_bezier.rs"),("local control: de Boor reads only the control points of one span","src/bspline.rs de_boor_iterative")],hook=NOHOOK),
P("C11","Subdividing a curve across unreliable workers loses nothing",
 "However a segment or curve is split again and again, in any order and by any workers (of whatever point type, units and order of axes), with split requests lost, repeated, reordered or interrupted by a crash and retried, the resulting pieces form one chain: each piece starts exactly where the previous one ends, the first starts at the original start and the last ends at the original end. Each piece traces, within rounding, exactly the stretch of the original curve between its two parameters: by every way to evaluate it (direct, de Casteljau, generic, segment wrapper, per axis) it is the Bernstein polynomial of its control points.",
 ["histories","fault_sequences","schedules"],"every split tree (order, depth, parameters in 0..1) and every schedule of message loss, duplication, reordering, worker crash and retry",
 "The tests split one fixed curve once, at 0.5; lines and the segment wrapper are never split, and nothing composes splits or retries them.",
 ["src/bezier.rs","src/line.rs","src/quadratic_bezier.rs","src/cubic_bezier.rs","src/bezier_segment.rs"],[("both halves share the same computed split point","split() in each file"),("split is a pure function of the piece, so a retry is the same work","split() in each file")],hook=NOHOOK),
P("C12","Bounding boxes contain every piece of a curve and touch it on all sides",
 "The bounding box of a line, quadratic or cubic curve with finite control points contains every point of it over 0..1, and each side of the box is attained, both within rounding, on every axis, however extreme, degenerate or nearly degenerate the curve. When a curve is subdivided in any way across unreliable workers, each measuring the box of its piece, with requests lost, repeated, delayed or interrupted by crashes and retried, the boxes of the pieces together make up the box of the curve.",
 ["inputs","histories","fault_sequences"],"every finite control polygon (extrema at, near and beyond the ends, axes of a lower degree, nearly so, of very different scales), every way to subdivide it and every schedule of faults",
 "One well-conditioned curve per degree with a tolerance of 1e-2; never tightness, never a degenerate axis, never a piece.",
 ["src/line.rs","src/quadratic_bezier.rs","src/cubic_bezier.rs"],[("bounding_box from the ends and the real roots of the derivative on each axis","src/line.rs, src/quadratic_bezier.rs, src/cubic_bezier.rs bounding_box"),("real_roots, root: solvers of the derivative","src/line.rs root, src/quadratic_bezier.rs real_roots")],hook=NOHOOK),
P("C13","Arc length is the length of the polyline of its steps, piece by piece",
 "The arc length with n steps is, within rounding, the length of the polyline through the curve's points at n+1 equidistant parameters, on a B-spline over its whole domain. When a curve is subdivided across unreliable workers that measure their pieces, with retries, the lengths of the pieces add up to no less than the chord and no more than the control polygon of the whole curve.",
 ["inputs","histories","fault_sequences"],"every curve, knot vector and step count, every way to subdivide it and every schedule of faults",
 "One circle, 1000 steps, tolerance 1e-2: a missing first step or a wrong domain goes unnoticed.",
 ["src/bezier.rs","src/cubic_bezier.rs","src/quadratic_bezier.rs","src/bspline.rs"],[("arclen: sum over steps","arclen() in each file")],hook=NOHOOK),
P("C14","Distance to a point is the distance to the nearest point of the curve",
 "The returned distance from a point is never smaller than the true minimum distance to the curve over 0..1 (within rounding). It never exceeds the distance to any of 65 equidistant curve points, and where the nearest point lies next to the best of these, it is found to a sampling step. For lines it is exact. When a curve is subdivided across unreliable workers, with retries, the least distance of the pieces is never smaller than that of the curve.",
 ["inputs","histories","fault_sequences"],"every curve and query point (on the curve, near it, beyond its ends, far away), every way to subdivide and every schedule of faults",
 "Two distances of one curve are compared with each other; no query lies beyond an end, none is on the curve.",
 ["src/bezier.rs","src/cubic_bezier.rs","src/quadratic_bezier.rs","src/line.rs"],[("coarse pass over 64 samples, fine pass around the best","distance_to_point() in src/bezier.rs, src/cubic_bezier.rs, src/quadratic_bezier.rs"),("projection clamped to the segment","src/line.rs distance_to_point")],hook=NOHOOK),
P("C15","Derivative curves and direct derivatives are the derivative of the curve",
 "For every curve and parameter in 0..1 the derivative curve and the direct per-axis derivative equal, within rounding, the derivative of the curve with respect to its parameter; the derivative of a B-spline evaluates to it all over the B-spline's own domain. When a curve is subdivided across unreliable workers with retries - each with axes, units and point type of its own -, the derivatives of the pieces are those of the curve times the length of the piece's parameter range.",
 ["inputs","histories","fault_sequences"],"every curve, degree, knot vector (with repeated and uneven knots) and parameter, every way to subdivide and every schedule of faults",
 "No test calls derivative() or dd() and looks at the numbers.",
 ["src/bezier.rs","src/cubic_bezier.rs","src/quadratic_bezier.rs","src/line.rs","src/bspline.rs"],[("derivative: scaled differences of control points; on B-splines over the inner knots","derivative() in each file"),("dd: per-axis derivative","src/cubic_bezier.rs, src/quadratic_bezier.rs")],hook=NOHOOK),
P("C16","Flattening by the linearity answers ends and stays within its tolerance",
 "A curve is reported linear only if every control point lies within the tolerance of its baseline, and a point only if all control points lie within about the tolerance of each other; it is reported so when they clearly do, and both answers are monotone in the tolerance. Splitting a curve across unreliable workers until every piece is reported linear or a point therefore ends after a number of levels given by its bend, and the chords of the pieces stay within the tolerance of the curve.",
 ["inputs","histories","fault_sequences"],"every control polygon and tolerance, every choice of split parameters and every schedule of loss, duplication, delay, crash and retry",
 "The predicates and the baseline are never called by a test, and nothing is flattened.",
 ["src/quadratic_bezier.rs","src/cubic_bezier.rs","src/bezier_segment.rs"],[("is_linear, is_a_point, baseline","src/quadratic_bezier.rs, src/cubic_bezier.rs, src/bezier_segment.rs"),("split","each curve file")],hook=NOHOOK),
P("C17","B-splines damaged on their way are refused, and the valid ones arrive unharmed",
 "Construction of a B-spline succeeds exactly when there are more control points than the degree, the number of knots is points plus degree plus one, and the knots are non-decreasing numbers; it then holds exactly the given knots and points and reports the domain from knot [degree] to knot [points]. Otherwise it fails with an error naming a rule that is violated. It never panics, and a panic of the caller's arithmetic during construction passes through, after which a retry decides as ever.",
 ["inputs","configurations","fault_sequences"],"every number of knots, points and degree, every damage to a message (knots lost, repeated, swapped, altered in a bit, not-a-number; points lost; degree altered) and every operator call as the place of a panic or of a not-a-number",
 "Only valid configurations are constructed, and the tests do not damage anything.",
 ["src/bspline.rs"],[("BSpline::new, knot_domain","src/bspline.rs")],hook=NOHOOK),
P("C18","A number lost in arithmetic is never replaced by a wrong one",
 "If a scalar operation returns not-a-number during a call, or a stored coordinate is not-a-number, then every number of the result - points, sub-curves, derivatives, axis values, arc lengths, sums - is bit for bit what it is without the fault, or visibly not finite: never a different finite number, and no panic. Evaluating a Bezier curve at a not-a-number parameter yields not-a-number on every axis.",
 ["fault_sequences","inputs"],"every scalar operation of every evaluating, splitting, deriving or measuring call and every stored coordinate as the place where a number is lost, every curve and parameter",
 "The tests contain no not-a-number.",
 ALL,[("results are plain arithmetic of the inputs: no clamping, no min or max, no fallback values","src/*.rs"),("failed evaluations count as not-a-number in a length","src/bspline.rs arclen")],
 observe=["every number of the returned points, curves and scalars"],hook=NOHOOK),
P("C19","Points are component-wise vectors and keep their books",
 "Addition, subtraction, scaling, adding and subtracting a number, equality, default, iteration, axis access and squared length of the provided point type act component by component and agree with the arithmetic of the element type; an out-of-range axis panics. Whatever sequence of such operations and in-place edits is worked off, with the arithmetic interrupting operations by panics that are then retried, every account ends up exactly as component-wise bookkeeping says, and moving amounts between accounts leaves their sum unchanged.",
 ["histories","fault_sequences","inputs"],"every dimension, element value, sequence of operations and place of an interruption",
 "Points are only used in passing, with two and three dimensions and without interruption.",
 ["src/point_generic.rs"],[("operator implementations","src/point_generic.rs")],hook=NOHOOK),
]
with open("/verif/properties.jsonl","w") as f:
    for p in props:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
