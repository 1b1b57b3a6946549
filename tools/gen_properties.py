#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long strings stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

B = "aegir/src/"
OPS = [B+"ops/mod.rs", B+"ops/arithmetic/unary.rs", B+"ops/arithmetic/binary.rs", B+"ops/linalg/mod.rs",
       B+"ops/logarithmic.rs", B+"ops/sigmoid.rs", B+"ops/trig.rs", B+"ops/special.rs"]
META = [B+"meta/variable.rs", B+"meta/constant.rs", B+"meta/cached.rs"]
BUF = [B+"buffers/mod.rs", B+"buffers/spec.rs", B+"buffers/scalars.rs", B+"buffers/tuples.rs", B+"buffers/vecs.rs",
       B+"buffers/arrays/buffer.rs", B+"buffers/arrays/zip_ops.rs", B+"buffers/arrays/contraction_ops.rs"]

p("C01", "An evaluation is the formula at the values the context gave during it",
  "Evaluating an expression (in dense or structured form) returns, up to rounding, exactly the value its mathematical formula has at the variable values the context supplied during that very call. "
  "Nothing left over from an earlier, failed, interrupted, abandoned or concurrently running evaluation - of the same expression object or of any other - may influence the result, and evaluating changes no variable in the context. "
  "Every evaluation finishes within a bounded number of steps, whatever other clients of the same context do meanwhile.",
  ["schedules", "histories", "programs", "inputs", "fault_sequences"],
  "All expression trees over scalars, fixed-size arrays, tuples, vectors and user-defined buffers; all interleavings of several evaluating clients and several writing clients of one shared context, preempted at every context access and every arithmetic operation; all histories of earlier calls, failures and crashes.",
  "The unit tests evaluate one operator once, from one thread of control, against a context nobody else touches; no test has a second client, a failed call before the measured one, or a tree deeper than three operators.",
  [B+"lib.rs"] + OPS + META + BUF,
  [("every operator recomputes from its children's results and holds no mutable state", "aegir/src/ops (Function impls)"),
   ("a variable is a plain read of the context at evaluation time", "aegir/src/meta/variable.rs"),
   ("buffers are values: element-wise work is done on an owned copy", "aegir/src/buffers")],
  observe=["the value returned by evaluate / evaluate_spec, against the log of values the context handed out during the call"])

p("C02", "A missing variable is reported by name and side, and only while it is missing",
  "If a variable that the requested result depends on is unavailable in the context for the whole call, the call (value, structured value, gradient, value-with-gradient) fails with an error that names an unavailable variable and the operand side(s) on which it occurs; it never panics and never returns a value. "
  "A call in which every context read succeeded never reports a missing variable, a variable that is available is never the one named, and a shape query that returns a shape despite a missing variable returns the right one. "
  "The failure leaves no trace: as soon as the variable is back, the next call on the same expression succeeds with the right value.",
  ["fault_sequences", "histories", "programs", "schedules"],
  "All expression trees and all sequences of outages: any subset of variables missing permanently, transiently, or at the k-th read only, interleaved with other clients.",
  "The tests only use contexts in which every variable is present; the error paths (left/right/output, source errors of adjoints) are not exercised by a single test.",
  [B+"lib.rs", B+"errors.rs", B+"meta/mod.rs"] + META + OPS,
  [("a failed read becomes a source error carrying the identifier", "aegir/src/meta/variable.rs"),
   ("binary operators tag child errors as left/right", "aegir/src/errors.rs, aegir/src/ops/arithmetic/binary.rs, aegir/src/ops/linalg/mod.rs"),
   ("adjoint sources tag the differentiated variable and the target", "aegir/src/meta/variable.rs, aegir/src/meta/constant.rs")],
  observe=["error value and its Display text", "result of the following call once the outage ended"])

p("C03", "A memoised subexpression is computed once and stored exactly, nothing else moves",
  "When a memoised subexpression is evaluated and its slot is filled, the stored value is the result, the subexpression is not evaluated and the slot is not rewritten; when the slot is empty the freshly computed value is both returned and stored, unchanged, in that slot. "
  "A failed or interrupted computation leaves the slot exactly as it was, and no other slot or variable is ever modified by an evaluation. "
  "Clearing or losing an entry only means that the next evaluation computes (and stores) the current value again.",
  ["histories", "fault_sequences", "crash_points", "schedules"],
  "All trees with any number of (nested, repeated, sibling) memoised nodes over one or more slots; all histories of evaluations, variable updates, slot invalidations, lost slot writes, outages, crashes, and concurrent clients.",
  "Memoisation has no unit test at all (one example times it); hits, misses, invalidation, failure, nested slots and interference are never exercised.",
  [B+"meta/cached.rs", B+"lib.rs", "aegir_derive/src/ctx/derive.rs"],
  [("read the slot first; compute and write only on a miss, and only after success", "aegir/src/meta/cached.rs"),
   ("slots are ordinary context entries written through the write interface", "aegir/src/lib.rs (Write), aegir_derive/src/ctx/derive.rs")],
  state=[("memo slot", "holds the last value stored for that identifier, or nothing", "the context")],
  observe=["reads and writes the context receives", "slot contents after each call"])

p("C04", "An evaluation cut short at any instant damages nothing",
  "If an evaluation is cut short (unwinds) at any instant - at any context access or in the middle of any arithmetic operation of the number type - every variable in the context is intact, every memo slot holds either its previous content or a complete, correct value, and the expression object still works. "
  "Evaluating again gives the same result as if the interruption had never happened, and the interrupted call leaks no memory and drops nothing twice.",
  ["crash_points", "programs", "histories"],
  "All expression trees, all calls (value, structured value, shape, gradient, value-with-gradient), every context access and every single arithmetic operation as the crash point, and sequences of crashes; including contexts written by the crash-interrupted client.",
  "No test interrupts anything: number types in the tests are primitives that cannot fail, and contexts never do.",
  [B+"lib.rs"] + OPS + META + BUF,
  [("results are built in owned temporaries and handed over only when complete", "aegir/src/ops, aegir/src/buffers"),
   ("a memo slot is written only with a finished value", "aegir/src/meta/cached.rs"),
   ("the unsafe reinterpretation in the matrix/vector shortcut forgets the source exactly once", "aegir/src/buffers/arrays/contraction_ops.rs")],
  observe=["context content and re-evaluation result after the unwinding", "live heap bytes before/after"])

p("C05", "Operands of different run-time sizes give a shape error naming both sizes",
  "Whenever the operands of a binary operation have incompatible run-time sizes at the moment they are read, evaluation reports incompatible shapes carrying the actual size of the left and of the right operand, on the correct operand path - it never panics, truncates, pads or returns a value. "
  "Operands of equal size (including zero and one) and scalar operands always combine, giving a result of that size. "
  "Asking for the shape of the same expression gives the matching answer: the shape of the value, or the same shape error (an expression whose value is always a scalar may answer with that shape without inspecting its operands).",
  ["inputs", "schedules", "histories", "programs"],
  "All trees over run-time sized vectors and scalars, all sizes, every structural representation of the operands, with other clients resizing the vectors between and during calls.",
  "No test ever combines two vectors of different lengths; compile-time shapes make the error path unreachable in the rest of the suite.",
  [B+"buffers/vecs.rs", B+"buffers/spec.rs", B+"buffers/shapes/runtime.rs", B+"buffers/shapes/mod.rs", B+"ops/arithmetic/binary.rs"],
  [("element-wise combination compares sizes first", "aegir/src/buffers/vecs.rs"),
   ("shape broadcasting rejects unequal run-time shapes", "aegir/src/buffers/shapes/runtime.rs"),
   ("operators map the mismatch to the output error", "aegir/src/ops/arithmetic/binary.rs")],
  observe=["error value: path and both shapes", "evaluate_shape on the same state"])

p("C06", "How a context represents a value never changes any result",
  "A context may hand out a value in any structural representation that denotes it - dense, homogeneous, or diagonal - and may change its mind at every read; values, gradients, shapes and errors of every expression are the same, up to rounding, as if the value had been handed out dense. "
  "The same holds for constants given in structured form, and for structured combination, mapping and contraction of buffers compared with doing the same on the dense forms.",
  ["inputs", "programs", "configurations", "schedules"],
  "All trees, all values (all-zero, all-one, negative, identity-like and arbitrary matrices, rectangular included), and all choices of representation at every single read.",
  "The structured shortcuts (zero, one, homogeneous, diagonal; unsafe reinterpretation for diagonal times vector) are reached in tests only through a few adjoints of square matrices.",
  [B+"buffers/spec.rs", B+"buffers/arrays/contraction_ops.rs"] + OPS + META,
  [("structure-exploiting shortcuts in each operator", "aegir/src/ops, aegir/src/buffers/arrays/contraction_ops.rs"),
   ("a structured value converts to the dense buffer it denotes", "aegir/src/buffers/spec.rs"),
   ("element-wise maps densify a diagonal because f(0) may be non-zero", "aegir/src/buffers/spec.rs, aegir/src/ops/mod.rs")],
  observe=["evaluate/evaluate_spec/evaluate_shape/evaluate_dual under a representation-shuffling context"])

p("C07", "The four views of an expression agree on any one state",
  "In any one context state, the dense value, the structured value once made dense, the shape query, and the value half of a value-with-gradient query all describe the same result, and the gradient half equals the separately requested gradient, the evaluated gradient expression and its structured form. "
  "This stays so after any history of updates, resizes, outages, retries and interrupted calls, and with memoised subexpressions whose slots are filled by whichever view happens to be asked first.",
  ["histories", "programs", "fault_sequences", "inputs"],
  "All trees, all orders in which the views are requested, interleaved with context updates, failures and crashes of earlier view requests.",
  "Tests request one view of one state; agreement between views is never asserted, let alone across histories.",
  [B+"lib.rs"] + OPS + META + BUF,
  [("evaluate is defined by densifying the structured form, or overridden consistently", "aegir/src/ops, aegir/src/meta"),
   ("shape queries combine the children's shapes", "aegir/src/ops"),
   ("value-with-gradient evaluates both in sequence", "aegir/src/lib.rs")],
  observe=["evaluate, evaluate_spec, evaluate_shape, evaluate_dual, evaluate_adjoint, adjoint().evaluate*"])

p("C08", "A training run sees true gradients, and faults never bend its trajectory",
  "At every step of an iterative optimisation the gradient returned for a parameter (first order, and second order for scalars) is the true derivative of the expression at the values currently in the context, with the derivative with respect to any variable that does not occur being zero (the gradient of a sum over a buffer is, by the library's documented convention, the derivative of the buffer that is summed, one row per element). "
  "Failed reads, crashes in the middle of a gradient, and retries never alter what later steps see: a run that suffers them and retries follows, bit for bit, the trajectory of a run that does not. "
  "Restarting from the durable parameters alone continues the same trajectory.",
  ["histories", "fault_sequences", "programs", "inputs"],
  "All differentiable expressions over scalar and array parameters; all sequences of gradient steps with parameter updates, outages, crashes, retries, restarts and representation changes.",
  "Each operator's derivative is asserted at two to four hand-picked points, in isolation; composed gradients, second order and repeated use across a changing context are untested.",
  [B+"lib.rs"] + OPS + META + [B+"buffers/arrays/contraction_ops.rs", B+"buffers/arrays/zip_ops.rs"],
  [("each operator's derivative expression (chain, product and quotient rule)", "aegir/src/ops (Differentiable impls)"),
   ("source derivatives: identity for the target, zeros otherwise", "aegir/src/meta/variable.rs, aegir/src/meta/constant.rs"),
   ("evaluation keeps no state between steps", "aegir/src/lib.rs")],
  observe=["gradient vs. an independent forward-mode reference", "parameter trajectory of faulty vs. fault-free run"])

p("C09", "An expression that says it does not contain a variable is independent of it",
  "If an expression reports that it does not contain a variable, then nothing that happens to that variable - changes, resizes, outages, at any moment - affects any result of the expression. "
  "If it reports that it does contain a variable (other than as the name of a memo slot), then its value cannot be computed while that variable is unavailable, unless a filled memo slot covers every occurrence. "
  "The same holds for gradient expressions, for which the differentiation target counts as contained wherever a source is differentiated.",
  ["programs", "schedules", "fault_sequences", "histories"],
  "All expression trees and their gradients, every variable, and every schedule of interference with that variable.",
  "Containment has no test in the suite; it is implemented per node and by a derive macro for operators.",
  [B+"lib.rs", "aegir_derive/src/ops.rs"] + META,
  [("containment is the disjunction over operand fields", "aegir_derive/src/ops.rs"),
   ("sources compare identifiers, memo nodes add their slot", "aegir/src/meta")],
  observe=["contains() against behaviour under interference"])

p("C10", "Bulk buffer operations visit each element once, even if a callback fails",
  "Building, mapping, in-place updating, folding and combining a buffer of any kind call the user's callback exactly once per element (at most once if it fails midway), with that element's own value(s) and index, and put each result where it belongs; folds proceed in index order; combining a scalar with a buffer keeps the operand order. "
  "Building from a list of positions gives the base value everywhere else, whatever the list (empty, repeated, unordered, abandoned midway). "
  "If a callback fails midway, elements of an in-place update are each either old or new, the other operand is untouched, nothing leaks or is dropped twice, and the same operation run afterwards is correct.",
  ["crash_points", "inputs", "configurations", "histories"],
  "All buffer kinds (scalars, tuples, vectors of any length, arrays of rank 1-5 with unequal dimensions, user-defined), all element types, all operations, all callback failure points, all position streams.",
  "The tests use square or tiny one-dimensional float buffers, infallible callbacks, and cover build/map/fold of two kinds only.",
  BUF + [B+"buffers/shapes/mod.rs"],
  [("per-kind implementations of build, subset build, map, in-place update, fold, zip", "aegir/src/buffers/{scalars,tuples,vecs}.rs, aegir/src/buffers/arrays/*.rs"),
   ("default implementations in terms of shape and index", "aegir/src/buffers/mod.rs")],
  observe=["callback call log, buffer contents after completion or unwinding"])

p("C11", "A generated context is a set of independent registers",
  "A context type produced by the library's macros behaves, for every history of reads (dense, structured, shape), writes (dense, structured) and memo-slot writes by interleaved clients, like independent registers: each read returns the last value written to that identifier, all three kinds of read agree, and no operation on one identifier affects another. "
  "A memo slot is empty until first written and an ordinary field is never empty. "
  "An operation that fails midway inside the buffer's own code leaves every register with its old or its new value, and evaluating expressions against such a context changes nothing but memo slots.",
  ["histories", "schedules", "crash_points", "configurations"],
  "All interleavings of clients over all generated forms (declared, derived, generic, anonymous), field kinds and buffer types, including buffers whose copying can fail at any point.",
  "The tests only build contexts and read them once; write, structured write, shape reads, memo fields and identity between fields are never tested.",
  ["aegir_derive/src/ctx/derive.rs", "aegir_derive/src/ctx/ctx_type.rs", "aegir_derive/src/ids.rs", B+"lib.rs"],
  [("one read/write implementation per identifier, bound to its field", "aegir_derive/src/ctx/derive.rs"),
   ("generic struct generation with memo modifiers", "aegir_derive/src/ctx/ctx_type.rs"),
   ("default read/write adapters", "aegir/src/lib.rs")],
  state=[("field", "current value of the identifier", "generated struct"), ("memo field", "optional value", "generated struct")],
  observe=["read/read_spec/read_shape results over the history, against a register model"])

p("C12", "Printing to a sink that fails reports the failure and stops writing",
  "Displaying or debug-printing any expression, error, shape or identifier to a sink that fails at any point reports the failure; what the sink accepted is a prefix of the full text, and nothing more is written after the failure. "
  "A later attempt with a working sink produces the full text, identical every time, and it never panics. "
  "The text of an identifier is its declared symbol (its own name when none was declared; for the library's own identifiers the letter they are named after), the text of a fixed shape lists every dimension in order, and the text of an error contains what it carries: the identifier, or both shapes. "
  "Printing evaluates nothing and touches no context.",
  ["fault_sequences", "crash_points", "programs"],
  "All printable expressions, gradients, errors and shapes; every sink failure point (after any byte or write), transient failures, short sinks.",
  "Display tests (two operators) format into an infallible string.",
  [B+"fmt.rs", B+"errors.rs", B+"buffers/shapes/mod.rs", B+"buffers/shapes/compiled.rs", B+"buffers/shapes/runtime.rs", B+"meta/mod.rs"] + META + OPS + ["aegir_derive/src/ids.rs"],
  [("formatting builds the text first and writes it, or writes parts and propagates errors", "aegir/src/fmt.rs and Display impls"),
   ("multi-part shape text", "aegir/src/buffers/shapes/compiled.rs")],
  observe=["bytes offered to and accepted by the sink, the returned result"])

p("C13", "Index cursors enumerate every position once, in order, however they are driven",
  "The cursor over a shape's positions yields every valid position exactly once in row-major order (last axis fastest) and then ends for good, and the number of positions equals the shape's cardinality, including shapes with zero-length axes. "
  "This holds however the cursor is driven: advanced piecemeal by interleaved clients, copied midway (copies are independent), abandoned, or consumed in bulk; at every point the remaining-count bounds it reports bracket the true remaining number and its count equals it. "
  "A position is reported as inside the shape exactly when the cursor yields it.",
  ["histories", "schedules", "inputs", "configurations"],
  "All shapes of rank 0-6, fixed and run-time sized, all interleavings of next/copy/count/size-bounds/skip/bulk operations on any number of cursors.",
  "Two doc examples collect a whole one-dimensional cursor; partial progress, copying, counting midway and zero-length axes are untested.",
  [B+"buffers/shapes/multi_product.rs", B+"buffers/shapes/runtime.rs", B+"buffers/shapes/compiled.rs", B+"buffers/shapes/mod.rs"],
  [("hand-written multi-axis product iterator with partial state", "aegir/src/buffers/shapes/multi_product.rs"),
   ("compile-time shapes' boxed product", "aegir/src/buffers/shapes/compiled.rs")],
  state=[("axis state", "current value and the remaining range per axis", "aegir/src/buffers/shapes/multi_product.rs")],
  observe=["sequence of positions, size bounds and counts, against a reference odometer"])

p("C16", "A program of dual numbers carries the derivative, however it is interrupted",
  "A program of dual-number operations - sums, differences, products and negations of value-with-gradient pairs, by value or by reference, with other pairs or with plain values, starting from constants (zero gradient), variables (gradient of ones) and given pairs, and conjugates (gradient negated) - carries at every step the value and the gradient that the rules of differentiation give, whichever mixture of forms is used and however often a register is reused. "
  "An operation cut short in the middle of any arithmetic operation leaves its borrowed operands intact and leaks nothing, and gives the right result when it is retried.",
  ["programs", "histories", "fault_sequences", "inputs"],
  "All programs over any number of registers, for scalar, scalar-with-vector-gradient and vector pairs (including vectors of length zero); every arithmetic operation as interruption point.",
  "A few sums, differences and products of two scalars are asserted; plain operands, references, conjugates, vectors and programs of more than one step are untested.",
  [B+"dual.rs"],
  [("operator overloads on the pair type, one per operand form", "aegir/src/dual.rs"),
   ("constants and variables built with the buffer's class", "aegir/src/dual.rs")],
  observe=["value and adjoint of the result of every operation, against dual arithmetic of our own"])

p("C17", "Joining, splitting and broadcasting shapes carries every position across",
  "Joining two shapes gives the shape whose dimensions are the left's followed by the right's, and joining a position of the left with a position of the right gives the corresponding position of the joined shape. So walking the right's cursor from the start (anew, or as a copy) for every step of the left's cursor passes through the positions of the joined shape exactly once and in its own cursor's order, however the walks are interleaved, skipped, interrupted and resumed. "
  "Splitting a shape or a position undoes joining. A position counts as diagonal exactly when all its components are equal. "
  "Broadcasting a run-time shape against another gives that shape if the sizes are equal at that moment and otherwise an error carrying left and right sizes (swapped by reversing the error); a scalar is neutral on either side, and a fixed shape broadcasts to itself.",
  ["histories", "schedules", "inputs", "configurations"],
  "All pairs of shapes that can be joined (fixed, total rank up to 6; run-time, up to 6+6), all interleavings of nested walks, all resizing histories of run-time shapes.",
  "Two doc examples join two one-dimensional shapes; joined positions, splitting of positions, higher ranks and run-time shapes are untested.",
  [B+"buffers/shapes/mod.rs", B+"buffers/shapes/compiled.rs", B+"buffers/shapes/runtime.rs", B+"buffers/shapes/multi_product.rs"],
  [("macro-generated joins per pair of ranks", "aegir/src/buffers/shapes/compiled.rs, aegir/src/buffers/shapes/runtime.rs"),
   ("splits of matrices and rank-4 shapes", "aegir/src/buffers/shapes/compiled.rs"),
   ("broadcast of run-time shapes", "aegir/src/buffers/shapes/runtime.rs")],
  observe=["joined and split positions, the joined shape's own cursor, the outcome of broadcasts"])

# ---- stated, but outside what this family can address --------------------------------------
p("C14", "The printed formula denotes the expression",
  "The text of an expression, read with the usual conventions, denotes the same function as the expression itself, including after simplification of zeros and ones and placement of brackets.",
  ["programs"], "All expression trees.",
  "Two operators' texts are asserted.", [B+"fmt.rs"] + OPS,
  [("symbolic text with zero/one folding and bracket hints", "aegir/src/fmt.rs, to_expr impls")])
p("C15", "The expression macro builds the operator tree its source text denotes",
  "For every source text it accepts, the expression macro produces the operator tree given by the text's precedence and associativity, and it rejects the rest at compile time.",
  ["programs"], "All token sequences.",
  "A dozen expressions are compared.", ["aegir_compile/src/lib.rs"],
  [("recursive descent over token trees", "aegir_compile/src/lib.rs")])
p("C18", "Special and trigonometric functions are numerically accurate",
  "Each transcendental or special operator is accurate to within a small multiple of machine precision over its whole domain and returns the conventional limits at its boundary.",
  ["inputs"], "All floating-point inputs.",
  "A few points per operator.", [B+"ops/special.rs", B+"ops/trig.rs", B+"ops/logarithmic.rs", B+"ops/sigmoid.rs"],
  [("delegation to the number type's functions", "aegir/src/ops/special.rs, aegir/src/ops/trig.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
