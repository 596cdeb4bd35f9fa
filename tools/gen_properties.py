#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line).  Kept as a script so the text stays readable."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": list(observe), "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Active numbers carry the exact directional derivative",
 "Evaluating any composition of the supported arithmetic operations and elementary functions on active numbers yields, as first-order part, the directional derivative of that composition along the seeded direction, at every point where all steps are differentiable and no intermediate overflows or underflows. For abs, min and max the first-order part is the increment of their piecewise-linear model (|v+dv|-|v| for abs). Mixing with plain floats on either side, and compound assignment, differentiates exactly as if the plain float were a constant active number.",
 ["programs", "inputs"], "every straight-line program over the operation alphabet, every operand (value, direction) in the domain",
 "Unit tests evaluate one polynomial-like program at x=2 and nine functions at x=0.5 (the latter without taking absolute value of the difference); products of operations, operand aliasing, constants on either side, negative/zero/huge operands are not reached.",
 ["src/afloat.rs", "src/operation.rs"],
 [("from_op computes value and derivative together", "src/afloat.rs:AFloat::from_op"), ("first_order_value", "src/operation.rs")],
 observe=["AFloat::value", "AFloat::dvalue"])

prop("C02", "Active numbers compute the same values as plain floats",
 "For every supported numeric operation, named constant, predicate, comparison and conversion to or from primitive numbers, an active number's value part equals what the plain float type gives for the same operands, up to rounding; this holds for negative operands and zeros and, for operations whose definition is not built from others, also for zeros of either sign, very large or small operands, infinities and NaN. Whether an operand is being recorded, and what its first-order part is, never changes a value. Operations that are not supported panic instead of returning a number.",
 ["inputs", "programs"], "every operation of the numeric interface, every operand combination",
 "The tests compare a handful of evaluations inside the easy domain; conversions, predicates, named constants, negative and boundary operands are not compared with the float type anywhere.",
 ["src/afloat.rs", "src/operation.rs", "src/scalar.rs"],
 [("Float/Num/NumCast/ToPrimitive/PartialOrd implementations", "src/afloat.rs"), ("zero_order_value", "src/operation.rs")],
 observe=["AFloat's num::Float interface", "AFloat::value"])

prop("C03", "A recorded tape replays the function at any other input",
 "A tape recorded from a program without input-dependent branches stores the values of that evaluation and, re-evaluated at any other input, yields exactly what evaluating the program there directly yields, for every output (including outputs that are inputs, constants, or listed more than once). Re-evaluation may be repeated any number of times in any order and depends only on the last input.",
 ["programs", "inputs", "histories"], "every straight-line program, recording point, sequence of replay points, choice of outputs",
 "One arithmetic program is recorded at 0 and replayed at 3; other operations, constants in either position, repeated replay, aliasing of outputs and long tapes are not tried.",
 ["src/acontext.rs", "src/afloat.rs", "src/tape.rs", "src/operation.rs", "src/function.rs"],
 [("from_op records constants and operations", "src/afloat.rs"), ("Tape::zero_order", "src/tape.rs"), ("Function::tape", "src/function.rs")],
 observe=["Tape::x", "Tape::y", "Tape::values"])

prop("C04", "Tape forward sweep gives the directional derivative",
 "For a recorded tape evaluated at a point, the forward sweep along any direction returns for every output the directional derivative of the recorded function there (for abs, min and max: the increment of the piecewise-linear model), and agrees with tapeless evaluation with the same seeds. Constants contribute nothing, and the result does not depend on earlier sweeps or replays at other points.",
 ["programs", "inputs"], "every straight-line program, point in the differentiable domain, direction",
 "Forward sweeps are tested on one 1-input arithmetic program and on single unary functions at 10 points; multi-input tapes, powers with active exponents, abs increments, constants and aliasing are not reached.",
 ["src/tape.rs", "src/operation.rs"],
 [("Tape::first_order_forward", "src/tape.rs"), ("Operation::first_order", "src/operation.rs")],
 observe=["Tape::first_order_forward"])

prop("C05", "Tape reverse sweep gives the transposed Jacobian product",
 "For a recorded tape of a differentiable function and any output weights, the reverse sweep returns the weighted sum of the output gradients with respect to every input; in particular weights of outputs that share a variable, are inputs or are constants all count, and <weights, J*dx> equals <reverse sweep, dx> for every dx. A tape containing abs is refused by the reverse sweep rather than given a wrong gradient.",
 ["programs", "inputs"], "every straight-line program, point in the differentiable domain, weight vector, choice of outputs",
 "Only single-output tapes of one or two operations are swept; several outputs, repeated outputs, fan-out of intermediate values, aliasing of operands and constant outputs are not tested.",
 ["src/tape.rs", "src/operation.rs"],
 [("Tape::first_order_reverse", "src/tape.rs"), ("Operation::first_order_reverse", "src/operation.rs")],
 observe=["Tape::first_order_reverse"])

prop("C06", "Jacobian drivers return the m x n Jacobian",
 "For every differentiable function and point, the forward driver (from the function) and the reverse driver (from the tape evaluated at that point) both return the m-by-n matrix whose entry (i,j) is the partial derivative of output i by input j. This holds for every shape, including more inputs than outputs or the reverse, single rows or columns, zero outputs, and large dimensions; a point of the wrong dimension is rejected.",
 ["programs", "inputs", "configurations"], "every differentiable function, point, and pair (n, m)",
 "Both drivers are tested on one square 2x2 function at one point.",
 ["src/drivers/jacobian.rs", "src/tape.rs", "src/operation.rs", "src/afloat.rs"],
 [("jacobian_forward seeds unit directions", "src/drivers/jacobian.rs"), ("jacobian_reverse seeds unit weights", "src/drivers/jacobian.rs")],
 observe=["jacobian_forward", "jacobian_reverse"])

prop("C07", "The abs-normal form represents the function around the point",
 "The dense abs-normal form (a, Z, L, b, J, Y) at a point reproduces the piecewise linearisation: with z solved from z = a + Z dx + L|z|, the value b + J dx + Y|z| is the increment of the piecewise-linear model along dx, and it is the exact increment of the function when the function itself is piecewise linear. Z, L, J, Y are the partial derivatives of switching variables and outputs by inputs and absolute values, L is strictly lower triangular, and this holds for all numbers of inputs, outputs and switching variables, including none.",
 ["programs", "inputs", "configurations"], "every abs-factorable program, base point, direction, shape (n, m, s)",
 "One function with n=2, m=1, s=2 is compared with a hand-written form on a grid, plus one two-term function; shape-dependent branches (n<s, n<m, s<m), shared or nested abs arguments and outputs that are inputs are not reached.",
 ["src/drivers/abs_normal.rs", "src/tape.rs", "src/operation.rs"],
 [("abs_normal", "src/drivers/abs_normal.rs"), ("AbsNormalTape decomposition", "src/drivers/abs_normal.rs")],
 observe=["abs_normal", "AbsNormalTape::{x,y,z,n,m,s}"])

prop("C08", "Abs-normal operators multiply like their matrices",
 "For each of the four abs-normal operators, multiplying from the right or from the left by any matrix of compatible size gives the same result as multiplying its dense matrix, rows and columns extracted from it are the rows and columns of that matrix, and its reported dimensions are right. Operands of incompatible size are rejected. As a tape from inputs and absolute values to switching variables and outputs, the decomposed tape replays and sweeps as these four blocks together.",
 ["inputs", "programs", "configurations"], "every abs-factorable program, base point, operand matrix and shape",
 "The tests multiply by identity matrices only, for one function with s=2; row and column extraction are never called.",
 ["src/drivers/abs_normal.rs", "src/tape.rs"],
 [("mul_right / mul_left / row / column", "src/drivers/abs_normal.rs:anf_matrix!")],
 observe=["AbsNormalZ/L/J/Y::{mul_right,mul_left,row,column,nrows,ncols}"])

prop("C09", "The generalized Jacobian is an element of the piecewise-linear model",
 "The generalized Jacobian (G, g) at x in direction dx satisfies G*dx + g = increment of the piecewise-linear model along dx, with the sign of every non-zero switching variable taken from the model at dx and the signs of the zero ones taken, in order, from the supplied bits (least significant first; missing bits count as negative). The reported multiplicity is the number of zero switching variables. Passing the generalized Jacobian of a following function yields that of the composition, with the multiplicities added.",
 ["programs", "inputs", "configurations"], "every abs-factorable program, x, dx, sign bits, following Jacobian",
 "One 2-input function with two switching variables is compared on a grid with zero bits only; other sign bits, more than one tie, more than eight ties, shared arguments and non-identity followers are not tested.",
 ["src/drivers/generalized_jacobian.rs", "src/drivers/abs_normal.rs"],
 [("generalized_jacobian_tape", "src/drivers/generalized_jacobian.rs"), ("bit_iter", "src/drivers/generalized_jacobian.rs")],
 observe=["generalized_jacobian", "generalized_jacobian_tape", "GeneralizedJacobian fields"])

prop("C10", "A function chain behaves as the composition of its members",
 "A chain built from functions and chains, nested in any way, evaluates (actively, with plain floats, and when recorded) to the composition of its members in order; its input and output dimensions are those of the first and last member, its length and element access follow the flattened sequence of elementary functions. Appending a function whose input dimension does not match is rejected.",
 ["programs", "configurations"], "every sequence and nesting of functions with compatible dimensions, every input",
 "Two flat chains of three sums are evaluated at the all-ones vector; nesting, element access and rejection are untested.",
 ["src/function.rs"],
 [("FunctionChain::{append,iter,len,nth}", "src/function.rs"), ("Function::eval for chains", "src/function.rs")],
 observe=["FunctionChain::{n,m,len,nth,iter,eval,eval_float,tape}"])

prop("C11", "Chain Jacobians do not depend on chaining or checkpoint budget",
 "The generalized Jacobian of a chain equals that of the composed function evaluated directly in the same direction (G*dx + g is the chain's piecewise-linear increment, smooth parts multiply by the chain rule, ties resolved to negative), for every chain length from one up and every checkpoint budget of at least two, and for the default budget. Multiplicities add over the members.",
 ["programs", "inputs", "configurations"], "every chain, point, direction, checkpoint budget",
 "One two-member chain with the default budget is compared on a grid.",
 ["src/drivers/generalized_jacobian.rs", "src/drivers/checkpointing.rs", "src/function.rs"],
 [("generalized_jacobian_chain", "src/drivers/generalized_jacobian.rs"), ("reverse_sequence", "src/drivers/checkpointing.rs")],
 observe=["generalized_jacobian_chain"])

prop("C12", "Checkpointed reversal equals plain reversal",
 "Reversing a sequence with any number of steps (including none) and any checkpoint budget of at least two returns exactly what storing every state and reversing would return: the terminal function is applied once, to the final state, and the reverse step once for each earlier state, last to first, each with the state that forward steps produce at that position. It terminates without panicking for every such pair; a budget below two is rejected.",
 ["histories", "configurations"], "every step count and checkpoint budget >= 2 (bounded in the check)",
 "One pair (37 steps, 9 checkpoints) with a commutative reverse step is run, so even a permuted order would pass; schedules are compared for a handful of pairs.",
 ["src/drivers/checkpointing.rs"],
 [("schedule/next_checkpoint/find_t", "src/drivers/checkpointing.rs"), ("reverse_sequence", "src/drivers/checkpointing.rs")],
 observe=["calls made to the forward/reverse/identity callbacks, result"])

prop("C13", "Checkpointed reversal stays within its memory and work budget",
 "While reversing, no more states are kept at any time than the checkpoint budget plus the one being advanced. The number of forward steps is that of binomial checkpointing: it is the least number possible when the states kept, including the one about to be reversed, may not exceed the budget; so with enough checkpoints no step is ever recomputed.",
 ["histories", "configurations"], "every step count and checkpoint budget >= 2 (bounded in the check)",
 "No test counts stored states or forward steps.",
 ["src/drivers/checkpointing.rs"],
 [("next_checkpoint (binomial splitting)", "src/drivers/checkpointing.rs"), ("checkpoints deque", "src/drivers/checkpointing.rs:reverse_sequence")],
 observe=["live clones of the state type, number of forward callbacks"])

prop("C14", "Concurrent recordings in separate contexts do not interfere",
 "Threads that each record into a context of their own obtain, under every interleaving, exactly the tape, values and derivatives a sequential run gives. Context identities are never shared or reused, every dropped context disappears from the registry, and no interleaving deadlocks or panics.",
 ["schedules"], "every interleaving of the threads' atomic operations (bounded preemptions)",
 "Tests never use a context from more than one thread; the test runner's threads are scheduled by the OS and observe nothing.",
 ["src/acontext.rs", "src/afloat.rs"],
 [("NEXT_CONTEXT_ID fetch_add", "src/acontext.rs"), ("CONTEXT_MAP mutex, Weak entries", "src/acontext.rs"), ("per-context mutex", "src/acontext.rs")],
 state=[("CONTEXT_MAP", "registry of live contexts", "src/acontext.rs"), ("NEXT_CONTEXT_ID", "identity counter", "src/acontext.rs")],
 observe=["AContext::{cid,tape,operations,values}", "AContext::from_cid"])

prop("C15", "Threads sharing one context record a consistent tape",
 "When several threads compute with variables of one context, every interleaving records each operation exactly once with its own operands, so every result is reproduced when the tape is replayed. A tape taken meanwhile is a snapshot of one moment: every value it refers to is one of its own inputs, constants or earlier results. Dropping the context while others compute changes no value or derivative, and nothing deadlocks or panics.",
 ["schedules"], "every interleaving of the threads' atomic operations (bounded preemptions)",
 "No test shares a context between threads or takes a tape during recording.",
 ["src/acontext.rs", "src/afloat.rs"],
 [("record under the context mutex", "src/acontext.rs:AContext::record"), ("tape()", "src/acontext.rs:AContext::tape"), ("from_cid upgrade", "src/acontext.rs")],
 state=[("AContextInner", "indeps, deps, ops, vals of one recording", "src/acontext.rs")],
 observe=["AContext::tape", "AContext::from_cid"])

prop("C16", "Recordings are isolated and end with their context",
 "Over every history of creating, using and dropping contexts and variables: an operation is recorded in exactly the context its operands belong to and in no other; after a context is gone its variables still compute the right values and derivatives among themselves and with plain numbers, and are never picked up by another context; lookup by identity succeeds exactly while the context lives; identities are never reused. Combining variables of two contexts, or marking a foreign variable as output, is refused without changing either recording.",
 ["histories"], "every sequence of context and variable operations up to a depth, with several contexts alive",
 "Tests create one context at a time and check presence in the registry once before and once after.",
 ["src/acontext.rs", "src/afloat.rs"],
 [("context id carried by each variable", "src/afloat.rs"), ("Drop for AContextInner", "src/acontext.rs"), ("assert on mixed ids", "src/afloat.rs:from_op")],
 state=[("AFloat.ctx", "context and value id of a variable", "src/afloat.rs")],
 observe=["AContext::{operations,values,indeps,deps,from_cid,cid}", "AFloat::{value,dvalue}"])

prop("C17", "Parallel drivers give the same result under every schedule",
 "Jacobians, abs-normal forms, operator products and generalized Jacobians are the same for every number of worker threads, every way the work is split among them and every order or interleaving in which the pieces run, also when several user threads call drivers on the same tape or function at once, and also when the function itself records tapes while being evaluated.",
 ["schedules", "configurations"], "every split, execution order and bounded interleaving of the parallel tasks",
 "Tests run the drivers on matrices of two rows on whatever schedule the OS provides; a wrong row order or shared scratch state would rarely show.",
 ["src/drivers/jacobian.rs", "src/drivers/abs_normal.rs", "src/drivers/generalized_jacobian.rs"],
 [("index-tagged map/reduce over rows and columns", "src/drivers/jacobian.rs, src/drivers/abs_normal.rs")],
 observe=["driver results"])

prop("C18", "The C++ interface computes and records what Rust does",
 "Every arithmetic operator (active with active, active with double, double with active), elementary function and min/max of the C++ interface yields the same value and records the same function as the corresponding operation in Rust, for every composition of them; variables created independent or marked dependent through C++ are exactly the inputs and outputs of the recording. The plain-double overloads equal the standard functions.",
 ["programs", "inputs"], "every composition of C++ operations up to a depth, every operand",
 "The C++ tests only call the operators and check no result (except two min/max calls on doubles); they are not part of the baseline.",
 ["src/cxx/ADouble.cpp", "src/cxx/AContext.cpp", "src/ffi.rs", "include/adv/ADouble.hpp", "include/adv/AContext.hpp"],
 [("BINARY_OP_IMPL / UNARY_FUNC_IMPL", "src/cxx/ADouble.cpp"), ("binary_operation!/unary_function!", "src/ffi.rs")],
 observe=["recorded tape behind a C++ context"])

prop("C19", "C++ objects own their Rust counterparts exactly once",
 "Over every sequence of constructing, copying, moving, assigning (including to itself), using and destroying C++ variables and contexts, each underlying Rust object is released exactly once, none is used after release and none is leaked. Copies are independent of their source, an assigned-to or copied variable has the source's value and recording position, and a moved-from variable can still be used, assigned and destroyed.",
 ["histories"], "every sequence of lifetime operations on a small set of C++ objects up to a depth",
 "The C++ tests construct and destroy objects without copying, moving or assigning.",
 ["src/cxx/ADouble.cpp", "src/cxx/AContext.cpp", "src/ffi.rs"],
 [("copy/move constructors and assignments", "src/cxx/ADouble.cpp, src/cxx/AContext.cpp"), ("adv_*_free", "src/ffi.rs")],
 observe=["calls crossing the C interface", "AddressSanitizer on the C++ side"])

prop("C20", "Functions defined with adv_fn! are what they are declared to be",
 "Every form of function definition the macro accepts (named vector or destructured arguments, with or without attributes, visibility, extra arguments, trailing comma, computed dimensions) compiles and defines a function that evaluates its body for plain and active scalars alike and passes extra arguments through unchanged. The associated function object reports the declared dimensions and evaluates and records the same function, and calls with a wrong argument or result dimension are rejected.",
 ["programs", "configurations"], "every combination of the macro's syntactic options, every dimension and argument",
 "A handful of forms are used by tests; combinations such as attributes with destructured arguments are never expanded.",
 ["src/macros.rs", "src/function.rs"],
 [("adv_fn!, adv_fn_obj!, adv_dvec!", "src/macros.rs"), ("SimpleFunction", "src/function.rs")],
 observe=["compilation of the expansion", "Function::{n,m,eval,eval_float,tape}"])

prop("C21", "Single precision and nested active numbers behave like double",
 "Active numbers over single precision compute values and derivatives as over double precision up to single-precision rounding, also when mixed with double operands and when recorded. Active numbers nested in active numbers yield second derivatives, and recording them stores their numeric values, so that the tape replays the function. Converting between precisions keeps value, derivative and recording position.",
 ["programs", "inputs"], "every straight-line program, base type (f32, f64, nested) and operand",
 "Only AFloat<f64> is ever instantiated in the tests.",
 ["src/afloat.rs", "src/operation.rs", "src/acontext.rs"],
 [("generic from_op and cast", "src/afloat.rs"), ("record casts values to f64", "src/acontext.rs")],
 observe=["AFloat<f32>, AFloat<AFloat<f64>> values, derivatives and tapes"])

prop("C22", "Recorded tapes are well-formed and describe themselves correctly",
 "In every tape recorded from a program, each value is defined exactly once, as an input, a constant or the result of one operation; operations appear in evaluation order and refer only to values defined before them; outputs refer to defined values. The tape's queries (numbers of inputs, outputs and abs operations, largest value id, stored inputs and outputs) agree with its contents, and inputs and outputs appear in the order in which they were declared.",
 ["programs", "histories"], "every recording history: declarations, operations and constants in any order",
 "Three two-operand recordings are inspected.",
 ["src/acontext.rs", "src/tape.rs", "src/function.rs", "src/drivers/abs_normal.rs"],
 [("vid = vals.len() under the lock", "src/acontext.rs"), ("Tape default queries", "src/tape.rs")],
 observe=["Tape::{indeps,deps,ops_iter,values,num_indeps,num_deps,num_abs,max_id,x,y}"])

prop("C23", "Tapes are independent snapshots and sweeps leave no trace",
 "Over every history of recording further operations, taking tapes, cloning, replaying, sweeping forward and in reverse, and decomposing: derivative sweeps and drivers never change a tape; a replay changes only the tape it is called on; a tape or clone never changes because the context or another tape went on; and every result depends only on the tape's program and its last replay point. A replay at a wrong number of inputs is refused and leaves the tape unchanged.",
 ["histories"], "every sequence of tape operations up to a depth over several tapes of one context",
 "Tests use each tape for one replay and one sweep.",
 ["src/tape.rs", "src/acontext.rs", "src/drivers/abs_normal.rs", "src/drivers/jacobian.rs"],
 [("AContextTape owns copies", "src/acontext.rs"), ("sweeps use scratch vectors", "src/tape.rs")],
 observe=["Tape::{values,y,first_order_forward,first_order_reverse}"])

prop("C24", "Tapes put together by hand behave as the operations they consist of",
 "A tape implemented outside the library from operations, with its values in slots of any order and spacing, with constants and no-operations in between, replays, sweeps forward and in reverse, is driven and is decomposed exactly as the program its operations spell out, reads and writes no other slots, and answers its queries from its contents. The constructors of operations give the operation, result and arguments they are called with. Operations entered into a context directly are recorded as given, next to those recorded by active numbers.",
 ["programs", "configurations"], "every straight-line program of elementary operations, every arrangement of its values",
 "Tests only use tapes made by the recorder, whose values are numbered consecutively and which contain no no-operations.",
 ["src/tape.rs", "src/operation.rs", "src/acontext.rs", "src/drivers/abs_normal.rs"],
 [("trait Tape with its provided methods", "src/tape.rs"), ("Operation constructors", "src/operation.rs"), ("AContext::record", "src/acontext.rs")],
 observe=["Tape::{zero_order,first_order_forward,first_order_reverse,max_id} of a user's tape", "Operation fields"])

prop("C25", "A failure in the middle of a call leaves nothing behind",
 "When user code called by the library (a function being evaluated, recorded or driven, a step of a sequence, the copying of its elements, code between recorded operations) fails at any point, or the library refuses a call, the failure reaches the caller; recordings begun by the call end, elements of a sequence are released, tapes, contexts and variables that exist are as they were, and every later call, also on the same worker thread, gives what it gives without the failure.",
 ["faults", "histories"], "every point at which user code can fail in every kind of call, and every sequence of such failures",
 "Tests never let a function fail and never go on after a refused call.",
 ["src/function.rs", "src/acontext.rs", "src/tape.rs", "src/drivers/jacobian.rs", "src/drivers/abs_normal.rs", "src/drivers/generalized_jacobian.rs", "src/drivers/checkpointing.rs"],
 [("Function::tape", "src/function.rs"), ("locks are not held while user code runs", "src/acontext.rs"), ("drivers run user code on the thread pool", "src/drivers/jacobian.rs")],
 observe=["the panic and its message", "AContext::from_cid of contexts begun", "results of later calls"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
