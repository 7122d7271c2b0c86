# executed by make_meta.py
FRONT = ["ein/frontend/ndarray.py", "ein/frontend/comprehension.py"]
PHI = ["ein/phi/phi.py", "ein/phi/type_system.py"]
MID = ["ein/midend/lining.py", "ein/midend/structs.py", "ein/midend/substitution.py",
       "ein/midend/size_classes.py", "ein/midend/equiv.py"]
CODEGEN = ["ein/codegen/phi_to_yarr.py", "ein/codegen/array_indexing.py",
           "ein/codegen/axial.py", "ein/codegen/yarr.py"]
TRUST = ("Trusts the reference interpreter in einpbt/ref.py (an element-at-a-time evaluator over "
         "Python ints, bools and error-bounded floats, which shares no code with ein) and the "
         "installed array libraries; explores a bounded random sample, not all programs.")
PIPE = [
    ("normalisation of the program: outlining, inlining, splitting records into components",
     "ein/midend/lining.py, ein/midend/structs.py"),
    ("translation of points to whole-array axes", "ein/codegen/phi_to_yarr.py transform"),
    ("alignment of positional axes and broadcasting", "ein/codegen/axial.py"),
]

P("C01", "NumPy evaluation computes the meaning of every well-typed program",
  "For every well-typed Ein program and every input, evaluating it with the NumPy backend returns "
  "an array of exactly the shape and kind (bool, int, float) the program denotes, whose every element equals "
  "what a direct element-by-element reading of the program gives: an array comprehension is its "
  "function at each index, a fold is a for-loop, an index reads the element. This holds for any nesting and sharing of "
  "comprehensions, folds, reductions, records, conditionals, concatenations and indexing, for sizes that are zero or one, as long as loop counts do not vary along the axes of an enclosing comprehension.",
  ["programs", "inputs"], "all well-typed programs over the public combinators and all input arrays",
  "The tests evaluate about fifty hand-written programs on a few inputs; the compiler has interacting "
  "rewrites (einsum, gathers, slices and pads, axis alignment, record splitting) whose bugs need specific combinations of constructs.",
  CODEGEN + MID + ["ein/backend/numpy_backend.py", "ein/backend/array_backend.py"],
  PIPE + [("staging of whole-array operations onto NumPy", "ein/backend/numpy_backend.py stage")],
  "Property-based testing: typed random programs against an independent pointful reference interpreter", TRUST)
P("C02", "PyTorch evaluation computes the meaning of every well-typed program",
  "For every well-typed Ein program and every input, evaluating it with the PyTorch backend returns the shape, "
  "kind and element values that a direct element-by-element reading of the program gives. "
  "This includes empty arrays, reductions, gathers, padding, scalars and records.",
  ["programs", "inputs"], "all well-typed programs over the public combinators and all input arrays",
  "Only a handful of test programs are run with PyTorch, on fixed inputs; the backend maps every operation "
  "separately to library calls whose conventions differ from NumPy's.",
  ["ein/backend/torch_backend.py", "ein/backend/array_backend.py"] + CODEGEN,
  PIPE + [("staging of whole-array operations onto PyTorch", "ein/backend/torch_backend.py stage")],
  "Property-based testing: typed random programs against an independent pointful reference interpreter", TRUST)
P("C03", "JAX evaluation computes the meaning of every well-typed program",
  "For every well-typed Ein program whose sizes and loop counts are known from the shapes of its inputs, and every input, "
  "evaluating it with the JAX backend returns the shape, kind and element values that a direct "
  "element-by-element reading of the program gives.",
  ["programs", "inputs"], "all well-typed programs with statically known sizes and all input arrays",
  "Only a handful of test programs are run with JAX, on fixed inputs; tracing, static shapes and functional "
  "loops make this backend differ from the others.",
  ["ein/backend/jax_backend.py", "ein/backend/array_backend.py"] + CODEGEN,
  PIPE + [("staging of whole-array operations onto JAX", "ein/backend/jax_backend.py stage")],
  "Property-based testing: typed random programs against an independent pointful reference interpreter", TRUST)
P("C04", "The naive interpreter computes the meaning of every well-typed program",
  "For every well-typed Ein program and every input, the naive backend returns the shape, kind and element values that a "
  "direct element-by-element reading of the program gives, including for empty comprehensions, zero-iteration folds and records.",
  ["programs", "inputs"], "all well-typed programs over the public combinators and all input arrays",
  "The tests use the naive interpreter as the oracle for other backends, so its own mistakes on unsampled programs go unseen.",
  ["ein/backend/naive.py"] + PHI,
  [("direct recursive interpretation", "ein/backend/naive.py interpret"),
   ("per-node evaluation", "ein/phi/phi.py ufuncs and nodes")],
  "Property-based testing: typed random programs against an independent pointful reference interpreter", TRUST)
P("C05", "Every index reads the element at that position, clamped to the array",
  "For every array and every integer index expression, however it is written (an index plus or minus an offset, "
  "bounds taken with min and max, a position read from another array, a product or remainder, several at once), indexing yields "
  "the element at that position in each axis, and positions outside a non-empty axis yield its nearest edge element. "
  "The result never depends on which of gather, slice, pad or plain axis reuse the compiler picks for it, and a read that is selected away by a conditional or guarded as possibly empty never fails.",
  ["programs", "inputs"], "all index expressions over all array shapes and in all surrounding loops",
  "The tests use a few fixed stencils; slice, pad and gather selection depends on the symbolic form of the index and on sizes.",
  CODEGEN + ["ein/backend/numpy_backend.py", "ein/backend/torch_backend.py", "ein/backend/jax_backend.py", "ein/backend/naive.py"],
  [("classification of index expressions as shifts and clips", "ein/codegen/array_indexing.py"),
   ("lowering of Get to takes, gathers, slices and pads", "ein/codegen/phi_to_yarr.py")],
  "Property-based testing: indexing-heavy random programs against a pointful reference, all backends", TRUST)
P("C06", "A fold is a sequential loop over its count",
  "A fold returns the initial value updated by the step function for each counter 0, 1, ..., count-1 in that order, for scalar, array and "
  "record accumulators, and the initial value itself when the count is zero or negative. "
  "This holds whatever loop-free form the compiler finds for it: sums, products, minima, maxima, sums of products "
  "over one or several counters, with or without terms that do not depend on the counter.",
  ["programs", "inputs"], "all folds in all contexts, all counts and all inputs",
  "The compiler recognises sums, products, minima, maxima and linear-algebra contractions inside folds; the tests sample "
  "a few shapes of summand only.",
  ["ein/codegen/phi_to_yarr.py", "ein/codegen/yarr.py", "ein/frontend/comprehension.py"] + ["ein/backend/numpy_backend.py", "ein/backend/torch_backend.py", "ein/backend/jax_backend.py"],
  [("recognition of reductions and contractions in folds", "ein/codegen/phi_to_yarr.py"),
   ("loops over several accumulators", "ein/backend/*_backend.py Fold")],
  "Property-based testing: fold-heavy random programs against a pointful reference, all backends", TRUST)
P("C07", "A reduction combines all elements in order with the given monoid",
  "For every monoid (associative operation with identity, commutative or not, over scalars or records, possibly depending "
  "on surrounding indices) and every array of any length including zero and one, reducing the array gives the elements combined "
  "left to right. An empty array reduces to the identity.",
  ["programs", "inputs"], "all lawful monoids, all lengths, all surrounding comprehensions",
  "Reductions are evaluated by a halving scheme whose edge cases depend on the length; tests use few lengths and mostly commutative operations.",
  ["ein/codegen/phi_to_yarr.py", "ein/backend/array_backend.py", "ein/frontend/ndarray.py"],
  [("tree-shaped reduction by halving", "ein/backend/array_backend.py, ein/codegen/phi_to_yarr.py Reduce"),],
  "Property-based testing: generated lawful monoids and lengths against a sequential reference, all backends", TRUST)
P("C08", "Records keep their structure and their fields are independent",
  "Tuples, lists, dictionaries and frozen dataclasses of Ein values, nested in any way and inside arrays of any rank, come back "
  "from comprehensions, indexing, folds, reductions, conditionals and concatenations as the same kind of record (lists as tuples) with the same field names in the same order, and each "
  "field evaluates to what the program gives that field, whatever the fields are called. "
  "Arrays of records behave as arrays whose every element is that record.",
  ["programs", "inputs"], "all record shapes, field names and nestings, in all record-carrying constructs",
  "Tests cover a few fixed records; records are split into component arrays by the compiler and reassembled by layout.",
  ["ein/frontend/layout.py", "ein/frontend/ndarray.py", "ein/midend/structs.py"],
  [("layouts of records and their reconstruction", "ein/frontend/layout.py, ein/frontend/ndarray.py _to_array"),
   ("array-of-structs to struct-of-arrays", "ein/midend/structs.py")],
  "Property-based testing: generated record types and programs, structural comparison and per-field reference values", TRUST)
P("C09", "Inferred sizes agree with the arrays that are indexed",
  "Leaving out the size of a comprehension or the count of a fold gives the same result as passing explicitly the size of the axis that "
  "the index directly indexes, including when that array is itself computed, nested, or inside other loops. "
  "When the index is nowhere used directly to index an array available outside the loop, omitting the size raises ValueError instead of guessing one.",
  ["programs", "inputs"], "all comprehensions and folds without explicit size, in all contexts",
  "Inference picks among all direct uses after rewriting them out of scope; tests have only simple bodies.",
  ["ein/frontend/comprehension.py", "ein/midend/size_classes.py"],
  [("size inference", "ein/frontend/comprehension.py _infer_sizes"),
   ("sizes of expressions in closed form", "ein/midend/size_classes.py _dim_of")],
  "Property-based testing: metamorphic inferred-versus-explicit sizes, and rejection of uninferrable bodies", TRUST)
P("C10", "Programs are well typed at construction: misuse is rejected, results match",
  "Combining values of wrong kinds or structures (no implicit promotion between bool, int and float; non-scalar operands; non-integer indices and sizes; "
  "branches, accumulators or concatenated arrays of different structure; arguments of an external function that do not fit its declared signature; jagged sizes that depend on an index) raises an error when the program is built, anywhere in a program, never a wrong result later (== and != on whole arrays are Python identity). "
  "Whatever is accepted has the rank and scalar kind its construction implies, and evaluates to an array of that rank and kind on every backend.",
  ["programs"], "all operations applied to all combinations of operand types, in all contexts",
  "Tests assert a couple of type errors; the space of operand-kind combinations and contexts is not enumerated.",
  PHI + FRONT + ["ein/frontend/layout.py", "ein/value.py"],
  [("scalar signatures", "ein/phi/type_system.py resolve_scalar_signature"),
   ("types computed when a term is built", "ein/phi/phi.py node type properties")],
  "Property-based testing: generated well-typed contexts with one ill-typed node, against an independent typing table", TRUST)
P("C11", "Every optimisation setting gives the same results",
  "Each combination of the compiler's optimisation switches (gathers versus takes, slices and pads, slice elision, dynamic slices, "
  "recognised reductions, contractions, shape and tuple simplifications) produces the same values for every program and input.",
  ["configurations", "programs", "inputs"], "all combinations of switches, programs and inputs",
  "Tests run the default configuration only.",
  CODEGEN + MID,
  [("switches of the code generator", "ein/codegen/phi_to_yarr.py transform")],
  "Property-based testing: differential over random switch combinations against a pointful reference", TRUST)
P("C12", "Program transformations preserve type, free variables and meaning",
  "Each stage that rewrites a program on its way to a backend (sharing common subterms, undoing that sharing, turning arrays of records into records of arrays, "
  "substituting terms for free variables) yields a program with the same type, no new free variables, and the same value for every input.",
  ["programs", "inputs"], "all programs and inputs, each stage alone and in composition",
  "The stages are only tested through whole evaluations of a few programs; binding mistakes need shadowing, sharing across scopes or records in loops.",
  MID,
  [("outlining and inlining", "ein/midend/lining.py"), ("record splitting", "ein/midend/structs.py"),
   ("capture-avoiding substitution", "ein/midend/substitution.py")],
  "Property-based testing: each stage applied to random programs, evaluated before and after", TRUST)
P("C13", "Evaluation is a pure function of element values",
  "Evaluating any program never changes the caller's arrays, gives the same result each time it is repeated, in any order and on any backend, and its results do not share memory with "
  "later evaluations in a way that changes them. It prints nothing. The result depends on the inputs only through their shape, kind and element values, not on their memory layout, strides, writability or ownership.",
  ["histories", "inputs", "programs"], "all histories of evaluations over shared inputs and all memory layouts",
  "Tests use fresh contiguous arrays once; in-place operations on temporaries are an optimisation that can reach inputs.",
  ["ein/backend/array_backend.py", "ein/backend/numpy_backend.py", "ein/backend/torch_backend.py", "ein/value.py"],
  [("in-place operations restricted to fresh temporaries", "ein/backend/numpy_backend.py"),
   ("binding of inputs", "ein/value.py")],
  "Property-based testing: repeated and interleaved evaluations over layout variants with byte snapshots of inputs", TRUST)
P("C14", "Decorated functions equal direct evaluation for every call history",
  "A decorated function called with any sequence of arguments returns for each call what building and evaluating the body on those arguments gives, "
  "independent of earlier calls, shapes, kinds and backends; calls with PyTorch tensors, and calls through a backend method, give results of that library. "
  "Arguments that do not fit a declared signature are rejected, and calls never mix results of different shapes or kinds.",
  ["histories", "inputs", "programs"], "all call histories of decorated functions",
  "Tests call decorated functions once or twice with one shape.",
  ["ein/frontend/functions.py", "ein/frontend/typed.py", "ein/backend/__init__.py"],
  [("decorator and backend dispatch", "ein/frontend/functions.py"), ("typed signatures", "ein/frontend/typed.py")],
  "Model-based testing: random call histories of generated functions against a reference", TRUST)
P("C15", "Scalar operators follow their mathematical meaning on all values",
  "Each operator and method on scalars, written either way round and with Python numbers or Ein values on either side, computes the named function on every finite value and follows IEEE rules for infinities and NaN (up to the sign of zero; min and max of a NaN are NaN): comparisons, min and max,"
  " absolute value, integer and float powers, remainder with the sign of the divisor, division, hyperbolic tangent, sine, cosine, exponential. All backends agree.",
  ["inputs"], "all operators on all scalar values including infinities, NaN, zeros and extremes",
  "Tests apply operators to a few ordinary numbers with one backend.",
  ["ein/frontend/ndarray.py", "ein/phi/phi.py", "ein/backend/array_backend.py", "ein/backend/numpy_backend.py", "ein/backend/torch_backend.py", "ein/backend/jax_backend.py"],
  [("operator overloads", "ein/frontend/ndarray.py Scalar"), ("elementwise operations per backend", "ein/backend/*_backend.py")],
  "Property-based testing: operators on vectors of special and random values against Python's float and int semantics",
  "Trusts Python's math module and integer arithmetic; last-digit differences of library functions are tolerated.")
P("C16", "External functions are applied to exactly the element values",
  "A user's external function on scalars, or on vectors and matrices over trailing axes (operands of equal rank), used anywhere in a program is applied as if at every point separately: the result at each point is the function of the operand values at that point, "
  "for any number of operands varying along different axes, on the backends whose arrays it accepts.",
  ["programs", "inputs"], "all uses of elementwise external functions in all contexts",
  "Tests use a few extrinsics in simple positions; batching depends on the axes of each operand.",
  ["ein/phi/phi.py", "ein/codegen/phi_to_yarr.py", "ein/codegen/axial.py", "ein/frontend/ndarray.py"],
  [("batched application of extrinsics", "ein/codegen/phi_to_yarr.py Extrinsic")],
  "Property-based testing: random programs with external functions against per-point application", TRUST)
P("C17", "Printing and drawing programs never fails, never lies, never disturbs them",
  "Every program and every compiled program can be printed and turned into a graph; the printed text determines the program (reading it back gives a program with the same value) and "
  "is the same every time up to layout and the names of introduced variables. Printing changes neither the program nor later evaluations.",
  ["programs"], "all programs",
  "Tests never print programs.",
  ["ein/debug/pprint.py", "ein/debug/graph.py"],
  [("pretty printer", "ein/debug/pprint.py"), ("graph drawing", "ein/debug/graph.py")],
  "Property-based testing: print and parse-back round trip on random programs", TRUST)
P("C18", "Element types of any width give the same values, as precisely as they can",
  "Arrays of narrower element types (32-bit floats, 16- and 32-bit integers) can be used wherever 64-bit ones can, and mixed freely: for every program, "
  "each backend succeeds where it succeeds for 64-bit inputs and returns the shape, kind (bool, int, float) and values that the program denotes, up to the rounding of the narrowest float and as long as values stay in the range of the narrowest integer involved.",
  ["programs", "inputs"], "all programs and all assignments of element types to their inputs and constants",
  "Tests use 64-bit floats and integers throughout, but for single constants.",
  ["ein/term.py", "ein/value.py", "ein/backend/torch_backend.py", "ein/backend/jax_backend.py", "ein/backend/numpy_backend.py", "ein/phi/type_system.py"],
  [("kinds of values of any element type", "ein/phi/type_system.py"), ("conversions, contractions, gathers and loops in the backends", "ein/backend/*.py")],
  "Property-based testing: random programs over arrays of mixed element types against the pointful reference with wider error bounds", TRUST)
P("C19", "Library combinators mean what their names say",
  "Conditional selection over scalars, records and arrays, concatenation of two or more arrays, and the sum, minimum, maximum and argmin combinators (as folds or as reductions, with or without a given count) give for all inputs what their names say: "
  "totals, extreme values, the first position of the minimum, the arrays one after another. "
  "Empty ranges give zero, positive or negative infinity, or position zero.",
  ["programs", "inputs"], "all uses of the library combinators in all contexts and all inputs",
  "Tests use each combinator in one or two fixed programs.",
  ["ein/frontend/std.py", "ein/frontend/ndarray.py"],
  [("monoids and folds of the library", "ein/frontend/std.py")],
  "Property-based testing: library-heavy random programs against a pointful reference, all backends", TRUST)
P("C20", "Gradients through PyTorch and JAX are derivatives of the program",
  "For a smooth program, differentiating its PyTorch or JAX evaluation with respect to a floating-point input gives the derivative of the function the program denotes, and asking for a gradient does not change the value.",
  ["programs", "inputs"], "all smooth programs and inputs",
  "Tests differentiate one or two programs.",
  ["ein/backend/torch_backend.py", "ein/backend/jax_backend.py", "ein/value.py"],
  [("staging onto differentiable operations", "ein/backend/torch_backend.py, ein/backend/jax_backend.py")],
  "Property-based testing: autodiff against numerical differentiation of the reference", TRUST)
P("C21", "Sizes the compiler treats as equal are equal at run time",
  "Whenever the compiler concludes that two sizes in a program are interchangeable, they have the same value for every input on which the program is defined, so reusing an axis or cancelling a size never changes a result.",
  ["programs", "inputs"], "all programs, all pairs of sizes put in one class, all inputs",
  "Unsound equalities only show with inputs whose sizes differ where tests use equal ones.",
  ["ein/midend/size_classes.py", "ein/midend/equiv.py"],
  [("size classes", "ein/midend/size_classes.py find_size_classes"), ("equivalence closure", "ein/midend/equiv.py")],
  "Property-based testing: every class of every random program evaluated and compared; model-based test of the equivalence closure", TRUST)
P("C22", "Terms and constants are identified only when they are the same",
  "Two constants are treated as one only if they have the same shape, element type and contents, and two programs only if they denote the same computation, however large or similar they are: "
  "a program using several nearly identical arrays (different in one element, in the sign of zero, in shape or in kind) reads from each of them its own elements.",
  ["programs", "inputs"], "all sets of near-identical constants in all positions",
  "Tests use clearly distinct constants; sharing relies on hashing and equality of terms and values.",
  ["ein/value.py", "ein/term.py", "ein/midend/lining.py"],
  [("equality and hashing of values and terms", "ein/value.py, ein/term.py")],
  "Property-based testing: programs over families of near-identical constants against a reference", TRUST)
