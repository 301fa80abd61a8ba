"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": observe, "hook_needed": None},
    })


prop("C01", "Comprehensions are pointful on the default (NumPy) backend",
     "For every well-typed program built from array comprehensions, nested arrays and scalar operators, evaluating it with the default NumPy backend returns an array whose element at each index tuple is the body evaluated at that index. "
     "This holds whatever the order, nesting and reuse of the indices (transposed, repeated, unused, broadcast, partially applied) and whatever the input values and sizes.",
     ["programs", "inputs"],
     "every comprehension nesting, every permutation/omission/repetition of indices, all element values, all (non-negative) sizes",
     "tests try about a dozen fixed comprehensions with one random input each, mostly square or rank <= 2; axis-permutation and broadcasting code depends on rank, order and sizes",
     ["ein/codegen/phi_to_yarr.py", "ein/codegen/axial.py", "ein/backend/numpy_backend.py", "ein/frontend/comprehension.py"],
     [("translation of point expressions to whole-array operations", "ein/codegen/phi_to_yarr.py"),
      ("free-axis bookkeeping and alignment", "ein/codegen/axial.py"),
      ("execution of array operations", "ein/backend/numpy_backend.py, ein/backend/array_backend.py")],
     ["array(...).eval()"])

prop("C02", "Every array read returns the element at the index clamped into range",
     "On the NumPy backend, reading a non-empty array at any integer index returns the element at that index clamped to the valid range [0, size-1]. "
     "The result is the same whichever way the index is written: a plain comprehension index, an index shifted by any amount, clipped by any nest of min/max with any bounds, computed from data, or using an index that the array itself depends on.",
     ["programs", "inputs"],
     "all integer shifts, bounds and data-dependent indices (unbounded integers), all array sizes and comprehension sizes within the bound, every min/max/shift nesting within the bound",
     "tests sample small literal shifts with in-range bounds on one 3-element vector; off-by-one errors at range ends need specific shift/bound/size combinations",
     ["ein/codegen/array_indexing.py", "ein/backend/numpy_backend.py"],
     [("choice between elision, slice+pad, take and gather", "ein/codegen/array_indexing.py"),
      ("edge padding, clipping", "ein/backend/numpy_backend.py")],
     ["array(lambda i: a[expr(i)]).eval()"])

prop("C03", "fold is a sequential loop",
     "On the NumPy backend, fold(init, step, count) equals acc=init; for i in 0..count-1: acc=step(i, acc), for every step function, every initial value, every count including zero and negative counts, and every enclosing comprehension. "
     "Sums, products of sums, minima and maxima that are evaluated by whole-array reductions or contractions give the same value as the loop (up to floating-point reassociation).",
     ["programs", "inputs"],
     "all step functions within the grammar (including those whose summand mentions or omits the counter or the accumulator), all element values, all counts",
     "tests cover matmul-like sums and a few loops; the reduction and contraction matchers accept many more shapes of step than are tested",
     ["ein/codegen/phi_to_yarr.py", "ein/backend/array_backend.py"],
     [("recognition of contractions and axis reductions", "ein/codegen/phi_to_yarr.py"),
      ("loop execution", "ein/backend/array_backend.py")],
     ["fold(...).eval()"])

prop("C04", "reduce is an ordered monoid fold",
     "On the NumPy backend, vec.reduce(ident, cat) equals cat applied left to right over the elements in their original order, for every associative cat with identity ident, commutative or not, over scalars, records or vectors, for every vector length including zero, alone or inside comprehensions.",
     ["programs", "inputs"],
     "all monoids (checked on commutative and non-commutative representatives with symbolic elements), all lengths 0..bound, all batch nestings within the bound",
     "tests use commutative sums at lengths 11-17 and concat at length 12 only; tree reduction depends on the binary expansion of the length",
     ["ein/backend/array_backend.py", "ein/codegen/phi_to_yarr.py", "ein/midend/structs.py"],
     [("pairwise tree reduction", "ein/backend/array_backend.py"),
      ("axis choice for batched reductions", "ein/codegen/phi_to_yarr.py")],
     ["Vec.reduce(...).eval()"])

prop("C05", "Records are transparent",
     "On the NumPy backend, building, indexing, folding, reducing, concatenating or selecting arrays of records (tuples, dicts, dataclasses, nested in any way and containing arrays) and then projecting a field gives the same values as computing that field alone, and indexing returns a record of the same Python shape with its fields in place.",
     ["programs", "inputs"],
     "all record layouts within the nesting bound, all element values, all sizes within the bound",
     "tests use five specific layouts with flat or 2-level nesting",
     ["ein/midend/structs.py", "ein/frontend/layout.py", "ein/frontend/ndarray.py", "ein/codegen/axial.py"],
     [("array-of-structs to struct-of-arrays", "ein/midend/structs.py"), ("record layouts", "ein/frontend/layout.py")],
     ["array(lambda i: record).field.eval()"])

prop("C06", "The PyTorch backend computes the pointful meaning",
     "For every well-typed program, evaluating it with the PyTorch backend returns, at every index, the value given by the pointful meaning of the program (comprehensions, clamped reads, sequential folds, ordered reduces, records, concatenation), with the same shape.",
     ["programs", "inputs"],
     "every program of the corpus, all element values, all sizes within the bound",
     "tests run one random input per program, and several multi-axis programs are only run on NumPy",
     ["ein/backend/torch_backend.py", "ein/backend/array_backend.py"],
     [("mapping of array operations to torch", "ein/backend/torch_backend.py")],
     ["x.torch(), interpret_with_torch"])

prop("C07", "The JAX backend computes the pointful meaning",
     "For every well-typed program whose sizes, and the offsets and bounds of whose shifted or clipped reads, are static (do not depend on traced values or loop counters), evaluating it with the JAX backend returns, at every index, the value given by the pointful meaning of the program, with the same shape.",
     ["programs", "inputs"],
     "every program of the corpus with static sizes and offsets, all element values, all sizes within the bound",
     "tests run one random input per program",
     ["ein/backend/jax_backend.py", "ein/backend/array_backend.py"],
     [("mapping of array operations to jax", "ein/backend/jax_backend.py")],
     ["x.jax(), interpret_with_jax"])

prop("C08", "The naive interpreter computes the pointful meaning",
     "For every well-typed program, the naive interpreter returns, at every index, the value given by the pointful meaning of the program, with the same shape; it can therefore serve as the reference for the other backends.",
     ["programs", "inputs"],
     "every program of the corpus, all element values, all sizes within the bound, including zero",
     "tests run one random input per program",
     ["ein/backend/naive.py", "ein/midend/lining.py", "ein/midend/structs.py"],
     [("direct interpretation", "ein/backend/naive.py")],
     ["interpret_with_naive, eval(backend='naive')"])

prop("C09", "Sizes: inferred, explicit and dynamic sizes give exactly that many elements",
     "The array returned by a comprehension has along each axis exactly the given size, or the size of the arrays its index directly indexes when none is given; reported sizes agree with the actual extents. "
     "This holds for sizes that are run-time values, sizes that differ from the extents of the arrays read (reads are then clamped), sizes that coincide only for some inputs, and sizes of arrays grown or carried by folds.",
     ["programs", "inputs"],
     "all combinations of symbolic run-time sizes and array extents within the bound",
     "size-equality reasoning lets the compiler skip slicing; it is wrong only when two sizes that it believes equal differ for some input, which a test with one shape cannot show",
     ["ein/midend/size_classes.py", "ein/midend/equiv.py", "ein/frontend/comprehension.py", "ein/codegen/array_indexing.py"],
     [("size equivalence classes", "ein/midend/size_classes.py"), ("size inference", "ein/frontend/comprehension.py")],
     ["shape of array(...).eval(), Vec.size(k).eval()"])

prop("C10", "Evaluation is pure",
     "Evaluating a program never modifies the arrays given to it (wrapped, passed in an environment or as function arguments) nor the environment mapping, and no result is affected by in-place reuse of buffers: evaluating the same program again gives the same result.",
     ["programs", "inputs", "histories"],
     "every program of the corpus, all element values, repeated evaluations",
     "tests never compare inputs before and after, and evaluate each program once",
     ["ein/codegen/phi_to_yarr.py", "ein/backend/numpy_backend.py", "ein/backend/array_backend.py"],
     [("in-place reuse of temporaries", "ein/codegen/phi_to_yarr.py, ein/backend/numpy_backend.py"),
      ("environment handling in loops and bindings", "ein/backend/array_backend.py")],
     ["inputs after eval(); second eval()"])

prop("C11", "Results have the static type of the program",
     "The result of evaluating a program has exactly the rank and the scalar kind (boolean, integer or float) of the program's static type, on every array backend, for every program and input.",
     ["programs", "inputs"],
     "every program of the corpus, all sizes within the bound, on the NumPy, PyTorch and JAX backends",
     "tests compare with a numeric tolerance that treats True, 1 and 1.0 alike",
     ["ein/phi/type_system.py", "ein/phi/phi.py", "ein/backend/numpy_backend.py", "ein/codegen/phi_to_yarr.py"],
     [("typing rules", "ein/phi/phi.py, ein/phi/type_system.py"), ("dtype-preserving execution", "ein/backend")],
     ["dtype and ndim of eval()"])

prop("C12", "Ill-typed programs are rejected, well-typed ones accepted",
     "Constructing a scalar operation, read, comprehension, fold, reduce, concatenation or record projection succeeds exactly when its operands have the kinds the operation is defined on (no implicit promotion between booleans, integers and floats, no arithmetic on whole vectors), and otherwise raises a TypeError before anything is evaluated (an AttributeError where vectors have no such method at all); the resulting type is the one the operation defines. "
     "The record structures a fold, reduce, concatenation or selection puts together must agree (fields are never matched by position across different names), and a function with a declared signature takes arguments of exactly the declared kinds and ranks, raising a TypeError otherwise. "
     "Equality of whole vectors is Python identity and is not part of this.",
     ["programs"],
     "every operator and construct, every combination of operand types within the type-depth bound",
     "tests contain a single type-error example",
     ["ein/phi/type_system.py", "ein/phi/phi.py"],
     [("signature resolution", "ein/phi/type_system.py"), ("typing rules", "ein/phi/phi.py")],
     ["TypeError at construction; expr.type"])

prop("C13", "Compiler optimisations do not change results",
     "Compiling a program with any combination of the optional code-generation optimisations enabled or disabled (takes, slice-pads, slice elision, axis reductions, einsum, shape and tuple cancellation) yields array programs that compute the same result for every input.",
     ["configurations", "programs", "inputs"],
     "all on/off combinations of the optional optimisations, corpus programs, all element values",
     "tests only run the default configuration",
     ["ein/codegen/phi_to_yarr.py", "ein/codegen/array_indexing.py"],
     [("optional rewrites", "ein/codegen/phi_to_yarr.py")],
     ["result of the compiled array program under each configuration"])

prop("C14", "Sharing and hoisting of subexpressions do not change results",
     "A program in which a subexpression is used several times, let-bound, used under different indices, or invariant in an enclosing loop evaluates (on every backend) to the same result as the program with that subexpression written out at each use; bound names never capture each other.",
     ["programs", "inputs"],
     "all sharing patterns of the corpus (common subexpressions in and across loops, nested lets, loop-invariant code, the same function applied repeatedly), all element values",
     "tests cover few sharing patterns and one input each",
     ["ein/midend/lining.py", "ein/midend/substitution.py", "ein/term.py", "ein/value.py"],
     [("common-subexpression binding and loop-invariant code motion", "ein/midend/lining.py"), ("term equality", "ein/term.py, ein/value.py")],
     ["eval() of programs with shared subexpressions"])

prop("C15", "Compiled functions can be called again",
     "A decorated function called any number of times with arguments of any values, sizes and types returns each time the result of evaluating the program afresh on those arguments; earlier calls leave no trace, results already returned stay as they were, and argument arrays the caller overwrites between calls are read anew.",
     ["histories", "inputs"],
     "all sequences of calls up to the length bound, with symbolic argument values and differing sizes, ranks and kinds",
     "tests call each function once or twice with the same arguments",
     ["ein/frontend/functions.py", "ein/backend/numpy_backend.py"],
     [("staged-program cache", "ein/frontend/functions.py")],
     ["@function f(...) call histories"])

prop("C16", "Concatenation keeps all elements in order",
     "Concatenating vectors yields first the elements of the first, then those of the second, for scalars, records and nested arrays, for every length including zero, alone or inside comprehensions where the operands depend on different indices.",
     ["programs", "inputs"],
     "all lengths within the bound, all element values, all batch nestings of the corpus",
     "tests use two fixed pairs of lengths",
     ["ein/codegen/phi_to_yarr.py", "ein/midend/structs.py", "ein/frontend/ndarray.py"],
     [("axis alignment of operands", "ein/codegen/phi_to_yarr.py")],
     ["concat(...).eval()"])

prop("C17", "External functions see the right arguments",
     "A vectorised external function applied inside comprehensions produces at each index the function applied to the operands' values at that index, for every nesting and broadcast of its operands; declared input signatures are enforced.",
     ["programs", "inputs"],
     "an arbitrary (uninterpreted) elementwise function, every operand index pattern within the bound, all element values",
     "tests use three specific functions",
     ["ein/codegen/phi_to_yarr.py", "ein/frontend/ndarray.py"],
     [("operand alignment for external calls", "ein/codegen/phi_to_yarr.py")],
     ["ext(fun, signature)(...).eval()"])

prop("C18", "Scalar operators mean what they say",
     "Each arithmetic, comparison, logical and numeric operator or method of scalars, in either operand order and with Python numbers on either side, computes its mathematical function on every backend: subtraction and division are not commuted, integer powers (including zero and negative) are repeated products, modulo takes the sign of the divisor, comparisons point the right way.",
     ["inputs", "programs"],
     "all operand values (unbounded integers and reals), all operators, both operand orders, all backends",
     "tests exercise a handful of operators on one value",
     ["ein/frontend/ndarray.py", "ein/phi/phi.py", "ein/codegen/yarr.py", "ein/backend"],
     [("operator overloads", "ein/frontend/ndarray.py"), ("operator tables", "ein/codegen/yarr.py, ein/backend/*.py")],
     ["(a op b).eval()"])

prop("C19", "Standard-library combinators agree with their definitions",
     "The library's sum, minimum, maximum and argmin folds and reductions, n-ary min/max, where on records and vectors, and or_empty return the mathematical result for every vector of values of any length (including empty vectors, where they return the identity), and argmin returns the first minimising index.",
     ["inputs", "programs"],
     "all element values including ties, all lengths 0..bound, inside and outside comprehensions",
     "tests draw random normals, so ties and empty vectors never occur",
     ["ein/frontend/std.py", "ein/frontend/ndarray.py"],
     [("monoid definitions", "ein/frontend/std.py")],
     ["fold_min, fold_argmin, reduce_max, ... .eval()"])

prop("C20", "Unbound or jagged programs are refused, not miscomputed",
     "Evaluating an array that depends on a variable or index that is not bound raises an error instead of returning a value; a comprehension whose size depends on an enclosing index, whose size cannot be inferred, or whose size is not an integer is refused when it is built; reads by slices other than whole axes are refused, not misread; arrays refuse truth tests and iteration.",
     ["programs"],
     "every choice of escaping symbol, size expression and construct within the bound",
     "no test exercises these refusals",
     ["ein/frontend/ndarray.py", "ein/frontend/comprehension.py", "ein/phi/phi.py"],
     [("free-symbol check", "ein/frontend/ndarray.py"), ("size typing", "ein/phi/phi.py")],
     ["ValueError/TypeError"])

prop("C21", "Evaluation uses whole-array operations (efficiency)",
     "Programs without general folds are evaluated with a number of library calls that does not depend on the array sizes, and contractions do not materialise the product tensor.",
     ["programs", "inputs"],
     "all programs and sizes",
     "tests do not measure work",
     ["ein/codegen/phi_to_yarr.py"], [("point-free compilation", "ein/codegen/phi_to_yarr.py")],
     ["time and memory of eval()"])

prop("C22", "Floating-point results stay close to the real-number result",
     "For every program and input, the floating-point result differs from the result in real arithmetic by no more than rounding, including at infinities, NaNs and overflow.",
     ["programs", "inputs"],
     "all IEEE-754 inputs",
     "tests compare with a relative tolerance on random normals",
     ["ein/backend/numpy_backend.py", "ein/frontend/ndarray.py"], [("library kernels", "NumPy/PyTorch/JAX")],
     ["eval()"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
