#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append((id, title, statement, over, text, why, files, mech, observe))

p("C01", "Element-wise binary operators and broadcasting compute every element",
  "For any two arrays (or an array and a scalar) whose shapes can be broadcast together, each of + - * / % & | << >> returns a new array that has the broadcast shape and holds, at every position, the operator applied to the two operand elements broadcast to that position, whatever the memory layout of the operands. The operands are left unchanged, and every operand form (owned, borrowed, array with scalar) gives the same result.",
  ["inputs", "configurations"], "all element values of every supported type, all pairs of broadcastable shapes, all memory layouts of both operands (views, transposes, slices, broadcasts), all lengths around loop unrolling boundaries",
  "The tests evaluate fixed examples, mostly contiguous; which inner loop runs depends on the combination of strides, shapes and lengths, and they sample few combinations and no value classes.",
  ["src/ops/binary_ops.rs", "src/ops/simd_binary_ops.rs", "src/ndarray/binary_ops.rs", "src/ndarray/broadcast.rs", "src/ndarray/iterator/multi_flat_index_generator.rs", "src/ndarray/iterator/collapse_contiguous.rs"],
  [("stride dispatch", "src/ops/binary_ops.rs"), ("broadcast shape and stride", "src/ndarray/broadcast.rs")], ["result shape", "result elements"])
p("C02", "In-place operators update exactly the target's elements",
  "For every array or mutable view, += -= *= /= %= &= |= <<= >>= with an array that broadcasts to its shape, or with a scalar, replaces every element of the target by the operator applied to its old value and the operand's broadcast element. No other element of the underlying memory changes, the operand stays unchanged and the target keeps its shape. A target that is a read-only broadcast view, or whose shape would have to grow, is rejected.",
  ["inputs", "configurations"], "all element values, all target and operand shapes, all layouts of target (including strided, transposed, diagonal views) and operand",
  "Tests only assign to contiguous arrays; writing through views with gaps and leaving the gaps alone is never looked at.",
  ["src/ndarray/assign_ops.rs", "src/ops/binary_ops.rs", "src/ndarray/broadcast.rs"],
  [("in-place dispatch", "src/ndarray/assign_ops.rs")], ["underlying buffer after the operation"])
p("C03", "Broadcasting follows the NumPy rules and rejects everything else",
  "Shapes broadcast exactly when, aligned at their last axes, every pair of lengths is equal or contains a 1; an explicit broadcast gives a read-only view that shows, without copying, the source element at every position of the target shape. All other combinations, for operators and for explicit broadcasts, are rejected with a panic instead of giving a result. Writing through a broadcast view is rejected.",
  ["inputs", "configurations"], "all pairs of shapes, all layouts of the source, all element values",
  "Tests list a few pairs of shapes; the accept/reject boundary is over all pairs and over layouts.",
  ["src/ndarray/broadcast.rs", "src/ndarray/methods.rs", "src/ops/binary_ops.rs"],
  [("broadcast rules", "src/ndarray/broadcast.rs")], ["view shape and elements", "panic"])
p("C04", "Reductions fold each element exactly once",
  "sum, product, mean, min, max and their magnitude forms, over the whole array or along any set of axes, return the fold of exactly the elements that share each remaining index, and the shape is that of the remaining axes in order. The result depends neither on the memory layout nor on how the work is split into blocks. Axes that do not exist or repeat are rejected.",
  ["inputs", "configurations"], "all element values (overflow aside), shapes, layouts, axis sets, negative axes, lengths around unrolling boundaries",
  "The blocked and strided loops switch on length and stride; tests use a handful of lengths and layouts and fixed values, where a skipped or doubled element can go unnoticed.",
  ["src/ndarray/reduce.rs", "src/ops/simd_reduce_ops.rs", "src/ops/reduce_sum.rs", "src/ops/reduce_product.rs", "src/ops/reduce_min.rs", "src/ops/reduce_max.rs", "src/ops/reduce_min_magnitude.rs", "src/ops/reduce_max_magnitude.rs", "src/ndarray/iterator/collapse_contiguous.rs"],
  [("axis iteration", "src/ndarray/reduce.rs"), ("blocked reduction", "src/ops/simd_reduce_ops.rs")], ["result shape and elements", "panic"])
p("C05", "Slices and indices select the right elements and never reach outside",
  "Indexing, slicing by any mixture of positions and ranges, and slicing along an axis return views (or elements) of exactly the selected elements of the source, in order, sharing its memory. A position or range outside its own axis, too many indices, or a reversed or empty range is rejected with a panic; no request returns an element of another row or foreign memory. Writing through an index changes that element only.",
  ["inputs", "configurations"], "all index values (any 64-bit number), all range forms and bounds, all shapes and layouts, slices of slices",
  "The rejection boundary is over unbounded index values and per axis; tests probe single values one past the end.",
  ["src/ndarray/slice.rs", "src/util/index.rs", "src/ndarray/index_impl.rs", "src/macros.rs"],
  [("range resolution", "src/util/index.rs"), ("view construction", "src/ndarray/slice.rs")], ["elements and addresses of the view", "panic"])
p("C06", "Reshaping, transposing and diagonals rearrange without changing data",
  "reshape, view, squeeze, unsqueeze, transpose and the diagonal family return views of the same memory whose element at each index is the element that the operation defines (row-major order kept by reshape, axes exchanged by transpose, the offset diagonal of the two axes), also after other view operations; traces are the sums of those diagonals. The consuming forms keep ownership of the memory. Impossible requests (different size, axis or offset out of range, equal axes) are rejected; only reshaping a non-uniformly strided view may be refused.",
  ["inputs", "configurations", "programs"], "all shapes, layouts, target shapes, axes (any 64-bit number) and offsets, chains of two view operations, all element values",
  "Tests apply one operation to contiguous arrays; the defects lie in combinations of views and strides.",
  ["src/common/reshape.rs", "src/ndarray/reshape.rs", "src/linalg/matrix_ops.rs"],
  [("stride rewriting", "src/common/reshape.rs"), ("diagonal strides", "src/linalg/matrix_ops.rs")], ["elements and addresses of the view", "panic"])
p("C07", "Iteration visits every element exactly once in row-major order",
  "Flat iteration over any array or view yields each logical element exactly once in row-major order and then ends; iteration over a set of axes yields, in row-major order of those axes, the sub-view of the remaining axes. The number of items equals the product of the iterated lengths. This holds for every memory layout, broadcast views included.",
  ["inputs", "configurations"], "all shapes, layouts, axis sets, element values",
  "Iterators merge axes depending on the strides; tests cover a few layouts only.",
  ["src/ndarray/iterator/flat_iterator.rs", "src/ndarray/iterator/flat_index_generator.rs", "src/ndarray/iterator/tensor_iterator.rs", "src/ndarray/iterator/collapse_contiguous.rs"],
  [("collapsed index generation", "src/ndarray/iterator/collapse_contiguous.rs")], ["yielded sequence"])
p("C08", "No sequence of safe operations breaks memory safety or leaks",
  "Any sequence of safe array and tensor operations only reads and writes memory that is live and belongs to the arrays involved, in whatever order arrays, views, clones, tensors and their gradients are created, consumed and dropped. Every buffer is released exactly once, when its last owner goes, and a value that is still reachable keeps its contents.",
  ["programs", "histories", "inputs"], "all operation sequences up to a length over a set of live arrays, views and tensors, with drops at every point, all element values",
  "The implementation manages raw buffers by hand; a use after free or a leak usually passes a test unnoticed, and tests do not enumerate histories.",
  ["src/ndarray.rs", "src/ndarray/clone.rs", "src/ndarray/methods.rs", "src/common/reshape.rs", "src/tensor/mod.rs", "src/tensor/autograd.rs", "src/tensor/reshape.rs"],
  [("ownership of the buffer", "src/ndarray.rs"), ("drop", "src/ndarray.rs")], ["every memory access", "heap at the end"])
p("C09", "Matrix and vector products equal their definition in every layout",
  "dot, matrix-vector, matrix-matrix and batched matrix products return the array of sums of products over the shared axis, with the documented shape, for operands in any memory layout. Operands whose shared lengths, batch sizes or ranks do not fit are rejected instead of producing a result. The operands are unchanged.",
  ["inputs", "configurations"], "all element values, all sizes around unrolling boundaries, all layouts of both operands, all mismatching shapes",
  "Kernel selection depends on strides and sizes; tests use few sizes and layouts and fixed values.",
  ["src/linalg/matrix_ops.rs", "src/ops/dot_product.rs", "src/ops/simd_sum_of_products.rs", "src/linalg/sum_of_products.rs"],
  [("kernel dispatch", "src/linalg/matrix_ops.rs")], ["result shape and elements", "panic"])
p("C10", "Einsum equals the Einstein sum of its operands",
  "For any subscripts and operands whose lengths agree, einsum returns the array, over the output labels in the given order, of the sum over all other labels of the product of the operand elements, whichever specialised kernel is chosen. Where a view can represent the result, the view form shows exactly these elements of the source and otherwise declines. Malformed subscripts, wrong operand counts or ranks, unknown output labels and conflicting lengths are rejected.",
  ["inputs", "configurations", "programs"], "all subscript strings up to a number of labels and operands, all sizes and layouts, all element values",
  "Over a dozen specialised kernels are selected by stride patterns; tests cover listed subscripts with contiguous operands.",
  ["src/linalg/einsum.rs", "src/linalg/specialized_einsum.rs", "src/linalg/sum_of_products.rs", "src/ops/simd_sum_of_products.rs"],
  [("kernel selection", "src/linalg/specialized_einsum.rs"), ("generic loop", "src/linalg/sum_of_products.rs")], ["result shape and elements", "panic"])
p("C11", "Back-propagation yields the derivative of the recorded computation",
  "After a backward pass from any result with a given upstream gradient, every leaf tensor that requires gradients holds the sum, over all paths of the recorded computation, of the exact vector-Jacobian product, with the leaf's shape, including leaves that were broadcast or used repeatedly. Repeated passes accumulate, clearing resets to zero, and tensors that do not require gradients receive none. The forward values are unaffected.",
  ["programs", "inputs", "histories"], "all expression graphs up to a depth over the differentiable operations, all shapes up to a bound including broadcasts, all leaf and upstream values, repeated passes",
  "Tests check single operations on fixed values; sharing, broadcasting and accumulation combine freely.",
  ["src/autograd", "src/tensor/autograd.rs", "src/tensor/ops.rs", "src/tensor/matrix_ops.rs", "src/tensor/reshape.rs"],
  [("chain rule per operation", "src/autograd"), ("accumulation", "src/autograd/accumulate_grad.rs")], ["gradients of the leaves"])
p("C12", "Gradient tracking flags follow the operands",
  "The result of an operation requires gradients exactly if one of its tensor operands does, and is then no leaf; a tensor that does not require gradients, and one created by the user, is a leaf. Turning tracking on or off changes only that tensor. A tensor reports a gradient exactly if tracking was turned on for that very tensor (zero until a pass reaches it); results neither report nor clear the gradients of their operands.",
  ["programs", "configurations"], "all operations and all assignments of the tracking flag to operands, chains of operations",
  "Tests cover single operations with few flag combinations.",
  ["src/tensor/autograd.rs", "src/tensor/ops.rs", "src/tensor/reshape.rs"],
  [("flag propagation", "src/tensor")], ["requires_grad, is_leaf, gradient"])
p("C13", "Constructors produce the documented shape and elements",
  "Building an array or tensor from nested data gives the nesting's shape with its elements in row-major order, and ragged data is rejected; filled, zero, one and scalar constructors hold that value everywhere. Ranges hold start + i*step for every i below the number of steps that stay before the end (up to rounding of the step count), and evenly spaced ranges hold the requested number of points from start to stop. Newly built arrays own contiguous memory.",
  ["inputs", "configurations"], "all element values and shapes, all start, stop, step and count values within a range, nestings up to rank 4",
  "Tests build listed arrays; counts and end points are decided by arithmetic on arbitrary values.",
  ["src/common/constructors.rs", "src/ndarray/constructors.rs", "src/util/flatten.rs", "src/util/nested.rs", "src/util/shape.rs"],
  [("generic constructors", "src/common/constructors.rs")], ["shape and elements"])
p("C14", "Equality, clones and copies depend on logical contents only",
  "Two arrays compare equal exactly if they have the same shape and all corresponding elements are equal, in whatever layouts they are stored. Cloning, flattening and extracting the data give independent contiguous memory holding the elements in row-major order, so later writes to either side do not show in the other. Taking the data of a view by value is rejected.",
  ["inputs", "configurations", "histories"], "all pairs of shapes, layouts and element values (NaN included)",
  "Tests compare few arrays and layouts; a comparison that skips elements passes them.",
  ["src/ndarray/equals.rs", "src/ndarray/clone.rs", "src/ndarray/methods.rs", "src/util/flatten.rs"],
  [("comparison", "src/ndarray/equals.rs"), ("copy", "src/ndarray/clone.rs")], ["boolean result", "buffers"])
p("C15", "Layout metadata never misrepresents the memory layout",
  "After any sequence of view operations, shape, stride, rank, size and length describe the array's real elements: walking the memory by the strides visits exactly the logical elements. An array that reports itself contiguous has its elements adjacent in row-major order, one that reports a uniform stride has them equally spaced, and a view never claims to own its memory.",
  ["programs", "configurations"], "all chains of view operations up to a length over all shapes up to a bound",
  "The fast paths trust these flags; wrong flags appear only after particular chains of views.",
  ["src/common/methods.rs", "src/common/reshape.rs", "src/ndarray/flags.rs", "src/ndarray/slice.rs", "src/ndarray/broadcast.rs"],
  [("flag maintenance", "src/common/reshape.rs"), ("stride analysis", "src/common/methods.rs")], ["metadata accessors"])
p("C16", "Filling and zeroing a view writes its elements and nothing else",
  "fill and zero set every element of the array or view to the value and leave all other elements of the underlying memory unchanged, for every memory layout. Filling a read-only broadcast view is rejected.",
  ["inputs", "configurations"], "all shapes, layouts, lengths around unrolling boundaries, element types and values",
  "Tests fill contiguous arrays and a few slices and do not look at the gaps.",
  ["src/ops/fill.rs", "src/ndarray/methods.rs"], [("strided fill", "src/ops/fill.rs")], ["underlying buffer"])
p("C17", "Negation negates every element",
  "Negating an array or tensor returns a new array of the same shape whose elements are the negated elements of the operand at every index, in every layout; the operand is unchanged. The smallest integer, which has no negation, is rejected.",
  ["inputs", "configurations"], "all values, shapes, layouts and lengths around unrolling boundaries",
  "Tests negate listed contiguous arrays.",
  ["src/ops/unary_ops.rs", "src/ops/simd_neg.rs", "src/ndarray/unary_ops.rs"], [("strided dispatch", "src/ops/unary_ops.rs")], ["result elements"])
p("C18", "Type conversion converts every element or rejects it",
  "Converting an array to another element type returns a new contiguous array of the same shape in which every element is the language's numeric conversion of the source element (fractions are cut off, large numbers round to the nearest float), for every layout. Elements that the target type cannot represent (out of range, or not a number) are rejected. The source is unchanged.",
  ["inputs", "configurations"], "all pairs of element types, all source values, shapes and layouts",
  "Tests convert small values between few types.",
  ["src/ndarray/astype.rs", "src/util/dtype.rs", "src/util/to_vec.rs"], [("conversion", "src/ndarray/astype.rs")], ["result elements"])
p("C19", "Random constructors respect shape and range for every random stream",
  "Whatever the random generator returns, arrays of random numbers have the requested shape and contiguous memory, uniform numbers lie within the requested bounds, and random integers lie in the half-open interval and can take every value of it. Empty or reversed intervals are rejected.",
  ["inputs", "configurations"], "all outputs of the random generator, all bounds and shapes",
  "Tests draw a few samples; range violations occur for rare outputs.",
  ["src/common/random.rs"], [("scaling of the generator", "src/common/random.rs")], ["shape and elements"])
p("C20", "Tensor operations compute the same values as array operations",
  "Every tensor constructor, operator, product and view operation yields the shape and the values that the array operation yields on the same data, whether or not gradients are tracked, rejects the operands that the array operation rejects, and leaves its operands intact. Converting between tensors and arrays keeps shape and values.",
  ["inputs", "configurations", "programs"], "all operations, shapes, element values and tracking flags, chains of two operations",
  "Tests compare listed values only.",
  ["src/tensor/mod.rs", "src/tensor/ops.rs", "src/tensor/matrix_ops.rs", "src/tensor/reshape.rs", "src/tensor/methods.rs"],
  [("delegation to arrays", "src/tensor")], ["tensor values"])
p("C21", "The printed form shows every element in its place",
  "Printing an array or tensor with {:?} writes each logical element exactly once in row-major order, in the element's own text form, with one pair of brackets around every axis and commas between its entries, for every shape and memory layout; white space aside, the text determines shape and contents. Printing changes nothing.",
  ["inputs", "configurations"], "all shapes, layouts and element values",
  "Tests print nothing; errors show only for particular ranks, lengths or layouts.",
  ["src/ndarray/print.rs", "src/tensor/print.rs"], [("nested printing", "src/ndarray/print.rs")], ["printed text"])

NOTE = {}
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = [
]
have = [x for x in P if os.path.exists(V + "/harness/src/%s.rs" % x[0].lower())]
with open(V + "/properties.jsonl", "w") as f:
    for id, title, st, over, text, why, files, mech, obs in have:
        assert len(title) <= 80, id
        f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": obs, "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the harness crates use /repo's public API", "source_commits": []},
     "checks": [{"property": x[0], "quick_cmd": "python3 check.py %s quick" % x[0], "thorough_cmd": "python3 check.py %s thorough" % x[0],
       "technique": "symbolic execution of the compiled LLVM IR, every assertion decided by z3 over all element values within bounds",
       "level": "model_checking",
       "level_note": NOTE.get(x[0], "Bounded: every path of the real code within the stated shapes, layouts and sizes is executed symbolically and each assertion decided by the solver for all element values; memory accesses are checked on every path. Trusts the engine's LLVM semantics (cross-checked by native replay of sampled paths), rustc and z3. Nothing is claimed outside the bounds in the evidence file.")} for x in have],
     "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
