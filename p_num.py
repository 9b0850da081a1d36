from props import P, NAP, J, W, Harness, CONC
INC = "include/neolib/core/"
nu = Harness("num.cpp", ["-mavx"])
MAT = [W(nu, 4, k) for k in (22, 23, 32, 44, 144)] + [W(nu, 5, k) for k in (22, 33, 23, 32, 133, 144, 244)] + [W(nu, 6, k) for k in (2, 3, 14, 24)] + [W(nu, 7, k) for k in (2, 3, 14)] + [W(nu, 8, 0), W(nu, 8, 1)] + [W(nu, 16, k) for k in (1, 2, 3, 4)]
VEC = [W(nu, 0, k) for k in (1, 2, 3, 4, 5, 13, 14)] + [W(nu, 1, 2), W(nu, 1, 3)] + [W(nu, 2, k) for k in (1, 2, 3, 4)] + [W(nu, 3)]
P("C31", "Vector, swizzle and matrix arithmetic computes what linear algebra says",
  "Vector operators act component by component (with vectors, scalars, swizzles and arrays of vectors), dot, cross, min, max and hadamard products, equality and lexicographic order are the mathematical ones; a swizzle reads the named components in the named order and writing one changes those components and no other; an initializer list shorter than the vector or matrix is filled with zero and a longer one refused with nothing changed; matrix sum, difference, product (square or not), product with row and column vectors and arrays of them, transposition, identity, translation and scaling follow their definitions; the SIMD helpers compute what the scalar formulas do; rounding a matrix gives the nearest multiple.",
  ["inputs"], "every component value over 32-bit unsigned integers, and over float and double every combination of integers 0 to 255 (so that every order of adding gives the same result)",
  "The Numerical test samples a few constants; a component in the wrong place, a reversed operand or a write through an alias depends on which component differs.",
  [INC + "numerical.hpp", INC + "swizzle.hpp", INC + "simd.hpp"], [("vectors", INC + "numerical.hpp: basic_vector"), ("swizzles", INC + "swizzle.hpp"), ("matrices", INC + "numerical.hpp: basic_matrix, operator*"), ("SIMD", INC + "simd.hpp")],
  quick=VEC + MAT + [W(nu, 9, 0), W(nu, 9, 1), W(nu, 10, time=60), W(nu, 11, 0, time=60), W(nu, 11, 1, time=60)],
  reach=["vectors", "division", "lists", "refused", "swizzles", "matrices", "product", "transform", "identity", "affine", "simd", "rand", "rounding", "columns"],
  bounds={"quick": "vectors of 1 to 5 components, matrices up to 4 by 4; floating point over integers 0 to 255; matrix rounding of multiples of 1/4 to 1, one entry symbolic."},
  assumptions=["rounding errors of floating-point arithmetic are outside the claim"])
BOX = [W(nu, 13, 0), W(nu, 13, 1), W(nu, 14, 0), W(nu, 14, 2), W(nu, 14, 3)] + [W(nu, 15, 0, w, time=100) for w in (0, 1, 2, 4)] + [W(nu, 15, 1, w, time=100) for w in range(5)] + [W(nu, 15, 2, w, time=100) for w in (1, 2)] + [W(nu, 15, 3, w, time=100) for w in (2, 3)]
P("C32", "Bounding boxes contain, meet, join and move as the point sets they stand for",
  "For boxes in two and three dimensions: a box contains a point exactly when every coordinate lies within it and a box when it contains its corners; two boxes intersect exactly when they share a point, also through optionals (an empty one meets nothing); the union is the least box holding both; the box of a set of points is the least that holds them; the transformed box is the least that holds all the transformed corners, translation included; comparison is an order that agrees with equality.",
  ["inputs"], "every coordinate over 32-bit unsigned integers, and over doubles the integers 0 to 255; transformations with any translation up to 256 and six linear parts",
  "No test uses boxes; which coordinate decides is what goes wrong.",
  [INC + "numerical.hpp"], [("boxes", INC + "numerical.hpp: aabb_contains, aabb_intersects, aabb_union, aabb_transform, to_aabb")],
  quick=[W(nu, 12, 0, time=100), W(nu, 12, 1, time=60)] + BOX, thorough=[W(nu, 12, 0, time=200), W(nu, 12, 1, time=200)] + BOX + [W(nu, 15, 0, 3, time=100), W(nu, 15, 0, 5, time=200), W(nu, 15, 1, 5, time=100)] + [W(nu, 15, 2, w, time=200) for w in (0, 3, 4, 5)] + [W(nu, 15, 3, w, time=200) for w in (0, 1, 4, 5)],
  reach=["boxes", "hull", "moved"],
  bounds={"quick": "two boxes and a point; point sets of up to 3 points; transformed boxes with corners 1 to 8 and translations 1 to 256 under four or five linear parts.", "thorough": "all six linear parts."})
