// vectors, swizzles, matrices, bounding boxes, SIMD helpers
#include "nsx.h"
#include <cstring>
#include <cmath>
#include <vector>
#include <neolib/core/numerical.hpp>
using namespace neolib; using namespace neolib::math;
typedef uint32_t U;
template <class T> T val(const char* n) { if constexpr (std::is_floating_point_v<T>) return (T)nsx_u8(n); else return (T)nsx_u32(n); }
template <class V> V vec(const char* n) { V v; for (unsigned i = 0; i < V::Size; ++i) v[i] = val<typename V::value_type>(n); return v; }
#define ALL(N, e) do { for (unsigned i = 0; i < (N); ++i) nsx_assert((e), #e); } while (0)
template <class T, unsigned N, class K> void vectors() {
    using V = basic_vector<T, N, K>; V a = vec<V>("a"), b = vec<V>("b"); T s = val<T>("s"); const V ca = a;
    nsx_assert(V::size() == N && a.end() - a.begin() == N && ca.end() - ca.begin() == N, "size"); ALL(N, a.begin() + i == &a[i]); ALL(N, ca[i] == a[i] && ca.begin()[i] == a[i]); const std::array<T, N>& arr = ca; ALL(N, arr[i] == a[i]); V fromarr{ arr }; ALL(N, fromarr[i] == a[i]);
    V z; ALL(N, z[i] == T{});
    { V c = a; c += b; ALL(N, c[i] == (T)(a[i] + b[i])); V d = a + b; nsx_assert(d == c, "+"); c = a; c += s; ALL(N, c[i] == (T)(a[i] + s)); d = a + s; nsx_assert(d == c, "+s"); d = s + a; nsx_assert(d == c, "s+"); }
    { V c = a; c *= b; ALL(N, c[i] == (T)(a[i] * b[i])); nsx_assert(a.hadamard_product(b) == c && a.scale(b) == c, "hadamard"); c = a; c *= s; ALL(N, c[i] == (T)(a[i] * s)); V d = a * s; nsx_assert(d == c, "*s"); d = s * a; nsx_assert(d == c, "s*"); }
    if constexpr (std::is_integral_v<T>) { V c = a; c -= b; ALL(N, c[i] == (T)(a[i] - b[i])); V d = a - b; nsx_assert(d == c, "-"); c = a; c -= s; ALL(N, c[i] == (T)(a[i] - s)); d = a - s; nsx_assert(d == c, "-s"); d = s - a; ALL(N, d[i] == (T)(s - a[i])); d = -a; ALL(N, d[i] == (T)(0 - a[i])); }
    { T dot{}; for (unsigned i = 0; i < N; ++i) dot += a[i] * b[i]; nsx_assert(a.dot(b) == dot, "dot"); }
    { V lo = a.min(b), hi = a.max(b); ALL(N, lo[i] == (a[i] < b[i] ? a[i] : b[i])); ALL(N, hi[i] == (a[i] < b[i] ? b[i] : a[i])); T m = a.min(); bool in = false; for (unsigned i = 0; i < N; ++i) { nsx_assert(m <= a[i], "least"); in |= m == a[i]; } nsx_assert(in, "least is a component"); }
    { bool eq = true; int cmp = 0; for (unsigned i = 0; i < N; ++i) { eq &= a[i] == b[i]; } for (unsigned i = N; i-- > 0;) cmp = a[i] < b[i] ? -1 : b[i] < a[i] ? 1 : cmp; nsx_assert((a == b) == eq && (a != b) == !eq, "equality"); nsx_assert((a < b) == (cmp < 0), "less"); nsx_assert(((a <=> b) < 0) == (cmp < 0) && ((a <=> b) > 0) == (cmp > 0), "order"); }
    { V c = a, d = b; swap(c, d); nsx_assert(c == b && d == a, "swap"); c = std::move(d); nsx_assert(c == a, "move"); V e{ c }; nsx_assert(e == a, "copy"); }
    { auto w = a.template as<uint16_t>(); ALL(N, w[i] == (uint16_t)a[i]); basic_vector<T, N + 1, K> g{ a }; ALL(N, g[i] == a[i]); nsx_assert(g[N] == T{}, "zero extended"); }
    { std::array<V, 2> q{ a, b }; auto r = q + a; ALL(N, r[1][i] == (T)(b[i] + a[i])); r = b + q; ALL(N, r[0][i] == (T)(b[i] + a[i])); r += b; ALL(N, r[1][i] == (T)(b[i] + b[i] + b[i])); if constexpr (std::is_integral_v<T>) { r = q - b; ALL(N, r[0][i] == (T)(a[i] - b[i])); r = b - q; ALL(N, r[0][i] == (T)(b[i] - a[i])); r -= a; ALL(N, r[0][i] == (T)(b[i] - a[i] - a[i])); } }
    nsx_reach("vectors");
}
template <class T, unsigned N, class K> void division() { using V = basic_vector<T, N, K>; V a = vec<V>("a"), b = vec<V>("b"); T s = val<T>("s"); nsx_assume(s != 0); for (unsigned i = 0; i < N; ++i) nsx_assume(b[i] != 0); for (unsigned i = 0; i < N; ++i) nsx_assume(a[i] < 256); V c = a; c /= b; ALL(N, c[i] == a[i] / b[i]); c = a; c /= s; ALL(N, c[i] == a[i] / s); V d = a / s; nsx_assert(d == c, "/s"); if constexpr (N != 3) { d = s / b; ALL(N, d[i] == s / b[i]); } nsx_reach("division"); }
template <unsigned N> void lists() { // lists: shorter ones are filled with zero, longer refused
    using V = basic_vector<U, N>; U x = nsx_u32("x"), y = nsx_u32("y"), z = nsx_u32("z"), w = nsx_u32("w"), o = nsx_u32("o"); U in[4] = { x, y, z, w }; unsigned n = nsx_choice(0, 4, "n"); V v = vec<V>("v"), old = v; bool th = false;
    try { switch (n) { case 0: v = V(std::initializer_list<U>{}); break; case 1: v = V(std::initializer_list<U>{ x }); break; case 2: v = V(std::initializer_list<U>{ x, y }); break; case 3: v = V(std::initializer_list<U>{ x, y, z }); break; case 4: v = V(std::initializer_list<U>{ x, y, z, w }); break; } } catch (const std::out_of_range&) { th = true; }
    nsx_assert(th == (n > N), "refused exactly when too long"); if (!th) ALL(N, v[i] == (i < n ? in[i] : 0)); else { nsx_assert(v == old, "unchanged"); nsx_reach("refused"); }
    V u = old; th = false; try { switch (n) { case 0: u = std::initializer_list<U>{}; break; case 1: u = std::initializer_list<U>{ x }; break; case 2: u = std::initializer_list<U>{ x, y }; break; case 3: u = std::initializer_list<U>{ x, y, z }; break; case 4: u = std::initializer_list<U>{ x, y, z, w }; break; } } catch (const std::out_of_range&) { th = true; }
    nsx_assert(th == (n > N), "assignment refused exactly when too long"); if (!th) ALL(N, u[i] == (i < n ? in[i] : 0)); else nsx_assert(u == old, "unchanged by refused assignment"); (void)o; nsx_reach("lists");
}
static void swizzles() {
    using V = basic_vector<U, 3>; using V2 = basic_vector<U, 2>; V a = vec<V>("a"), b = vec<V>("b"); U s = nsx_u32("s");
    nsx_assert(a.x == a[0] && a.y == a[1] && a.z == a[2], "names");
#define S2(m, i, j) { V2 r = a.m; nsx_assert(r[0] == a[i] && r[1] == a[j], #m); V2 t = ~a.m; nsx_assert(t == r, "~" #m); }
    S2(xx, 0, 0) S2(xy, 0, 1) S2(xz, 0, 2) S2(yx, 1, 0) S2(yy, 1, 1) S2(yz, 1, 2) S2(zx, 2, 0) S2(zy, 2, 1) S2(zz, 2, 2)
#define S3(m, i, j, k) { V r = a.m; nsx_assert(r[0] == a[i] && r[1] == a[j] && r[2] == a[k], #m); }
    S3(xxx, 0, 0, 0) S3(xxy, 0, 0, 1) S3(xxz, 0, 0, 2) S3(xyx, 0, 1, 0) S3(xyy, 0, 1, 1) S3(xyz, 0, 1, 2) S3(yxx, 1, 0, 0) S3(yxy, 1, 0, 1) S3(yxz, 1, 0, 2) S3(yyx, 1, 1, 0) S3(yyy, 1, 1, 1) S3(yyz, 1, 1, 2) S3(yzx, 1, 2, 0) S3(yzy, 1, 2, 1) S3(yzz, 1, 2, 2) S3(zxx, 2, 0, 0) S3(zxy, 2, 0, 1) S3(zxz, 2, 0, 2) S3(zyx, 2, 1, 0) S3(zyy, 2, 1, 1) S3(zyz, 2, 1, 2) S3(zzx, 2, 2, 0) S3(zzy, 2, 2, 1) S3(zzz, 2, 2, 2)
    V2 p = vec<V2>("p"); nsx_assert(p.x == p[0] && p.y == p[1], "names of 2");
#define P2(m, i, j) { V2 r = p.m; nsx_assert(r[0] == p[i] && r[1] == p[j], "2." #m); }
    P2(xx, 0, 0) P2(xy, 0, 1) P2(yx, 1, 0) P2(yy, 1, 1)
#define P3(m, i, j, k) { V r = p.m; nsx_assert(r[0] == p[i] && r[1] == p[j] && r[2] == p[k], "2." #m); }
    P3(xxx, 0, 0, 0) P3(xxy, 0, 0, 1) P3(xyx, 0, 1, 0) P3(xyy, 0, 1, 1) P3(yxx, 1, 0, 0) P3(yxy, 1, 0, 1) P3(yyx, 1, 1, 0) P3(yyy, 1, 1, 1)
    // writing
#define W2(m, i, j) { V c = a; c.m = p; for (unsigned k = 0; k < 3; ++k) nsx_assert(c[k] == (k == i ? p[0] : k == j ? p[1] : a[k]), "write " #m); c = a; c.m = s; for (unsigned k = 0; k < 3; ++k) nsx_assert(c[k] == (k == i || k == j ? s : a[k]), "fill " #m); c = a; c.m = b.m; for (unsigned k = 0; k < 3; ++k) nsx_assert(c[k] == (k == i || k == j ? b[k] : a[k]), "copy " #m); }
    W2(xy, 0, 1) W2(xz, 0, 2) W2(yx, 1, 0) W2(yz, 1, 2) W2(zx, 2, 0) W2(zy, 2, 1)
#define W3(m, i, j, k) { V c = a; c.m = b; nsx_assert(c[i] == b[0] && c[j] == b[1] && c[k] == b[2], "write " #m); }
    W3(xyz, 0, 1, 2) W3(yxz, 1, 0, 2) W3(yzx, 1, 2, 0) W3(zxy, 2, 0, 1) W3(zyx, 2, 1, 0)
    { V2 c = a.xy + b.zx; nsx_assert(c[0] == a[0] + b[2] && c[1] == a[1] + b[0], "sum"); c = a.yz - b.xy; nsx_assert(c[0] == a[1] - b[0] && c[1] == a[2] - b[1], "difference"); nsx_assert((a.xy == b.yz) == (a[0] == b[1] && a[1] == b[2]), "=="); nsx_assert((a.xy != b.yz) != (a[0] == b[1] && a[1] == b[2]), "!="); bool lt = a[0] < b[1] || (a[0] == b[1] && a[1] < b[2]); nsx_assert((a.xy < b.yz) == lt, "<"); }
    { V c = a.cross(b); nsx_assert(c[0] == a[1] * b[2] - a[2] * b[1] && c[1] == a[2] * b[0] - a[0] * b[2] && c[2] == a[0] * b[1] - a[1] * b[0], "cross"); }
    nsx_reach("swizzles");
}
template <class M> M mat(unsigned C, unsigned R, const char* n) { M m; for (unsigned c = 0; c < C; ++c) for (unsigned r = 0; r < R; ++r) m[c][r] = val<typename M::value_type>(n); return m; }
template <class T, unsigned R, unsigned C> void matrices() {
    using M = basic_matrix<T, R, C>; M a = mat<M>(C, R, "a"), b = mat<M>(C, R, "b"); M z; for (unsigned c = 0; c < C; ++c) ALL(R, z[c][i] == T{}); nsx_assert(a.size().first == R && a.size().second == C, "size"); for (unsigned c = 0; c < C; ++c) ALL(R, a.data()[c * R + i] == a[c][i]);
    M s = a + b; for (unsigned c = 0; c < C; ++c) ALL(R, s[c][i] == (T)(a[c][i] + b[c][i])); auto t = a.transposed(); for (unsigned c = 0; c < C; ++c) ALL(R, t[i][c] == a[c][i]); nsx_assert(t.transposed() == a, "transposed twice");
    if constexpr (std::is_integral_v<T>) { M d = a - b; for (unsigned c = 0; c < C; ++c) ALL(R, d[c][i] == (T)(a[c][i] - b[c][i])); d = -a; for (unsigned c = 0; c < C; ++c) ALL(R, d[c][i] == (T)(0 - a[c][i])); M e = s; e -= b; nsx_assert(e == a, "sum less one"); }
    bool eq = true; for (unsigned c = 0; c < C; ++c) for (unsigned r = 0; r < R; ++r) eq &= a[c][r] == b[c][r]; nsx_assert((a == b) == eq && (a != b) == !eq, "equality"); M x = a, y = b; swap(x, y); nsx_assert(x == b && y == a, "swap"); M mv{ std::move(x) }; nsx_assert(mv == b, "move"); auto w = a.template as<uint16_t>(); for (unsigned c = 0; c < C; ++c) ALL(R, w[c][i] == (uint16_t)a[c][i]); nsx_reach("matrices");
}
// products: A is R x K, B is K x R
template <class T, unsigned R, unsigned K> void product() {
    using A = basic_matrix<T, R, K>; using B = basic_matrix<T, K, R>; A a = mat<A>(K, R, "a"); B b = mat<B>(R, K, "b"); basic_matrix<T, R, R> p = a * b; for (unsigned c = 0; c < R; ++c) for (unsigned r = 0; r < R; ++r) { T e{}; for (unsigned k = 0; k < K; ++k) e += a[k][r] * b[c][k]; nsx_assert(p[c][r] == e, "product"); } if constexpr (R == K) { A q = a; q *= b; nsx_assert(q == p, "*="); } nsx_reach("product");
}
template <class T, unsigned D> void transform() {
    using M = basic_matrix<T, D, D>; using CV = basic_vector<T, D, column_vector>; using RV = basic_vector<T, D, row_vector>; M m = mat<M>(D, D, "m"); CV v = vec<CV>("v"); RV r = vec<RV>("r"); CV mv = m * v; RV rm = r * m;
    for (unsigned i = 0; i < D; ++i) { T e{}, f{}; for (unsigned k = 0; k < D; ++k) { e += m[k][i] * v[k]; f += r[k] * m[i][k]; } nsx_assert(mv[i] == e, "matrix times column"); nsx_assert(rm[i] == f, "row times matrix"); }
    std::array<CV, 2> va{ v, CV{} }; auto mva = m * va; nsx_assert(mva[0] == mv, "columns"); ALL(D, mva[1][i] == T{}); std::array<RV, 2> ra{ RV{}, r }; auto rma = ra * m; nsx_assert(rma[1] == rm, "rows"); ALL(D, rma[0][i] == T{});
    T in = r * v, e{}; for (unsigned k = 0; k < D; ++k) e += r[k] * v[k]; nsx_assert(in == e, "row times column"); M out = v * r; for (unsigned c = 0; c < D; ++c) for (unsigned q = 0; q < D; ++q) nsx_assert(out[c][q] == v[q] * r[c], "column times row"); nsx_reach("transform");
}
template <class T, unsigned D> void identity() { using M = basic_matrix<T, D, D>; using CV = basic_vector<T, D, column_vector>; M i = M::identity(); for (unsigned c = 0; c < D; ++c) for (unsigned r = 0; r < D; ++r) nsx_assert(i[c][r] == (T)(c == r), "identity"); nsx_assert(i.is_identity(), "is"); M m = mat<M>(D, D, "m"); nsx_assert(m * i == m && i * m == m, "neutral"); CV v = vec<CV>("v"); nsx_assert(i * v == v, "neutral for columns"); unsigned c = nsx_choice(0, D - 1, "c"), r = nsx_choice(0, D - 1, "r"); M j = i; j[c][r] = val<T>("j"); nsx_assert(j.is_identity() == (j[c][r] == (T)(c == r)), "is identity"); nsx_reach("identity"); }
template <class T> void affine() {
    using M = basic_matrix<T, 4, 4>; using V3 = basic_vector<T, 3>; M m = mat<M>(4, 4, "m"); V3 v = vec<V3>("v"), t = vec<V3>("t"); V3 r = m * v; ALL(3, r[i] == m[0][i] * v[0] + m[1][i] * v[1] + m[2][i] * v[2] + m[3][i]); std::vector<V3> vs{ v, t }; auto rs = m * vs; nsx_assert(rs.size() == 2 && rs[0] == r && rs[1] == m * t, "points");
    M n = m; apply_translation(n, t); for (unsigned c = 0; c < 4; ++c) for (unsigned q = 0; q < 4; ++q) nsx_assert(n[c][q] == m[c][q] + (c == 3 && q < 3 ? t[q < 3 ? q : 0] : T{}), "translation"); n = m; apply_scaling(n, t); for (unsigned c = 0; c < 4; ++c) for (unsigned q = 0; q < 4; ++q) nsx_assert(n[c][q] == (c == q && c < 3 ? m[c][q] * t[c < 3 ? c : 0] : m[c][q]), "scaling");
    basic_vector<T, 2> t2{ t[0], t[1] }; n = m; apply_translation(n, t2); nsx_assert(n[3][0] == m[3][0] + t[0] && n[3][1] == m[3][1] + t[1] && n[3][2] == m[3][2], "translation 2"); n = m; apply_scaling(n, t2); nsx_assert(n[0][0] == m[0][0] * t[0] && n[1][1] == m[1][1] * t[1] && n[2][2] == m[2][2], "scaling 2");
    M w = without_translation(m); for (unsigned c = 0; c < 4; ++c) for (unsigned q = 0; q < 4; ++q) nsx_assert(w[c][q] == (c == 3 && q < 3 ? T{} : m[c][q]), "without translation"); nsx_reach("affine");
}
template <class T> void simd() { T x[8]; for (auto& e : x) e = val<T>("x"); nsx_assert(simd_fma_4d(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]) == x[0] * x[1] + x[2] * x[3] + x[4] * x[5] + x[6] * x[7], "fma"); T a, b, c, d; simd_mul_4d(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], a, b, c, d); nsx_assert(a == x[0] * x[1] && b == x[2] * x[3] && c == x[4] * x[5] && d == x[6] * x[7], "mul"); nsx_reach("simd"); }
static void rnd() { uint32_t seed = nsx_u32("seed"), up = nsx_u32("up"); nsx_assume(up != 0xFFFFFFFFu); simd_srand(seed); uint32_t r[8]; for (auto& e : r) e = simd_rand(); simd_srand(seed); nsx_assert(simd_rand() == r[0], "same seed, same numbers"); for (unsigned i = 1; i < 5; ++i) nsx_assert(simd_rand() == r[i], "same seed, same sequence"); for (unsigned i = 0; i < 2; ++i) nsx_assert(simd_rand(up) <= up, "bounded"); nsx_reach("rand"); }
template <class T> void rounding() { using M = basic_matrix<T, 2, 2>; M m; int8_t k[4]; for (unsigned i = 0; i < 4; ++i) { k[i] = i == 0 ? (int8_t)nsx_u8("k") : (int8_t)(i * 3); m[i / 2][i % 2] = (T)k[i] / 4; } M r = m.round_to((T)1); for (unsigned i = 0; i < 4; ++i) { T e = r[i / 2][i % 2] * 4 - k[i]; nsx_assert(e <= 2 && e >= -2, "within half a step"); T q = r[i / 2][i % 2]; nsx_assert(q == std::floor(q), "a multiple"); } nsx_reach("rounding"); }
// boxes
template <class V> basic_aabb<V> box(const char* n) { basic_aabb<V> b{ vec<V>(n), vec<V>(n) }; for (unsigned i = 0; i < 3; ++i) nsx_assume(b.min[i] <= b.max[i]); return b; }
template <class V> basic_aabb_2d<V> box2(const char* n) { basic_aabb_2d<V> b{ vec<V>(n), vec<V>(n) }; for (unsigned i = 0; i < 2; ++i) nsx_assume(b.min[i] <= b.max[i]); return b; }
template <unsigned N, class B, class V> bool in(const B& b, const V& p) { bool r = true; for (unsigned i = 0; i < N; ++i) r &= b.min[i] <= p[i] && p[i] <= b.max[i]; return r; }
template <unsigned N, class V, class B> void boxes(B a, B b) {
    V p = vec<V>("p"); nsx_assert(aabb_contains(a, p) == in<N>(a, p), "contains a point"); nsx_assert(aabb_contains(a, b) == (in<N>(a, b.min) && in<N>(a, b.max)), "contains a box"); bool x = true; for (unsigned i = 0; i < N; ++i) x &= a.min[i] <= b.max[i] && b.min[i] <= a.max[i]; nsx_assert(aabb_intersects(a, b) == x, "intersects"); nsx_assert(aabb_intersects(b, a) == x, "symmetric");
    optional<B> oa{ a }; std::optional<B> ob{ b }; nsx_assert(aabb_intersects(oa, ob) == x && aabb_intersects(oa, b) == x && aabb_intersects(a, ob) == x, "optional"); nsx_assert(!aabb_intersects(optional<B>{}, ob) && !aabb_intersects(oa, std::optional<B>{}) && !aabb_intersects(optional<B>{}, b) && !aabb_intersects(a, std::optional<B>{}), "none");
    B u = aabb_union(a, b); ALL(N, u.min[i] == std::min(a.min[i], b.min[i]) && u.max[i] == std::max(a.max[i], b.max[i])); V e = aabb_extents(a); ALL(N, e[i] == a.max[i] - a.min[i]); nsx_assert((a == b) == (a.min == b.min && a.max == b.max), "equality"); B d; ALL(N, d.min[i] == 0 && d.max[i] == 0);
    int cmp = 0; for (unsigned i = 0; i < N; ++i) cmp = a.max[i] < b.max[i] ? -1 : b.max[i] < a.max[i] ? 1 : cmp; int c2 = 0; for (unsigned i = 0; i < N; ++i) c2 = a.min[i] < b.min[i] ? -1 : b.min[i] < a.min[i] ? 1 : c2; if (c2) cmp = c2; nsx_assert((a < b) == (cmp < 0) && ((a <=> b) < 0) == (cmp < 0) && ((a <=> b) > 0) == (cmp > 0), "order"); nsx_reach("boxes");
}
template <class T> void hull(unsigned n) { using V = basic_vector<T, 3>; using V2 = basic_vector<T, 2>; std::vector<V> vs; std::vector<V2> v2; for (unsigned i = 0; i < n; ++i) { vs.push_back(vec<V>("v")); v2.push_back(V2{ vs[i][0], vs[i][1] }); }
    auto b = to_aabb(vs); auto c = to_aabb_2d(v2); auto d = to_aabb_2d(vs); for (unsigned k = 0; k < 3; ++k) { T lo = n ? vs[0][k] : T{}, hi = lo; for (auto& v : vs) { lo = std::min(lo, v[k]); hi = std::max(hi, v[k]); } nsx_assert(b.min[k] == lo && b.max[k] == hi, "hull"); if (k < 2) nsx_assert(c.min[k] == lo && c.max[k] == hi && d.min[k] == lo && d.max[k] == hi, "2d hull"); } basic_aabb_2d<V> f{ b }; nsx_assert(f.min[0] == b.min[0] && f.max[1] == b.max[1], "flattened"); nsx_reach("hull"); }
static const int lin[6][9] = { { 1, 0, 0, 0, 1, 0, 0, 0, 1 }, { 0, 1, 0, -1, 0, 0, 0, 0, 1 }, { 1, 0, 2, 0, 3, 0, 0, 0, 1 }, { -1, 0, 0, 0, -1, 0, 0, 2, -1 }, { 0, 0, 1, 1, 0, 0, 0, 1, 0 }, { 1, 1, 0, -1, 1, 0, 0, -2, 1 } }; // column by column
template <class V> V pos(bool all) { V v; for (unsigned i = 0; i < V::Size; ++i) v[i] = (typename V::value_type)(1 + (int)(all ? nsx_u8("p") : nsx_u8("p") & 7)); return v; }
#define TIGHT(b, R, msg) do { for (unsigned r = 0; r < (R); ++r) { bool lo = false, hi = false; for (unsigned k = 0; k < C; ++k) { nsx_assert((b).min[r] <= c[k][r], msg ": lower bound"); nsx_assert((b).max[r] >= c[k][r], msg ": upper bound"); lo |= (b).min[r] == c[k][r]; hi |= (b).max[r] == c[k][r]; } nsx_assert(lo, msg ": least"); nsx_assert(hi, msg ": greatest"); } } while (0)
template <class T, unsigned N, bool POINTS = false> void moved(unsigned w) { // the box of a transformed box, any translation, a few linear parts
    using V = basic_vector<T, N>; using M = basic_matrix<T, N + 1, N + 1>; V p = pos<V>(false), q = pos<V>(false), t = pos<V>(true); for (unsigned i = 0; i < N; ++i) nsx_assume(p[i] <= q[i]); M m = M::identity(); for (unsigned c = 0; c < N; ++c) for (unsigned r = 0; r < N; ++r) m[c][r] = (T)lin[w][c * 3 + r]; for (unsigned r = 0; r < N; ++r) m[N][r] = t[r];
    constexpr unsigned C = 1u << N; T c[C][N]; for (unsigned r = 0; r < N; ++r) for (unsigned k = 0; k < C; ++k) { T e = t[r]; for (unsigned j = 0; j < N; ++j) e += m[j][r] * (k >> j & 1 ? q[j] : p[j]); c[k][r] = e; }
    std::vector<V> vs{ q, p };
    if constexpr (POINTS && N == 3) { auto b = to_aabb(vs, m); TIGHT(b, 3, "points"); auto f = to_aabb_2d(vs, m); TIGHT(f, 2, "flat"); }
    else if constexpr (POINTS) { auto b = to_aabb_2d(vs, m); TIGHT(b, 2, "points"); }
    else if constexpr (N == 3) { basic_aabb<V> b = aabb_transform(basic_aabb<V>{ p, q }, m); TIGHT(b, 3, "box"); }
    else { basic_aabb_2d<V> b = aabb_transform(basic_aabb_2d<V>{ p, q }, m); TIGHT(b, 2, "box"); }
    nsx_reach("moved"); }
template <unsigned C> void toomany() { using M = basic_matrix<U, 2, C>; U x = nsx_u32("x"); bool th = false; try { M m{ {x, 1u}, {2u, x}, {x} }; if (C > 0) nsx_assert(m[0][0] == x && m[0][1] == 1, "first column"); if (C > 1) nsx_assert(m[1][0] == 2 && m[1][1] == x, "second"); if (C > 2) nsx_assert(m[2][0] == x && m[2][1] == 0, "third"); if (C > 3) nsx_assert(m[3][0] == 0 && m[3][1] == 0, "missing ones zero"); } catch (const std::out_of_range&) { th = true; } nsx_assert(th == (C < 3), "refused exactly when too many"); nsx_reach("columns"); }
extern "C" void nsx_main() {
    unsigned k = (unsigned)nsx_param(1, 0);
    switch (nsx_param(0, 0)) {
    case 0: switch (k) { case 1: vectors<U, 1, column_vector>(); break; case 2: vectors<U, 2, column_vector>(); break; case 3: vectors<U, 3, row_vector>(); break; case 4: vectors<U, 4, column_vector>(); break; case 5: vectors<U, 5, row_vector>(); break; case 13: vectors<double, 3, column_vector>(); break; case 14: vectors<float, 4, column_vector>(); break; } break;
    case 1: switch (k) { case 2: division<uint32_t, 2, column_vector>(); break; case 3: division<uint32_t, 3, column_vector>(); break; } break;
    case 2: switch (k) { case 1: lists<1>(); break; case 2: lists<2>(); break; case 3: lists<3>(); break; case 4: lists<4>(); break; } break;
    case 3: swizzles(); break;
    case 4: switch (k) { case 22: matrices<U, 2, 2>(); break; case 23: matrices<U, 2, 3>(); break; case 32: matrices<U, 3, 2>(); break; case 44: matrices<U, 4, 4>(); break; case 144: matrices<double, 4, 4>(); break; } break;
    case 5: switch (k) { case 22: product<U, 2, 2>(); break; case 33: product<U, 3, 3>(); break;

    case 23: product<U, 2, 3>(); break; case 32: product<U, 3, 2>(); break;

    case 133: product<double, 3, 3>(); break; case 144: product<double, 4, 4>(); break; case 244: product<float, 4, 4>(); break; } break;
    case 6: switch (k) { case 2: transform<U, 2>(); break; case 3: transform<U, 3>(); break; case 14: transform<double, 4>(); break; case 24: transform<float, 4>(); break; } break;
    case 7: switch (k) { case 2: identity<U, 2>(); break; case 3: identity<U, 3>(); break; case 14: identity<double, 4>(); break; } break;
    case 8: if (k) affine<float>(); else affine<double>(); break;
    case 9: if (k) simd<float>(); else simd<double>(); break;
    case 10: rnd(); break;
    case 11: if (k) rounding<float>(); else rounding<double>(); break;
    case 12: if (k) { using V = basic_vector<double, 3>; { auto a = box<V>("a"), b = box<V>("b"); boxes<3, V>(a, b); } } else { using V = basic_vector<U, 3>; { auto a = box<V>("a"), b = box<V>("b"); boxes<3, V>(a, b); } } break;
    case 13: if (k) { using V = basic_vector<double, 2>; { auto a = box2<V>("a"), b = box2<V>("b"); boxes<2, V>(a, b); } } else { using V = basic_vector<U, 2>; { auto a = box2<V>("a"), b = box2<V>("b"); boxes<2, V>(a, b); } } break;
    case 14: hull<U>(k); break;
    case 15: { unsigned w = (unsigned)nsx_param(2, 0); switch (k) { case 0: moved<double, 3>(w); break; case 1: moved<double, 2>(w); break; case 2: moved<double, 3, true>(w); break; case 3: moved<double, 2, true>(w); break; } break; }
    case 16: switch (k) { case 1: toomany<1>(); break; case 2: toomany<2>(); break; case 3: toomany<3>(); break; case 4: toomany<4>(); break; } break;
    }
}
