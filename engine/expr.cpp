#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cfenv>

ExprCtx X;

static float asF(u128 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
static double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static u128 fromF(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static u128 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }

template <class F> static F roundMode(F v, int mode) {
    switch (mode) {
    case 0: return std::nearbyint(v);  // to nearest even
    case 1: return std::floor(v);
    case 2: return std::ceil(v);
    case 3: return std::trunc(v);
    case 4: return std::round(v);      // away
    }
    return v;
}

// w: result width, wa: operand width
u128 foldOp(Op op, u32 w, u32 wa, u128 a, u128 b, u128 c) {
    u128 m = maskw(w), ma = maskw(wa);
    a &= ma;
    switch (op) {
    case OAdd: return (a + b) & m;
    case OSub: return (a - b) & m;
    case OMul: return (a * b) & m;
    case OUDiv: return b == 0 ? m : (a / b) & m;
    case OURem: return b == 0 ? a : (a % b) & m;
    case OSDiv: {
        __int128 x = sextv(a, w), y = sextv(b, w);
        if (y == 0) return x < 0 ? 1 : m;
        if (y == -1) return (u128)(-x) & m;
        return (u128)(x / y) & m;
    }
    case OSRem: {
        __int128 x = sextv(a, w), y = sextv(b, w);
        if (y == 0) return a;
        if (y == -1) return 0;
        return (u128)(x % y) & m;
    }
    case OAnd: return a & b;
    case OOr: return a | b;
    case OXor: return (a ^ b) & m;
    case OShl: return b >= w ? 0 : (a << (u32)b) & m;
    case OLShr: return b >= w ? 0 : (a >> (u32)b) & m;
    case OAShr: { __int128 x = sextv(a, w); u32 s = b >= w ? w - 1 : (u32)b; return (u128)(x >> s) & m; }
    case OEq: return a == b;
    case OUlt: return a < b;
    case OUle: return a <= b;
    case OSlt: return sextv(a, wa) < sextv(b, wa);
    case OSle: return sextv(a, wa) <= sextv(b, wa);
    case ONot: return (~a) & 1;
    case OExtract: return (a >> (u32)c) & m;
    case OZExt: return a;
    case OSExt: return (u128)sextv(a, wa) & m;
#define FB(expr32, expr64) (wa == 32 ? fromF([&] { float x = asF(a), y = asF(b); (void)y; return (float)(expr32); }()) \
                                     : fromD([&] { double x = asD(a), y = asD(b); (void)y; return (double)(expr64); }()))
    case OFAdd: return FB(x + y, x + y);
    case OFSub: return FB(x - y, x - y);
    case OFMul: return FB(x * y, x * y);
    case OFDiv: return FB(x / y, x / y);
    case OFRem: return FB(fmodf(x, y), fmod(x, y));
    case OFSqrt: return FB(sqrtf(x), sqrt(x));
    case OFRound: return FB(roundMode(x, (int)c), roundMode(x, (int)c));
    case OFOeq: return wa == 32 ? asF(a) == asF(b) : asD(a) == asD(b);
    case OFOlt: return wa == 32 ? asF(a) < asF(b) : asD(a) < asD(b);
    case OFOle: return wa == 32 ? asF(a) <= asF(b) : asD(a) <= asD(b);
    case OFUno: return wa == 32 ? (std::isnan(asF(a)) || std::isnan(asF(b))) : (std::isnan(asD(a)) || std::isnan(asD(b)));
    case OFToSI: {
        double d = wa == 32 ? (double)asF(a) : asD(a);
        if (std::isnan(d)) return 0;
        double t = std::trunc(d);
        double lo = -std::ldexp(1.0, w - 1), hi = std::ldexp(1.0, w - 1);
        if (t < lo || t >= hi) return (u128)1 << (w - 1); // x86 indefinite
        return (u128)(__int128)t & m;
    }
    case OFToUI: {
        double d = wa == 32 ? (double)asF(a) : asD(a);
        if (std::isnan(d)) return 0;
        double t = std::trunc(d);
        if (t < 0 || t >= std::ldexp(1.0, w)) return 0;
        return (u128)t & m;
    }
    case OSIToF: { __int128 x = sextv(a, wa); return w == 32 ? fromF((float)(i64)x) : fromD((double)(i64)x); }
    case OUIToF: { return w == 32 ? fromF((float)(u64)a) : fromD((double)(u64)a); }
    case OFExt: return fromD((double)asF(a));
    case OFTrunc: return fromF((float)asD(a));
    default: break;
    }
    fprintf(stderr, "foldOp: bad op %d\n", (int)op);
    abort();
}

ExprCtx::ExprCtx() {
    buckets.assign(1 << 16, nullptr);
    emptySet = internVS({});
}

const VarSet* ExprCtx::internVS(std::vector<u32> v) {
    u64 h = 1469598103934665603ull;
    for (u32 x : v) { h ^= x; h *= 1099511628211ull; }
    auto& b = vsIntern[h];
    for (auto* s : b) if (s->v == v) return s;
    auto* s = new VarSet{std::move(v), vsCount++};
    b.push_back(s);
    return s;
}

const VarSet* ExprCtx::uni(const VarSet* a, const VarSet* b) {
    if (a == b || b->v.empty()) return a;
    if (a->v.empty()) return b;
    u64 key = ((u64)std::min(a->id, b->id) << 32) | std::max(a->id, b->id);
    auto it = vsUnion.find(key);
    if (it != vsUnion.end()) return it->second;
    std::vector<u32> r;
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
    auto* s = internVS(std::move(r));
    vsUnion[key] = s;
    return s;
}

void ExprCtx::rehash() {
    std::vector<Expr*> nb(buckets.size() * 2, nullptr);
    u64 mask = nb.size() - 1;
    for (Expr* e : all) {
        u64 i = e->hash & mask;
        while (nb[i]) i = (i + 1) & mask;
        nb[i] = e;
    }
    buckets.swap(nb);
}

static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

Expr* ExprCtx::mk(Op op, u32 w, u32 nk, Expr* a, Expr* b, Expr* d, u128 c) {
    u64 h = mix(op * 131 + w, (u64)c);
    h = mix(h, (u64)(c >> 64));
    if (nk > 0) h = mix(h, a->id);
    if (nk > 1) h = mix(h, b->id);
    if (nk > 2) h = mix(h, d->id);
    u64 mask = buckets.size() - 1;
    u64 i = h & mask;
    while (Expr* e = buckets[i]) {
        if (e->hash == h && e->op == op && e->w == w && e->nk == nk && e->c == c && (nk < 1 || e->k[0] == a) && (nk < 2 || e->k[1] == b) && (nk < 3 || e->k[2] == d))
            return e;
        i = (i + 1) & mask;
    }
    if (arenaLeft < sizeof(Expr)) { arenaLeft = sizeof(Expr) * 16384; arena = (char*)malloc(arenaLeft); }
    Expr* e = (Expr*)arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr);
    e->op = op; e->w = w; e->nk = nk; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->c = c; e->hash = h;
    e->id = (u32)all.size();
    const VarSet* vs = emptySet;
    if (op == OVar) vs = internVS({(u32)c});
    for (u32 j = 0; j < nk; ++j) vs = uni(vs, e->k[j]->vars);
    e->vars = vs;
    all.push_back(e);
    buckets[i] = e;
    if (++count * 2 > buckets.size()) rehash();
    return e;
}

Expr* ExprCtx::constant(u128 v, u32 w) { return mk(OConst, w, 0, nullptr, nullptr, nullptr, v & maskw(w)); }

Expr* ExprCtx::newVar(const std::string& name, u32 w, bool uninit) {
    u32 idx = (u32)varInfos.size();
    varInfos.push_back({name, w, uninit});
    return mk(OVar, w, 0, nullptr, nullptr, nullptr, idx);
}

u32 ExprCtx::knownZeroHigh(Expr* e, int depth) {
    if (depth > 6) return 0;
    switch (e->op) {
    case OConst: { u32 n = 0; while (n < e->w && !((e->c >> (e->w - 1 - n)) & 1)) ++n; return n; }
    case OZExt: return e->w - e->k[0]->w + knownZeroHigh(e->k[0], depth + 1);
    case OAnd: return std::max(knownZeroHigh(e->k[0], depth + 1), knownZeroHigh(e->k[1], depth + 1));
    case OOr: case OXor: return std::min(knownZeroHigh(e->k[0], depth + 1), knownZeroHigh(e->k[1], depth + 1));
    case OIte: return std::min(knownZeroHigh(e->k[1], depth + 1), knownZeroHigh(e->k[2], depth + 1));
    case OConcat: { u32 h = knownZeroHigh(e->k[0], depth + 1); return h == e->k[0]->w ? h + knownZeroHigh(e->k[1], depth + 1) : h; }
    case OLShr: if (e->k[1]->isConst() && e->k[1]->c < e->w) return std::min<u32>(e->w, (u32)e->k[1]->c + knownZeroHigh(e->k[0], depth + 1)); return 0;
    case OShl: if (e->k[1]->isConst() && e->k[1]->c < e->w) { u32 h = knownZeroHigh(e->k[0], depth + 1); u32 s = (u32)e->k[1]->c; return h > s ? h - s : 0; } return 0;
    case OAdd: { u32 h = std::min(knownZeroHigh(e->k[0], depth + 1), knownZeroHigh(e->k[1], depth + 1)); return h ? h - 1 : 0; }
    case OMul: { u32 a = e->w - knownZeroHigh(e->k[0], depth + 1), b = e->w - knownZeroHigh(e->k[1], depth + 1); return a + b >= e->w ? 0 : e->w - a - b; }
    case OUDiv: return knownZeroHigh(e->k[0], depth + 1);
    case OURem: return std::max(knownZeroHigh(e->k[1], depth + 1), knownZeroHigh(e->k[0], depth + 1));
    case OTable: { u64 m = 0; for (u64 v : tables[(u32)e->c]) m |= v; u32 n = 0; while (n < e->w && (e->w - 1 - n >= 64 || !((m >> (e->w - 1 - n)) & 1))) ++n; return n; }
    default: return 0;
    }
}
u32 ExprCtx::knownZeroLow(Expr* e, int depth) {
    if (depth > 6) return 0;
    switch (e->op) {
    case OConst: { u32 n = 0; while (n < e->w && !((e->c >> n) & 1)) ++n; return n; }
    case OShl: if (e->k[1]->isConst() && e->k[1]->c < e->w) return std::min<u32>(e->w, (u32)e->k[1]->c + knownZeroLow(e->k[0], depth + 1)); return 0;
    case OMul: return std::min<u32>(e->w, knownZeroLow(e->k[0], depth + 1) + knownZeroLow(e->k[1], depth + 1));
    case OAdd: case OSub: case OOr: case OXor: return std::min(knownZeroLow(e->k[0], depth + 1), knownZeroLow(e->k[1], depth + 1));
    case OAnd: return std::max(knownZeroLow(e->k[0], depth + 1), knownZeroLow(e->k[1], depth + 1));
    case OIte: return std::min(knownZeroLow(e->k[1], depth + 1), knownZeroLow(e->k[2], depth + 1));
    case OConcat: { u32 l = knownZeroLow(e->k[1], depth + 1); return l == e->k[1]->w ? l + knownZeroLow(e->k[0], depth + 1) : l; }
    case OZExt: { u32 l = knownZeroLow(e->k[0], depth + 1); return l == e->k[0]->w ? e->w : l; }
    default: return 0;
    }
}

Expr* ExprCtx::not1(Expr* a) {
    if (a->isConst()) return boolean(a->c == 0);
    if (a->op == ONot) return a->k[0];
    if (a->op == OUlt) return bin(OUle, a->k[1], a->k[0]);
    if (a->op == OUle) return bin(OUlt, a->k[1], a->k[0]);
    if (a->op == OSlt) return bin(OSle, a->k[1], a->k[0]);
    if (a->op == OSle) return bin(OSlt, a->k[1], a->k[0]);
    return mk(ONot, 1, 1, a, nullptr, nullptr, 0);
}

static bool isCmp(Op o) { return o >= OEq && o <= OSle; }
static bool isFCmp(Op o) { return o >= OFOeq && o <= OFUno; }
static bool iteConst(Expr* e) { return e->op == OIte && e->k[1]->isConst() && e->k[2]->isConst(); }

// Linear normal form of a sum: terms with their coefficients (mod 2^w), false when it has too many leaves.
static bool linear(Expr* e, u128 coef, std::vector<std::pair<Expr*, u128>>& t, u128& k, u32& leaves) {
    if (leaves > 28) return false;
    if (e->isConst()) { k += coef * e->c; return true; }
    if (e->op == OAdd) return linear(e->k[0], coef, t, k, leaves) && linear(e->k[1], coef, t, k, leaves);
    if (e->op == OSub) return linear(e->k[0], coef, t, k, leaves) && linear(e->k[1], (u128)0 - coef, t, k, leaves);
    if (e->op == OMul && e->k[1]->isConst()) return linear(e->k[0], coef * e->k[1]->c, t, k, leaves);
    if (e->op == OShl && e->k[1]->isConst() && e->k[1]->c < e->w) return linear(e->k[0], coef << (unsigned)e->k[1]->c, t, k, leaves);
    { Expr* q = e->op == OZExt ? e->k[0] : e; // hi:const is hi * 2^k + const
      if (q->op == OConcat && q->k[1]->isConst()) { k += coef * q->k[1]->c; return linear(X.zext(q->k[0], e->w), coef << q->k[1]->w, t, k, leaves); } }
    ++leaves; t.push_back({e, coef}); return true;
}
Expr* ExprCtx::linsum(Expr* a, Expr* b, bool sub) {
    u32 w = a->w; std::vector<std::pair<Expr*, u128>> t; u128 k = 0; u32 leaves = 0;
    if (!linear(a, 1, t, k, leaves) || !linear(b, sub ? (u128)0 - 1 : 1, t, k, leaves)) return nullptr;
    std::sort(t.begin(), t.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
    std::vector<std::pair<Expr*, u128>> u; u128 m = maskw(w); k &= m;
    for (auto& x : t) { if (!u.empty() && u.back().first == x.first) u.back().second = (u.back().second + x.second) & m; else u.push_back({x.first, x.second & m}); if (u.back().second == 0) u.pop_back(); }
    Expr* acc = nullptr; bool first = true;
    auto scale = [&](Expr* e, u128 c) -> Expr* {
        if (c == 1) return e;
        if ((c & (c - 1)) == 0) { u32 s = 0; while (!((c >> s) & 1)) ++s; return bin(OShl, e, constant(s, w)); }
        return mk(OMul, w, 2, e, constant(c, w), nullptr, 0);
    };
    auto neg = [&](u128 c) { return (c >> (w - 1)) & 1 && c != ((u128)1 << (w - 1)); };
    for (auto& x : u) if (!neg(x.second)) { Expr* e = scale(x.first, x.second); acc = acc ? mk(OAdd, w, 2, acc, e, nullptr, 0) : e; }
    for (auto& x : u) if (neg(x.second)) { Expr* e = scale(x.first, ((u128)0 - x.second) & m); if (acc) acc = mk(OSub, w, 2, acc, e, nullptr, 0); else { acc = mk(OSub, w, 2, constant(first ? k : 0, w), e, nullptr, 0); first = false; } }
    if (!acc) return constant(k, w);
    if (!first) k = 0; // already folded into the leading constant
    return k ? mk(OAdd, w, 2, acc, constant(k, w), nullptr, 0) : acc;
}

// Floats that hold integers small enough for exact arithmetic: a float operation on them is rewritten to the integer one, which
// is exact (no rounding, no overflow) and gives the same bit pattern (-0 cannot arise: products are only rewritten when neither
// factor can be zero while the other is negative).
bool ExprCtx::fint(Expr* e, FInt& r, int depth) {
    if (e->w != 32 && e->w != 64) return false;
    auto it = fintInfo.find(e->id);
    if (it != fintInfo.end()) { r = it->second; return r.iv != nullptr; }
    if (depth > 40) return false;
    FInt t;
    if (e->isConst()) {
        double d = e->w == 32 ? (double)asF(e->c) : asD(e->c);
        if (d == std::trunc(d) && std::fabs(d) <= (e->w == 32 ? 16777216.0 : 9007199254740992.0) && !(d == 0 && std::signbit(d))) { t.lo = t.hi = (i64)d; t.iv = constant((u128)(__int128)t.lo, 64); }
    } else if (e->op == OSIToF || e->op == OUIToF) {
        Expr* k = e->k[0]; u32 z = knownZeroHigh(k); __int128 lo, hi; bool sg = false;
        if (k->w > 64) return false;
        if (z || e->op == OUIToF) { lo = 0; hi = ((__int128)1 << (k->w - z)) - 1; }
        else { u32 n = k->op == OSExt ? k->k[0]->w : k->w; lo = -((__int128)1 << (n - 1)); hi = -lo - 1; sg = true; }
        if (z && k->op == OAdd && k->k[1]->isConst()) { u32 zk = knownZeroHigh(k->k[0]); __int128 m = ((__int128)1 << (k->w - zk)) - 1, c = (__int128)k->k[1]->c; if (m + c < ((__int128)1 << (k->w - 1))) { lo = c; hi = m + c; } }
        if (fintFits(lo, hi, e->w)) { t.lo = (i64)lo; t.hi = (i64)hi; t.iv = sg ? sext(k, 64) : zext(k, 64); }
    } else if (e->op == OIte) {
        FInt x, y;
        if (fint(e->k[1], x, depth + 1) && fint(e->k[2], y, depth + 1)) { t.lo = std::min(x.lo, y.lo); t.hi = std::max(x.hi, y.hi); t.iv = ite(e->k[0], x.iv, y.iv); }
    } else return false;
    if (e->isConst()) { r = t; return t.iv != nullptr; }
    fintInfo[e->id] = t; r = t;
    return t.iv != nullptr;
}
Expr* ExprCtx::fromFInt(const FInt& r, u32 w) {
    if (r.iv->isConst()) return constant(foldOp(OSIToF, w, 64, r.iv->c, 0, 0), w);
    Expr* e = mk(OSIToF, w, 1, r.iv, nullptr, nullptr, 0);
    auto it = fintInfo.find(e->id);
    if (it == fintInfo.end() || !it->second.iv) fintInfo[e->id] = r;
    else { it->second.lo = std::max(it->second.lo, r.lo); it->second.hi = std::min(it->second.hi, r.hi); }
    return e;
}

Expr* ExprCtx::bin(Op op, Expr* a, Expr* b) {
    if (a->w != b->w) { fprintf(stderr, "bin width mismatch op %d: %d vs %d\n", op, a->w, b->w); abort(); }
    u32 wa = a->w, w = (isCmp(op) || isFCmp(op)) ? 1 : wa;
    if (a->isConst() && b->isConst()) return constant(foldOp(op, w, wa, a->c, b->c, 0), w);
    if (op >= OFAdd) {
        FInt x, y;
        auto negz = [](Expr* e) { return e->isConst() && e->c == (u128)1 << (e->w - 1); };
        if (negz(a) || negz(b)) { // -0 is neutral in sums of exact integers, and a product with one of known sign is a zero of known sign
            if ((op == OFAdd || op == OFSub) && negz(b) && fint(a, x)) return a;
            if (op == OFAdd && negz(a) && fint(b, x)) return b;
            if (op == OFMul && fint(negz(a) ? b : a, x)) { if (x.lo > 0) return negz(a) ? a : b; if (x.hi < 0) return constant(0, wa); }
        }
        if (op == OFMul && ((a->isConst() && a->c == 0) || (b->isConst() && b->c == 0)) && fint(a->isConst() && a->c == 0 ? b : a, x) && x.hi < 0) return constant((u128)1 << (wa - 1), wa);
        if (op != OFDiv && op != OFRem && fint(a, x) && fint(b, y)) {
            __int128 lo, hi;
            switch (op) {
            case OFAdd: lo = (__int128)x.lo + y.lo; hi = (__int128)x.hi + y.hi; if (fintFits(lo, hi, wa)) return fromFInt({bin(OAdd, x.iv, y.iv), (i64)lo, (i64)hi}, wa); break;
            case OFSub: lo = (__int128)x.lo - y.hi; hi = (__int128)x.hi - y.lo; if (fintFits(lo, hi, wa)) return fromFInt({bin(OSub, x.iv, y.iv), (i64)lo, (i64)hi}, wa); break;
            case OFMul: {
                bool xz = x.lo <= 0 && x.hi >= 0, yz = y.lo <= 0 && y.hi >= 0;
                if ((xz && y.lo < 0) || (yz && x.lo < 0)) break;
                __int128 c[4] = {(__int128)x.lo * y.lo, (__int128)x.lo * y.hi, (__int128)x.hi * y.lo, (__int128)x.hi * y.hi};
                lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4);
                if (fintFits(lo, hi, wa)) return fromFInt({bin(OMul, x.iv, y.iv), (i64)lo, (i64)hi}, wa);
                break;
            }
            case OFOeq: return bin(OEq, x.iv, y.iv);
            case OFOlt: return bin(OSlt, x.iv, y.iv);
            case OFOle: return bin(OSle, x.iv, y.iv);
            case OFUno: return boolean(false);
            default: break;
            }
        }
        return mk(op, w, 2, a, b, nullptr, 0);
    }
    bool comm = op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor || op == OEq;
    if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
    u128 ones = maskw(wa);
    // distribute over ite of constants
    if (b->isConst() && iteConst(a))
        return ite(a->k[0], constant(foldOp(op, w, wa, a->k[1]->c, b->c, 0), w), constant(foldOp(op, w, wa, a->k[2]->c, b->c, 0), w));
    if (a->isConst() && iteConst(b))
        return ite(b->k[0], constant(foldOp(op, w, wa, a->c, b->k[1]->c, 0), w), constant(foldOp(op, w, wa, a->c, b->k[2]->c, 0), w));
    switch (op) {
    case OAdd:
        if (wa == 1) return bin(OXor, a, b);
        if (b->isConst()) {
            if (b->c == 0) return a;
            if (a->op == OAdd && a->k[1]->isConst()) return bin(OAdd, a->k[0], constant(a->k[1]->c + b->c, wa));
            if (a->op == OSub && a->k[0]->isConst()) return bin(OSub, constant(a->k[0]->c + b->c, wa), a->k[1]);
        } else {
            if (a->op == OAdd && a->k[1]->isConst()) return bin(OAdd, bin(OAdd, a->k[0], b), a->k[1]);
            if (b->op == OAdd && b->k[1]->isConst()) return bin(OAdd, bin(OAdd, a, b->k[0]), b->k[1]);
            if (b->op == OSub && b->k[1] == a) return b->k[0];
            if (a->op == OSub && a->k[1] == b) return a->k[0];
            if (a == b) return bin(OShl, a, constant(1, wa));
            if (a->op == OAdd || a->op == OSub || b->op == OAdd || b->op == OSub) if (Expr* r = linsum(a, b, false)) return r;
        }
        break;
    case OSub:
        if (wa == 1) return bin(OXor, a, b);
        if (a == b) return constant(0, wa);
        if (b->isConst()) return bin(OAdd, a, constant((u128)0 - b->c, wa));
        if (a->op == OAdd) {
            if (a->k[0] == b) return a->k[1];
            if (a->k[1] == b) return a->k[0];
        }
        if (b->op == OAdd) {
            if (b->k[0] == a) return bin(OSub, constant(0, wa), b->k[1]);
            if (b->k[1] == a) return bin(OSub, constant(0, wa), b->k[0]);
            if (b->k[1]->isConst()) return bin(OAdd, bin(OSub, a, b->k[0]), constant((u128)0 - b->k[1]->c, wa));
        }
        if (a->op == OAdd && a->k[1]->isConst()) return bin(OAdd, bin(OSub, a->k[0], b), a->k[1]);
        if (b->op == OSub && b->k[0] == a) return b->k[1];
        if (a->op == OAdd && b->op == OAdd) {
            if (a->k[0] == b->k[0]) return bin(OSub, a->k[1], b->k[1]);
            if (a->k[1] == b->k[1]) return bin(OSub, a->k[0], b->k[0]);
            if (a->k[0] == b->k[1]) return bin(OSub, a->k[1], b->k[0]);
            if (a->k[1] == b->k[0]) return bin(OSub, a->k[0], b->k[1]);
        }
        if (!a->isConst() && (a->op == OAdd || a->op == OSub || b->op == OAdd || b->op == OSub)) if (Expr* r = linsum(a, b, true)) return r;
        break;
    case OMul:
        if (wa == 1) return bin(OAnd, a, b);
        if (b->isConst()) {
            if (b->c == 0) return b;
            if (b->c == 1) return a;
            if ((b->c & (b->c - 1)) == 0) { u32 s = 0; while (!((b->c >> s) & 1)) ++s; return bin(OShl, a, constant(s, wa)); }
            if (a->op == OMul && a->k[1]->isConst()) return bin(OMul, a->k[0], constant(a->k[1]->c * b->c, wa));
        }
        break;
    case OUDiv:
        if (b->isConst()) {
            if (b->c == 1) return a;
            if (b->c && (b->c & (b->c - 1)) == 0) { u32 s = 0; while (!((b->c >> s) & 1)) ++s; return bin(OLShr, a, constant(s, wa)); }
        }
        break;
    case OURem:
        if (b->isConst()) {
            if (b->c == 1) return constant(0, wa);
            if (b->c && (b->c & (b->c - 1)) == 0) return bin(OAnd, a, constant(b->c - 1, wa));
        }
        break;
    case OSDiv:
        if (b->isConst() && b->c == 1) return a;
        if (knownZeroHigh(a) >= 1 && knownZeroHigh(b) >= 1 && !(b->isConst() && b->c == 0)) return bin(OUDiv, a, b);
        break;
    case OSRem:
        if (knownZeroHigh(a) >= 1 && knownZeroHigh(b) >= 1) return bin(OURem, a, b);
        break;
    case OAnd:
        if (a == b) return a;
        if (b->isConst()) {
            if (b->c == 0) return b;
            if (b->c == ones) return a;
            if (a->op == OAnd && a->k[1]->isConst()) return bin(OAnd, a->k[0], constant(a->k[1]->c & b->c, wa));
            u128 c = b->c;
            if ((c & (c + 1)) == 0) { // low mask
                u32 n = 0; while ((c >> n) & 1) ++n;
                if (knownZeroHigh(a) >= wa - n) return a;
                return zext(extract(a, 0, n), wa);
            }
            if (a->op == OZExt) {
                u32 ws = a->k[0]->w;
                return zext(bin(OAnd, a->k[0], constant(c, ws)), wa);
            }
        }
        if (wa == 1) {
            if (a->op == ONot && a->k[0] == b) return boolean(false);
            if (b->op == ONot && b->k[0] == a) return boolean(false);
            if (a->op == OAnd && (a->k[0] == b || a->k[1] == b)) return a;
            if (b->op == OAnd && (b->k[0] == a || b->k[1] == a)) return b;
        }
        if (a->op == OZExt && b->op == OZExt && a->k[0]->w == b->k[0]->w) return zext(bin(OAnd, a->k[0], b->k[0]), wa);
        break;
    case OOr:
        if (a == b) return a;
        if (b->isConst()) {
            if (b->c == 0) return a;
            if (b->c == ones) return b;
            if (a->op == OOr && a->k[1]->isConst()) return bin(OOr, a->k[0], constant(a->k[1]->c | b->c, wa));
        } else {
            // disjoint or -> concat
            for (int t = 0; t < 2; ++t) {
                Expr* hi = t ? b : a; Expr* lo = t ? a : b;
                u32 zl = knownZeroLow(hi);
                if (zl > 0 && zl < wa && knownZeroHigh(lo) >= wa - zl)
                    return concat(extract(hi, zl, wa - zl), extract(lo, 0, zl));
            }
        }
        if (wa == 1) {
            if (a->op == ONot && a->k[0] == b) return boolean(true);
            if (b->op == ONot && b->k[0] == a) return boolean(true);
            if (a->op == OOr && (a->k[0] == b || a->k[1] == b)) return a;
            if (b->op == OOr && (b->k[0] == a || b->k[1] == a)) return b;
        }
        if (a->op == OZExt && b->op == OZExt && a->k[0]->w == b->k[0]->w) return zext(bin(OOr, a->k[0], b->k[0]), wa);
        break;
    case OXor:
        if (a == b) return constant(0, wa);
        if (b->isConst()) {
            if (b->c == 0) return a;
            if (wa == 1) return not1(a);
            if (a->op == OXor && a->k[1]->isConst()) return bin(OXor, a->k[0], constant(a->k[1]->c ^ b->c, wa));
            if (a->op == OZExt && (b->c >> a->k[0]->w) == 0) return zext(bin(OXor, a->k[0], constant(b->c, a->k[0]->w)), wa);
        }
        if (a->op == OZExt && b->op == OZExt && a->k[0]->w == b->k[0]->w) return zext(bin(OXor, a->k[0], b->k[0]), wa);
        break;
    case OShl:
        if (b->isConst()) {
            if (b->c == 0) return a;
            if (b->c >= wa) return constant(0, wa);
            u32 s = (u32)b->c;
            if (a->op == OShl && a->k[1]->isConst()) return bin(OShl, a->k[0], constant(a->k[1]->c + s > wa ? wa : a->k[1]->c + s, wa));
            return concat(extract(a, 0, wa - s), constant(0, s));
        }
        break;
    case OLShr:
        if (b->isConst()) {
            if (b->c == 0) return a;
            if (b->c >= wa) return constant(0, wa);
            return zext(extract(a, (u32)b->c, wa - (u32)b->c), wa);
        }
        break;
    case OAShr:
        if (b->isConst()) {
            if (b->c == 0) return a;
            u32 s = b->c >= wa ? wa - 1 : (u32)b->c;
            return sext(extract(a, s, wa - s), wa);
        }
        if (knownZeroHigh(a) >= 1) return bin(OLShr, a, b);
        break;
    case OEq:
        if (b->isConst() && a->op == OSIToF) { // the bits of an exact integer
            FInt x;
            if (fint(a, x)) { double d = wa == 32 ? (double)asF(b->c) : asD(b->c); if (!(d == std::trunc(d)) || (d == 0 && std::signbit(d)) || d < (double)x.lo || d > (double)x.hi) return boolean(false); return bin(OEq, x.iv, constant((u128)(__int128)(i64)d, 64)); }
        }
        if (b->isConst() && a->op == OExtract && a->k[0]->op == OSIToF) {
            FInt x; Expr* f = a->k[0];
            if (fint(f, x) && x.hi - x.lo < 256) {
                std::vector<u64> v;
                for (i64 i = x.lo; i <= x.hi; ++i) v.push_back(((foldOp(OSIToF, f->w, 64, (u128)(__int128)i, 0, 0) >> (u32)a->c) & maskw(a->w)) == b->c);
                return table(v, extract(bin(OSub, x.iv, constant((u128)(__int128)x.lo, 64)), 0, 8), 1);
            }
        }
        if (a == b) return boolean(true);
        if (wa == 1) {
            if (b->isConst()) return b->c ? a : not1(a);
        }
        if (b->isConst()) {
            u128 c = b->c;
            switch (a->op) {
            case OZExt: {
                u32 ws = a->k[0]->w;
                if (c >> ws) return boolean(false);
                return bin(OEq, a->k[0], constant(c, ws));
            }
            case OSExt: {
                u32 ws = a->k[0]->w;
                if (((u128)sextv(c, ws) & maskw(wa)) != c) return boolean(false);
                return bin(OEq, a->k[0], constant(c, ws));
            }
            case OConcat: {
                u32 wl = a->k[1]->w;
                Expr* h = bin(OEq, a->k[0], constant(c >> wl, a->k[0]->w));
                if (h->isFalse()) return h;
                Expr* l = bin(OEq, a->k[1], constant(c, wl));
                return bin(OAnd, h, l);
            }
            case OAdd: if (a->k[1]->isConst()) return bin(OEq, a->k[0], constant(c - a->k[1]->c, wa)); break;
            case OSub: if (a->k[0]->isConst()) return bin(OEq, a->k[1], constant(a->k[0]->c - c, wa));
                if (c == 0) return bin(OEq, a->k[0], a->k[1]); break;
            case OXor: if (a->k[1]->isConst()) return bin(OEq, a->k[0], constant(c ^ a->k[1]->c, wa));
                if (c == 0) return bin(OEq, a->k[0], a->k[1]); break;
            case OIte: {
                if (a->k[1]->isConst()) {
                    Expr* r = bin(OEq, a->k[2], b);
                    return a->k[1]->c == c ? bin(OOr, a->k[0], r) : bin(OAnd, not1(a->k[0]), r);
                }
                if (a->k[2]->isConst()) {
                    Expr* r = bin(OEq, a->k[1], b);
                    return a->k[2]->c == c ? bin(OOr, not1(a->k[0]), r) : bin(OAnd, a->k[0], r);
                }
                break;
            }
            default: break;
            }
            u32 z = knownZeroHigh(a);
            if (z && z < wa) {
                if (c >> (wa - z)) return boolean(false);
            }
        } else {
            if (a->op == OZExt && b->op == OZExt) {
                u32 m = std::max(a->k[0]->w, b->k[0]->w);
                return bin(OEq, zext(a->k[0], m), zext(b->k[0], m));
            }
            if (a->op == OSExt && b->op == OSExt && a->k[0]->w == b->k[0]->w) return bin(OEq, a->k[0], b->k[0]);
            if (a->op == OAdd && b->op == OAdd && a->k[1]->isConst() && b->k[1]->isConst())
                return bin(OEq, a->k[0], bin(OAdd, b->k[0], constant(b->k[1]->c - a->k[1]->c, wa)));
            if (a->op == OAdd && (a->k[0] == b || a->k[1] == b)) return bin(OEq, a->k[0] == b ? a->k[1] : a->k[0], constant(0, wa));
            if (b->op == OAdd && (b->k[0] == a || b->k[1] == a)) return bin(OEq, b->k[0] == a ? b->k[1] : b->k[0], constant(0, wa));
            if (a->op == OAdd || a->op == OSub || b->op == OAdd || b->op == OSub) {
                Expr* d = linsum(a, b, true);
                if (d && d->isConst()) return boolean(d->c == 0);
            }
            if (a->op == OConcat && b->op == OConcat && a->k[1]->w == b->k[1]->w)
                return bin(OAnd, bin(OEq, a->k[0], b->k[0]), bin(OEq, a->k[1], b->k[1]));
        }
        break;
    case OUlt:
        if (a == b) return boolean(false);
        if (wa == 1) return bin(OAnd, not1(a), b);
        if (b->isConst()) {
            if (b->c == 0) return boolean(false);
            if (b->c == 1) return bin(OEq, a, constant(0, wa));
            if (b->c == ones) return not1(bin(OEq, a, b));
            if (a->op == OZExt) {
                u32 ws = a->k[0]->w;
                if (b->c > maskw(ws)) return boolean(true);
                return bin(OUlt, a->k[0], constant(b->c, ws));
            }
            u32 z = knownZeroHigh(a);
            if (z && b->c > maskw(wa - z)) return boolean(true);
        }
        if (a->isConst()) {
            if (a->c == ones) return boolean(false);
            if (a->c == 0) return not1(bin(OEq, b, a));
            if (a->c == ones - 1) return bin(OEq, b, constant(ones, wa));
            if (b->op == OZExt) {
                u32 ws = b->k[0]->w;
                if (a->c >= maskw(ws)) return boolean(false);
                return bin(OUlt, constant(a->c, ws), b->k[0]);
            }
            u32 z = knownZeroHigh(b);
            if (z && a->c >= maskw(wa - z)) return boolean(false);
        }
        if (a->op == OZExt && b->op == OZExt) { u32 m = std::max(a->k[0]->w, b->k[0]->w); return bin(OUlt, zext(a->k[0], m), zext(b->k[0], m)); }
        break;
    case OUle:
        if (a == b) return boolean(true);
        if (wa == 1) return bin(OOr, not1(a), b);
        if (b->isConst()) {
            if (b->c == ones) return boolean(true);
            return bin(OUlt, a, constant(b->c + 1, wa));
        }
        if (a->isConst()) {
            if (a->c == 0) return boolean(true);
            return bin(OUlt, constant(a->c - 1, wa), b);
        }
        if (a->op == OZExt && b->op == OZExt) { u32 m = std::max(a->k[0]->w, b->k[0]->w); return bin(OUle, zext(a->k[0], m), zext(b->k[0], m)); }
        break;
    case OSlt: case OSle:
        if (a == b) return boolean(op == OSle);
        if (wa == 1) return op == OSlt ? bin(OAnd, a, not1(b)) : bin(OOr, a, not1(b));
        if (knownZeroHigh(a) >= 1 && knownZeroHigh(b) >= 1) return bin(op == OSlt ? OUlt : OUle, a, b);
        if (a->op == OSExt && b->op == OSExt && a->k[0]->w == b->k[0]->w) return bin(op, a->k[0], b->k[0]);
        if (b->isConst() && a->op == OSExt) {
            u32 ws = a->k[0]->w;
            __int128 c = sextv(b->c, wa), lo = -((__int128)1 << (ws - 1)), hi = ((__int128)1 << (ws - 1)) - 1;
            if (c < lo) return boolean(false);
            if (c > hi) return boolean(true);
            return bin(op, a->k[0], constant((u128)c, ws));
        }
        if (a->isConst() && b->op == OSExt) {
            u32 ws = b->k[0]->w;
            __int128 c = sextv(a->c, wa), lo = -((__int128)1 << (ws - 1)), hi = ((__int128)1 << (ws - 1)) - 1;
            if (c < lo) return boolean(true);
            if (c > hi) return boolean(false);
            return bin(op, constant((u128)c, ws), b->k[0]);
        }
        if (b->isConst() && knownZeroHigh(a) >= 1 && sextv(b->c, wa) < 0) return boolean(false);
        if (a->isConst() && knownZeroHigh(b) >= 1 && sextv(a->c, wa) < 0) return boolean(true);
        // canonical: Sle(x, c) -> Slt(x, c+1); Sle(c, x) -> Slt(c-1, x)
        if (op == OSle && b->isConst()) {
            if (sextv(b->c, wa) == sextv(maskw(wa - 1), wa)) return boolean(true);
            return bin(OSlt, a, constant(b->c + 1, wa));
        }
        if (op == OSle && a->isConst()) {
            if (a->c == ((u128)1 << (wa - 1))) return boolean(true);
            return bin(OSlt, constant(a->c - 1, wa), b);
        }
        break;
    default: break;
    }
    return mk(op, w, 2, a, b, nullptr, 0);
}

Expr* ExprCtx::un(Op op, Expr* a, u32 w, u128 c) {
    if (!w) w = a->w;
    if (op == ONot) return not1(a);
    if (a->isConst()) return constant(foldOp(op, w, a->w, a->c, 0, c), w);
    if (op == OFRound || op == OFToSI || op == OFExt || op == OFTrunc) {
        FInt x;
        if (fint(a, x)) {
            if (op == OFRound) return a;
            if (op == OFToSI) { __int128 m = (__int128)1 << (w - 1); if (w <= 64 && x.lo >= -m && x.hi < m) return w == 64 ? x.iv : extract(x.iv, 0, w); }
            else if (fintFits(x.lo, x.hi, w)) return fromFInt(x, w);
        }
    } else if (op == OSIToF || op == OUIToF) {
        Expr* e = mk(op, w, 1, a, nullptr, nullptr, 0); FInt x;
        return (w == 32 || w == 64) && fint(e, x) ? fromFInt(x, w) : e;
    }
    return mk(op, w, 1, a, nullptr, nullptr, c);
}

Expr* ExprCtx::fma(Expr* a, Expr* b, Expr* c) {
    if (a->isConst() && b->isConst() && c->isConst()) {
        if (a->w == 32) return constant(fromF(fmaf(asF(a->c), asF(b->c), asF(c->c))), 32);
        return constant(fromD(::fma(asD(a->c), asD(b->c), asD(c->c))), 64);
    }
    FInt x, y, z;
    if (fint(a, x) && fint(b, y) && fint(c, z)) { // the exact sum of a product and +0 or any integer is never -0
        __int128 k[4] = {(__int128)x.lo * y.lo, (__int128)x.lo * y.hi, (__int128)x.hi * y.lo, (__int128)x.hi * y.hi};
        __int128 lo = *std::min_element(k, k + 4) + z.lo, hi = *std::max_element(k, k + 4) + z.hi;
        if (fintFits(lo, hi, a->w)) return fromFInt({bin(OAdd, bin(OMul, x.iv, y.iv), z.iv), (i64)lo, (i64)hi}, a->w);
    }
    return mk(OFFma, a->w, 3, a, b, c, 0);
}

Expr* ExprCtx::ite(Expr* c, Expr* a, Expr* b) {
    if (a->w != b->w) { fprintf(stderr, "ite width mismatch\n"); abort(); }
    if (c->isConst()) return c->c ? a : b;
    if (a == b) return a;
    if (c->op == ONot) return ite(c->k[0], b, a);
    if (a->w == 1) {
        if (a->isConst()) return a->c ? bin(OOr, c, b) : bin(OAnd, not1(c), b);
        if (b->isConst()) return b->c ? bin(OOr, not1(c), a) : bin(OAnd, c, a);
    }
    if (a->op == OIte && a->k[0] == c) a = a->k[1];
    if (b->op == OIte && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    if (b->op == OIte && b->k[1] == a) return ite(bin(OOr, c, b->k[0]), a, b->k[2]);
    return mk(OIte, a->w, 3, c, a, b, 0);
}

Expr* ExprCtx::concat(Expr* hi, Expr* lo) {
    u32 w = hi->w + lo->w;
    if (w > 128) { fprintf(stderr, "concat too wide %u\n", w); abort(); }
    if (hi->isConst() && lo->isConst()) return constant((hi->c << lo->w) | lo->c, w);
    if (hi->isConst() && hi->c == 0) return zext(lo, w);
    if (hi->op == OExtract && lo->op == OExtract && hi->k[0] == lo->k[0] && (u32)hi->c == (u32)lo->c + lo->w)
        return extractRaw(hi->k[0], (u32)lo->c, w);
    // x = concat(extract(top), x_low) where lo is whole var low part
    if (lo->op == OConcat) {
        Expr* t = nullptr;
        if (hi->op == OExtract && lo->k[0]->op == OExtract && hi->k[0] == lo->k[0]->k[0] && (u32)hi->c == (u32)lo->k[0]->c + lo->k[0]->w) t = concat(hi, lo->k[0]);
        else if (hi->isConst() && lo->k[0]->isConst()) t = concat(hi, lo->k[0]);
        if (t) return concat(t, lo->k[1]);
    }
    if (hi->op == OConcat && lo->op == OExtract && hi->k[1]->op == OExtract && hi->k[1]->k[0] == lo->k[0] && (u32)hi->k[1]->c == (u32)lo->c + lo->w)
        return concat(hi->k[0], extractRaw(lo->k[0], (u32)lo->c, hi->k[1]->w + lo->w));
    if (hi->op == OZExt) return zext(concat(hi->k[0], lo), w);
    if (iteConst(hi) && lo->isConst()) return ite(hi->k[0], concat(hi->k[1], lo), concat(hi->k[2], lo));
    if (iteConst(lo) && hi->isConst()) return ite(lo->k[0], concat(hi, lo->k[1]), concat(hi, lo->k[2]));
    if (hi->op == OIte && lo->op == OIte && hi->k[0] == lo->k[0]) return ite(hi->k[0], concat(hi->k[1], lo->k[1]), concat(hi->k[2], lo->k[2]));
    return mk(OConcat, w, 2, hi, lo, nullptr, 0);
}

Expr* ExprCtx::extract(Expr* a, u32 off, u32 w) {
    if (off == 0 && w == a->w) return a;
    if (off + w > a->w) { fprintf(stderr, "extract out of range\n"); abort(); }
    if (a->isConst()) return constant(a->c >> off, w);
    if (off && a->op != OVar) { u32 z = knownZeroHigh(a); if (z && off >= a->w - z) return constant(0, w); }
    switch (a->op) {
    case OExtract: return extract(a->k[0], off + (u32)a->c, w);
    case OZExt: {
        u32 ws = a->k[0]->w;
        if (off >= ws) return constant(0, w);
        if (off + w <= ws) return extract(a->k[0], off, w);
        return zext(extract(a->k[0], off, ws - off), w);
    }
    case OSExt: {
        u32 ws = a->k[0]->w;
        if (off + w <= ws) return extract(a->k[0], off, w);
        if (off < ws) return sext(extract(a->k[0], off, ws - off), w);
        return sext(extract(a->k[0], ws - 1, 1), w);
    }
    case OConcat: {
        u32 wl = a->k[1]->w;
        if (off >= wl) return extract(a->k[0], off - wl, w);
        if (off + w <= wl) return extract(a->k[1], off, w);
        return concat(extract(a->k[0], 0, off + w - wl), extract(a->k[1], off, wl - off));
    }
    case OIte:
        if (a->k[1]->isConst() || a->k[2]->isConst() || a->w > 8) {
            return ite(a->k[0], extract(a->k[1], off, w), extract(a->k[2], off, w));
        }
        break;
    case OAnd: case OOr: case OXor:
        return bin(a->op, extract(a->k[0], off, w), extract(a->k[1], off, w));
    case OAdd: case OSub: case OMul:
        if (off == 0) return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
        break;
    default: break;
    }
    return mk(OExtract, w, 1, a, nullptr, nullptr, off);
}

// A byte of a value going to memory: kept as an extract of the whole so that reading the value back reassembles it.
Expr* ExprCtx::extractRaw(Expr* a, u32 off, u32 w) {
    switch (a->op) {
    case OAdd: case OSub: case OMul: case OAnd: case OOr: case OXor:
        if (a->w == w) return a;
        { u32 z = knownZeroHigh(a); if (z && off >= a->w - z) return constant(0, w); }
        return mk(OExtract, w, 1, a, nullptr, nullptr, off);
    default: return extract(a, off, w);
    }
}

Expr* ExprCtx::zext(Expr* a, u32 w) {
    if (w == a->w) return a;
    if (a->isConst()) return constant(a->c, w);
    if (a->op == OZExt) return zext(a->k[0], w);
    if (iteConst(a)) return ite(a->k[0], constant(a->k[1]->c, w), constant(a->k[2]->c, w));
    if (a->op == OExtract && a->c == 0 && a->k[0]->w == w && knownZeroHigh(a->k[0]) >= w - a->w) return a->k[0];
    if (a->op == OAdd && knownZeroHigh(a->k[0]) && knownZeroHigh(a->k[1])) return bin(OAdd, zext(a->k[0], w), zext(a->k[1], w));
    return mk(OZExt, w, 1, a, nullptr, nullptr, 0);
}
Expr* ExprCtx::sext(Expr* a, u32 w) {
    if (w == a->w) return a;
    if (a->isConst()) return constant((u128)sextv(a->c, a->w), w);
    if (a->op == OSExt) return sext(a->k[0], w);
    if (knownZeroHigh(a) >= 1) return zext(a, w);
    if (iteConst(a)) return ite(a->k[0], sext(a->k[1], w), sext(a->k[2], w));
    if (a->w == 1) return ite(a, constant(~(u128)0, w), constant(0, w));
    return mk(OSExt, w, 1, a, nullptr, nullptr, 0);
}

Expr* ExprCtx::table(std::vector<u64> vals, Expr* idx, u32 w) {
    if (idx->isConst()) return constant(idx->c < vals.size() ? vals[(u64)idx->c] : 0, w);
    bool same = true;
    for (u64 v : vals) if (v != vals[0]) { same = false; break; }
    if (same) return constant(vals[0], w);
    std::string key((const char*)vals.data(), vals.size() * 8);
    key.push_back((char)w);
    auto it = tableIntern.find(key);
    u32 id;
    if (it == tableIntern.end()) { id = (u32)tables.size(); tables.push_back(vals); tableWidth.push_back(w); tableIntern[key] = id; }
    else id = it->second;
    return mk(OTable, w, 1, idx, nullptr, nullptr, id);
}

u128 ExprCtx::evalNode(Expr* e, const ModelVec& m) {
    switch (e->op) {
    case OConst: return e->c;
    case OVar: return (u64)e->c < m.size() ? (u128)m[(u64)e->c] : 0;
    case OIte: return eval(e->k[0], m) ? eval(e->k[1], m) : eval(e->k[2], m);
    case OConcat: { u128 h = eval(e->k[0], m); return (h << e->k[1]->w) | eval(e->k[1], m); }
    case OTable: { u128 i = eval(e->k[0], m); auto& t = tables[(u32)e->c]; return i < t.size() ? t[(u64)i] : 0; }
    case OAnd: if (e->w == 1) { if (!eval(e->k[0], m)) return 0; return eval(e->k[1], m); } break;
    case OOr: if (e->w == 1) { if (eval(e->k[0], m)) return 1; return eval(e->k[1], m); } break;
    case OFFma: {
        u128 a = eval(e->k[0], m), b = eval(e->k[1], m), c = eval(e->k[2], m);
        return e->w == 32 ? fromF(fmaf(asF(a), asF(b), asF(c))) : fromD(::fma(asD(a), asD(b), asD(c)));
    }
    default: break;
    }
    u128 a = eval(e->k[0], m);
    u128 b = e->nk > 1 ? eval(e->k[1], m) : 0;
    return foldOp(e->op, e->w, e->k[0]->w, a, b, e->c);
}

u128 ExprCtx::eval(Expr* e, const ModelVec& m) {
    if (e->op == OConst) return e->c;
    if (e->op == OVar) return (u64)e->c < m.size() ? (u128)m[(u64)e->c] : 0;
    if (evalStamp.size() <= e->id) { evalStamp.resize(all.size() + 1024, 0); evalVal.resize(all.size() + 1024, 0); }
    if (evalStamp[e->id] == evalGen) return evalVal[e->id];
    u128 v = evalNode(e, m);
    evalStamp[e->id] = evalGen;
    evalVal[e->id] = v;
    return v;
}

std::string ExprCtx::str(Expr* e, int depth) {
    static const char* names[] = {"c", "v", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "not", "ite", "concat", "extract", "zext", "sext", "table",
        "fadd", "fsub", "fmul", "fdiv", "fsqrt", "fround", "foeq", "folt", "fole", "funo", "ftosi", "ftoui", "sitof", "uitof", "fext", "ftrunc", "frem", "fma"};
    if (e->op == OConst) { char b[64]; snprintf(b, 64, "0x%llx:%u", (unsigned long long)e->c, e->w); return b; }
    if (e->op == OVar) return varInfos[(u32)e->c].name;
    if (depth == 0) return "...";
    std::string s = std::string("(") + names[e->op];
    if (e->op == OExtract) s += "[" + std::to_string((u32)e->c) + "+" + std::to_string(e->w) + "]";
    for (int i = 0; i < e->nk; ++i) s += " " + str(e->k[i], depth - 1);
    return s + ")";
}

Expr* ExprCtx::subst(Expr* e, const std::unordered_map<u32, Expr*>& m, std::unordered_map<Expr*, Expr*>& memo) {
    if (e->nk == 0) {
        if (e->op == OVar) { auto it = m.find((u32)e->c); if (it != m.end()) return it->second; }
        return e;
    }
    bool touched = false;
    for (u32 v : e->vars->v) if (m.count(v)) { touched = true; break; }
    if (!touched) return e;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    Expr* k[3] = {nullptr, nullptr, nullptr};
    for (int i = 0; i < e->nk; ++i) k[i] = subst(e->k[i], m, memo);
    Expr* r;
    switch (e->op) {
    case ONot: r = not1(k[0]); break;
    case OIte: r = ite(k[0], k[1], k[2]); break;
    case OConcat: r = concat(k[0], k[1]); break;
    case OExtract: r = extract(k[0], (u32)e->c, e->w); break;
    case OZExt: r = zext(k[0], e->w); break;
    case OSExt: r = sext(k[0], e->w); break;
    case OTable: r = table(tables[(u32)e->c], k[0], e->w); break;
    case OFFma: r = fma(k[0], k[1], k[2]); break;
    default: r = e->nk == 2 ? bin(e->op, k[0], k[1]) : un(e->op, k[0], e->w, e->c);
    }
    return memo[e] = r;
}
