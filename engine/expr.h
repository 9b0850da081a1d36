// Hash-consed bit-vector / IEEE-float expression DAG for the symbolic executor.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <array>

typedef unsigned __int128 u128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uint16_t u16;
typedef int32_t i32;

enum Op : u8 {
    OConst, OVar,
    OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem,
    OAnd, OOr, OXor, OShl, OLShr, OAShr,
    OEq, OUlt, OUle, OSlt, OSle,
    ONot,            // width 1 only
    OIte, OConcat, OExtract, OZExt, OSExt, OTable,
    // floating point (operands and results are IEEE bit patterns, width 32 or 64)
    OFAdd, OFSub, OFMul, OFDiv, OFSqrt, OFRound /* c = mode */,
    OFOeq, OFOlt, OFOle, OFUno,
    OFToSI, OFToUI, OSIToF, OUIToF, OFExt, OFTrunc, OFRem, OFFma,
    OOpMax
};

struct VarSet {
    std::vector<u32> v; // sorted
    u32 id;
};

struct Expr {
    Op op;
    u8 nk;
    uint16_t w;
    u32 id;
    u64 hash;
    Expr* k[3];
    u128 c; // const value | var index | extract offset | table index
    const VarSet* vars;
    bool isConst() const { return op == OConst; }
    u64 cv() const { return (u64)c; }
    bool isTrue() const { return op == OConst && w == 1 && c == 1; }
    bool isFalse() const { return op == OConst && w == 1 && c == 0; }
};

struct VarInfo {
    std::string name;
    u32 width;
    bool uninit;
};

typedef std::vector<u64> ModelVec;

struct ExprCtx {
    std::vector<Expr*> all;
    std::vector<VarInfo> varInfos;
    std::vector<std::vector<u64>> tables;
    std::vector<u32> tableWidth;

    ExprCtx();
    Expr* constant(u128 v, u32 w);
    Expr* boolean(bool b) { return constant(b ? 1 : 0, 1); }
    Expr* newVar(const std::string& name, u32 w, bool uninit = false);
    Expr* bin(Op op, Expr* a, Expr* b); // any binary op incl. comparisons and float
    Expr* un(Op op, Expr* a, u32 w = 0, u128 c = 0);
    Expr* not1(Expr* a);
    Expr* ite(Expr* c, Expr* a, Expr* b);
    Expr* concat(Expr* hi, Expr* lo);
    Expr* extract(Expr* a, u32 off, u32 w);
    Expr* extractRaw(Expr* a, u32 off, u32 w);
    Expr* zext(Expr* a, u32 w);
    Expr* sext(Expr* a, u32 w);
    Expr* table(std::vector<u64> vals, Expr* idx, u32 w);
    Expr* fma(Expr* a, Expr* b, Expr* c);
    Expr* subst(Expr* e, const std::unordered_map<u32, Expr*>& m, std::unordered_map<Expr*, Expr*>& memo);

    // evaluation under a (total, default 0) model
    u128 eval(Expr* e, const ModelVec& m);
    void newEval() { ++evalGen; }

    std::string str(Expr* e, int depth = 4);

private:
    std::vector<Expr*> buckets;
    size_t count = 0;
    std::unordered_map<u64, const VarSet*> vsUnion;
    std::unordered_map<u64, std::vector<const VarSet*>> vsIntern;
    u32 vsCount = 0;
    std::unordered_map<std::string, u32> tableIntern;
    std::vector<u128> evalVal;
    std::vector<u32> evalStamp;
    u32 evalGen = 1;
    char* arena = nullptr; size_t arenaLeft = 0;

public:
    const VarSet* emptySet;
    const VarSet* internVS(std::vector<u32> v);
    const VarSet* uni(const VarSet* a, const VarSet* b);
private:
    Expr* linsum(Expr* a, Expr* b, bool sub);
    Expr* mk(Op op, u32 w, u32 nk, Expr* a, Expr* b, Expr* d, u128 c);
    u128 evalNode(Expr* e, const ModelVec& m);
    void rehash();
    struct FInt { Expr* iv = nullptr; i64 lo = 0, hi = 0; }; // a float whose value is the 64-bit integer iv, lo <= iv <= hi, never -0
    std::unordered_map<u32, FInt> fintInfo;
    bool fint(Expr* e, FInt& r, int depth = 0);
    Expr* fromFInt(const FInt& r, u32 w);
    static bool fintFits(__int128 lo, __int128 hi, u32 w) { __int128 m = w == 32 ? (1 << 24) : ((__int128)1 << 53); return lo >= -m && hi <= m; }
    u32 knownZeroHigh(Expr* e, int depth = 0); // number of top bits known zero
    u32 knownZeroLow(Expr* e, int depth = 0);
    friend struct Foldhelper;
};

extern ExprCtx X;

inline u128 maskw(u32 w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline __int128 sextv(u128 v, u32 w) {
    if (w >= 128) return (__int128)v;
    u128 s = (u128)1 << (w - 1);
    return (__int128)(((v & maskw(w)) ^ s) - s);
}
u128 foldOp(Op op, u32 w, u32 wa, u128 a, u128 b, u128 c);
