// Runtime model linked (as bitcode) into every harness: the parts of libsupc++/libstdc++/libc that live in
// shared libraries rather than headers.  Semantics, not performance, is what matters here (the red-black tree
// helpers keep a plain binary search tree, hash functions are cheap): containers built on them behave the same.
#include <bits/stdc++.h>
#include <cxxabi.h>
#include <ext/concurrence.h>

extern "C" {
void nsx_unwind(void*) __attribute__((noreturn));
void nsx_fail(const char*) __attribute__((noreturn));
}

// ---------------------------------------------------------------- exceptions
namespace {
struct Hdr { const std::type_info* ti; void (*dtor)(void*); long handlers; Hdr* next; void* adjusted; long rethrown; long refs; long pad; };
static_assert(sizeof(Hdr) == 64);
Hdr* caughtStack = nullptr;
unsigned uncaught = 0;
inline Hdr* H(void* e) { return (Hdr*)e - 1; }
void release(Hdr* h) {
    if (--h->refs > 0) return;
    if (h->dtor) h->dtor(h + 1);
    free(h);
}
}
#define UNTYPED extern "C" __attribute__((noinline))
UNTYPED void* rt_allocate_exception(size_t n) __asm__("__cxa_allocate_exception");
UNTYPED void* rt_allocate_exception(size_t n) { Hdr* h = (Hdr*)malloc(n + sizeof(Hdr)); memset(h, 0, sizeof(Hdr)); return h + 1; }
UNTYPED void rt_free_exception(void* e) __asm__("__cxa_free_exception");
UNTYPED void rt_free_exception(void* e) { free(H(e)); }
UNTYPED void rt_throw(void* e, std::type_info* ti, void (*d)(void*)) __asm__("__cxa_throw");
UNTYPED void rt_throw(void* e, std::type_info* ti, void (*d)(void*)) {
    Hdr* h = H(e); h->ti = ti; h->dtor = d; h->handlers = 0; h->refs = 1; h->adjusted = e; ++uncaught; nsx_unwind(e);
}
UNTYPED void* rt_begin_catch(void* e) __asm__("__cxa_begin_catch");
UNTYPED void* rt_begin_catch(void* e) {
    Hdr* h = H(e);
    if (h->rethrown) { h->rethrown = 0; }
    h->handlers++;
    --uncaught;
    if (h != caughtStack) { h->next = caughtStack; caughtStack = h; }
    return h->adjusted;
}
UNTYPED void rt_end_catch() __asm__("__cxa_end_catch");
UNTYPED void rt_end_catch() {
    Hdr* h = caughtStack;
    if (!h) return;
    if (--h->handlers == 0) {
        caughtStack = h->next;
        if (!h->rethrown) release(h);
    }
}
UNTYPED void rt_rethrow() __asm__("__cxa_rethrow");
UNTYPED void rt_rethrow() {
    Hdr* h = caughtStack;
    if (!h) nsx_fail("rethrow without active exception");
    h->rethrown = 1; ++uncaught;
    nsx_unwind(h + 1);
}
UNTYPED void* rt_get_exception_ptr(void* e) __asm__("__cxa_get_exception_ptr");
UNTYPED void* rt_get_exception_ptr(void* e) { return H(e)->adjusted; }
UNTYPED int __gxx_personality_v0(...) { return 0; }
namespace std {
bool uncaught_exception() noexcept { return uncaught != 0; }
int uncaught_exceptions() noexcept { return uncaught; }
namespace __exception_ptr {
exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) { _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) H(_M_exception_object)->refs++; }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { release(H(_M_exception_object)); _M_exception_object = nullptr; } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const type_info* exception_ptr::__cxa_exception_type() const noexcept { return H(_M_exception_object)->ti; }
}
exception_ptr current_exception() noexcept { exception_ptr r; if (caughtStack) { *(void**)&r = caughtStack + 1; caughtStack->refs++; } return r; }
void rethrow_exception(exception_ptr p) { void* e = *(void**)&p; Hdr* h = H(e); h->refs++; h->handlers = 0; h->adjusted = e; ++uncaught; p.~exception_ptr(); new (&p) exception_ptr; nsx_unwind(e); }
}
// ---------------------------------------------------------------- type info
void* vt_fund[16] __asm__("_ZTVN10__cxxabiv123__fundamental_type_infoE");
void* vt_arr[16] __asm__("_ZTVN10__cxxabiv117__array_type_infoE");
void* vt_fn[16] __asm__("_ZTVN10__cxxabiv120__function_type_infoE");
void* vt_enum[16] __asm__("_ZTVN10__cxxabiv116__enum_type_infoE");
void* vt_class[16] __asm__("_ZTVN10__cxxabiv117__class_type_infoE");
void* vt_si[16] __asm__("_ZTVN10__cxxabiv120__si_class_type_infoE");
void* vt_vmi[16] __asm__("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
void* vt_ptr[16] __asm__("_ZTVN10__cxxabiv119__pointer_type_infoE");
void* vt_ptm[16] __asm__("_ZTVN10__cxxabiv129__pointer_to_member_type_infoE");
extern "C" { struct FundTi { void* vt; const char* name; };
#define FUND(c) FundTi ti_##c __asm__("_ZTI" #c) = { &vt_fund[2], #c };
FUND(v) FUND(b) FUND(c) FUND(a) FUND(h) FUND(s) FUND(t) FUND(i) FUND(j) FUND(l) FUND(m) FUND(x) FUND(y) FUND(f) FUND(d) FUND(w)
#undef FUND
}
namespace {
struct TI { void** vt; const char* name; };
struct SiTI : TI { const TI* base; };
struct BaseI { const TI* base; long off; };
struct VmiTI : TI { unsigned flags, count; BaseI b[1]; };
bool sameTI(const TI* a, const TI* b) { return a == b || a->name == b->name || !strcmp(a->name, b->name); }
// search subobjects of type dst below (ti,obj); count distinct
struct Found { char* p; int n; };
bool containsSub(const TI* ti, char* obj, const TI* src, const char* sp) {
    if (obj == sp && sameTI(ti, src)) return true;
    if (ti->vt == vt_si + 2) return containsSub(((const SiTI*)ti)->base, obj, src, sp);
    if (ti->vt == vt_vmi + 2) {
        auto* v = (const VmiTI*)ti;
        for (unsigned i = 0; i < v->count; ++i) {
            long of = v->b[i].off; if (!(of & 2)) continue;
            long off = of >> 8; if (of & 1) off = *(long*)(*(char**)obj + off);
            if (containsSub(v->b[i].base, obj + off, src, sp)) return true;
        }
    }
    return false;
}
void findDst(const TI* ti, char* obj, const TI* dst, Found& f) {
    if (sameTI(ti, dst)) { if (f.n == 0 || f.p != obj) { f.p = obj; f.n++; } return; }
    if (ti->vt == vt_si + 2) findDst(((const SiTI*)ti)->base, obj, dst, f);
    else if (ti->vt == vt_vmi + 2) {
        auto* v = (const VmiTI*)ti;
        for (unsigned i = 0; i < v->count; ++i) {
            long of = v->b[i].off; if (!(of & 2)) continue;
            long off = of >> 8; if (of & 1) off = *(long*)(*(char**)obj + off);
            findDst(v->b[i].base, obj + off, dst, f);
        }
    }
}
void findDstContaining(const TI* ti, char* obj, const TI* dst, const TI* src, const char* sp, Found& f) {
    if (sameTI(ti, dst)) { if (containsSub(ti, obj, src, sp) && (f.n == 0 || f.p != obj)) { f.p = obj; f.n++; } return; }
    if (ti->vt == vt_si + 2) findDstContaining(((const SiTI*)ti)->base, obj, dst, src, sp, f);
    else if (ti->vt == vt_vmi + 2) {
        auto* v = (const VmiTI*)ti;
        for (unsigned i = 0; i < v->count; ++i) {
            long of = v->b[i].off; if (!(of & 2)) continue;
            long off = of >> 8; if (of & 1) off = *(long*)(*(char**)obj + off);
            findDstContaining(v->b[i].base, obj + off, dst, src, sp, f);
        }
    }
}
}
UNTYPED void* rt_dyncast(const void* src, const TI* st, const TI* dt, long) __asm__("__dynamic_cast");
UNTYPED void* rt_dyncast(const void* src, const TI* st, const TI* dt, long) {
    void** vt = *(void***)src;
    char* whole = (char*)src + (long)vt[-2];
    const TI* wt = (const TI*)vt[-1];
    Found f{nullptr, 0};
    findDstContaining(wt, whole, dt, st, (const char*)src, f);
    if (f.n == 1) return f.p;
    f = {nullptr, 0};
    findDst(wt, whole, dt, f);
    return f.n == 1 ? f.p : nullptr;
}
UNTYPED void rt_bad_cast() __asm__("__cxa_bad_cast"); void rt_bad_cast() { throw std::bad_cast(); }
UNTYPED void rt_bad_typeid() __asm__("__cxa_bad_typeid"); void rt_bad_typeid() { throw std::bad_typeid(); }
UNTYPED void rt_bad_anl() __asm__("__cxa_throw_bad_array_new_length"); void rt_bad_anl() { throw std::bad_array_new_length(); }
UNTYPED void rt_pure() __asm__("__cxa_pure_virtual"); void rt_pure() { nsx_fail("pure virtual function called"); }
UNTYPED void rt_deleted() __asm__("__cxa_deleted_virtual"); void rt_deleted() { nsx_fail("deleted virtual function called"); }
UNTYPED int rt_guard_acq(long* g) __asm__("__cxa_guard_acquire"); int rt_guard_acq(long* g) { return *(char*)g == 0; }
UNTYPED void rt_guard_rel(long* g) __asm__("__cxa_guard_release"); void rt_guard_rel(long* g) { *(char*)g = 1; }
UNTYPED void rt_guard_ab(long* g) __asm__("__cxa_guard_abort"); void rt_guard_ab(long* g) {}
void* __dso_handle_ __asm__("__dso_handle");
namespace std {
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return ((const TI*)this)->vt == vt_ptr + 2; }
bool type_info::__is_function_p() const { return ((const TI*)this)->vt == vt_fn + 2; }
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

__cow_string::__cow_string() { char* p = (char*)malloc(1); *p = 0; _M_p = p; }
__cow_string::__cow_string(const std::string& s) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); _M_p = p; }
static char* dupstr(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); memcpy(p, s, n); return p; }
__cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = dupstr(o._M_p); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = dupstr(o._M_p); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = dupstr(o._M_p); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = dupstr(o._M_p); } return *this; }
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define LE(X, B) X::X(const string& s) : B(s) {} X::X(const char* s) : B(s) {} X::~X() noexcept {}
LE(domain_error, logic_error) LE(invalid_argument, logic_error) LE(length_error, logic_error) LE(out_of_range, logic_error)
LE(range_error, runtime_error) LE(overflow_error, runtime_error) LE(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __glibcxx_assert_fail(const char*, int, const char*, const char* c) noexcept { nsx_fail("libstdc++ assertion"); }

// ---------------------------------------------------------------- containers
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
    if (this != l) {
        l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
        _List_node_base* const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
    }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = _M_next; _List_node_base* const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const size_t pr[] = {1, 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949};
    for (size_t p : pr) if (p >= n) { const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = (size_t)(p * _M_max_load_factor); return p; }
    nsx_fail("hash table too large for the model");
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize) {
        size_t mb = max<size_t>(ne + ni, _M_next_resize ? 0 : 11);
        if (mb >= nb) return {true, _M_next_bkt(max<size_t>(mb + 1, nb * 2))};
        const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = nb;
    }
    return {false, 0};
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { (void)p; return n; }
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { (void)p; return n; }

static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) {
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black; // header is the only red node
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
    } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    auto replaceChild = [&](_Rb_tree_node_base* n, _Rb_tree_node_base* r) {
        if (h._M_parent == n) h._M_parent = r; else if (n->_M_parent->_M_left == n) n->_M_parent->_M_left = r; else n->_M_parent->_M_right = r;
        if (r) r->_M_parent = n->_M_parent;
    };
    _Rb_tree_node_base* nl = h._M_left == z ? inc(z) : h._M_left;
    _Rb_tree_node_base* nr = h._M_right == z ? dec(z) : h._M_right;
    if (!z->_M_left) replaceChild(z, z->_M_right);
    else if (!z->_M_right) replaceChild(z, z->_M_left);
    else {
        _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { replaceChild(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replaceChild(z, y);
        y->_M_left = z->_M_left; y->_M_left->_M_parent = y; y->_M_color = z->_M_color;
    }
    h._M_left = nl; h._M_right = nr;
    return z;
}
unsigned int _Rb_tree_black_count(const _Rb_tree_node_base*, const _Rb_tree_node_base*) throw() { return 0; }
// ---------------------------------------------------------------- misc libstdc++
namespace chrono { inline namespace _V2 {
extern "C" unsigned long long nsx_clock();
}}
}
namespace std { inline namespace __cxx11 { } }

// ---------------------------------------------------------------- libc
static int the_errno;
extern "C" {
int* __errno_location() noexcept { return &the_errno; }
size_t strlen(const char* s) noexcept { const char* p = s; while (*p) ++p; return p - s; }
size_t strnlen(const char* s, size_t n) noexcept { size_t i = 0; while (i < n && s[i]) ++i; return i; }
int strcmp(const char* a, const char* b) noexcept { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) noexcept { for (; n; --n, ++a, ++b) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
char* strcpy(char* d, const char* s) noexcept { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* rt_strchr(const char* s, int c) asm("strchr");
char* rt_strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* rt_strrchr(const char* s, int c) asm("strrchr");
char* rt_strrchr(const char* s, int c) { const char* r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* rt_strstr(const char* h, const char* n) asm("strstr");
char* rt_strstr(const char* h, const char* n) { size_t k = strlen(n); for (;; ++h) { if (!strncmp(h, n, k)) return (char*)h; if (!*h) return nullptr; } }
char* rt_strpbrk(const char* s, const char* a) asm("strpbrk");
char* rt_strpbrk(const char* s, const char* a) { for (; *s; ++s) if (rt_strchr(a, *s)) return (char*)s; return nullptr; }
int strncasecmp(const char* a, const char* b, size_t n) noexcept { for (; n; --n, ++a, ++b) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
int strcasecmp(const char* a, const char* b) noexcept { return strncasecmp(a, b, (size_t)-1); }
char* strcat(char* d, const char* s) noexcept { strcpy(d + strlen(d), s); return d; }
size_t wcslen(const wchar_t* s) noexcept { const wchar_t* p = s; while (*p) ++p; return p - s; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) noexcept { for (size_t i = 0; i < n; ++i) d[i] = s[i]; return d; }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) noexcept { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) noexcept { memmove(d, s, n * sizeof(wchar_t)); return d; }
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) noexcept { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
#undef isalpha
static const unsigned short* ctab();
static const int* ltab(); static const int* utab();
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int isxdigit(int c) noexcept { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
int isalpha(int c) noexcept { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); }
int isprint(int c) noexcept { return c >= 32 && c < 127; }
int isgraph(int c) noexcept { return c > 32 && c < 127; }
int ispunct(int c) noexcept { return isgraph(c) && !isalnum(c); }
int iscntrl(int c) noexcept { return (c >= 0 && c < 32) || c == 127; }
int isblank(int c) noexcept { return c == ' ' || c == 9; }
int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static unsigned short ct[384]; static int lt[384], ut[384]; static bool tabInit;
static const unsigned short* ctp = ct + 128; static const int *ltp = lt + 128, *utp = ut + 128;
static void initTabs() {
    if (tabInit) return; tabInit = true;
    for (int i = -128; i < 256; ++i) {
        int c = i; unsigned short m = 0;
        if (i >= 0) {
            if (isupper(c)) m |= 0x100; if (islower(c)) m |= 0x200; if (isalpha(c)) m |= 0x400; if (isdigit(c)) m |= 0x800; if (isxdigit(c)) m |= 0x1000;
            if (isspace(c)) m |= 0x2000; if (isprint(c)) m |= 0x4000; if (isgraph(c)) m |= 0x8000; if (isblank(c)) m |= 1; if (iscntrl(c)) m |= 2; if (ispunct(c)) m |= 4; if (isalnum(c)) m |= 8;
        }
        ct[i + 128] = m; lt[i + 128] = tolower(c); ut[i + 128] = toupper(c);
    }
}
const unsigned short** __ctype_b_loc() noexcept { initTabs(); return (const unsigned short**)&ctp; }
const int** __ctype_tolower_loc() noexcept { initTabs(); return (const int**)&ltp; }
const int** __ctype_toupper_loc() noexcept { initTabs(); return (const int**)&utp; }

static unsigned long rt_strtou(const char* s, char** end, int base, bool sgn, bool& neg, bool& over, bool& any) {
    const char* p = s; while (isspace((unsigned char)*p)) ++p;
    neg = false; if (*p == '+') ++p; else if (*p == '-') { neg = true; ++p; }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long v = 0; over = false; any = false;
    for (;; ++p) {
        int c = (unsigned char)*p, d;
        if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
        if (d >= base) break;
        any = true;
        unsigned __int128 t = (unsigned __int128)v * base + d;
        if (t >> 64) over = true;
        v = (unsigned long)t;
    }
    if (end) *end = (char*)(any ? p : s);
    return v;
}
unsigned long strtoul(const char* s, char** e, int b) noexcept { bool n, o, a; unsigned long v = rt_strtou(s, e, b, false, n, o, a); if (o) { the_errno = ERANGE; return ~0ul; } return n ? -v : v; }
unsigned long long strtoull(const char* s, char** e, int b) noexcept { return strtoul(s, e, b); }
long strtol(const char* s, char** e, int b) noexcept {
    bool n, o, a; unsigned long v = rt_strtou(s, e, b, true, n, o, a);
    if (n) { if (o || v > 0x8000000000000000ul) { the_errno = ERANGE; return LONG_MIN; } return (long)(0 - v); }
    if (o || v > 0x7ffffffffffffffful) { the_errno = ERANGE; return LONG_MAX; }
    return (long)v;
}
long long strtoll(const char* s, char** e, int b) noexcept { return strtol(s, e, b); }
// pthread pieces used by header-only code in single-threaded harnesses
int pthread_mutex_lock(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_unlock(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_trylock(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) noexcept { return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutexattr_init(pthread_mutexattr_t*) noexcept { return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t*, int) noexcept { return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t*) noexcept { return 0; }
pthread_t pthread_self() noexcept { return 1; }
char __libc_single_threaded = 1;
}
// libstdc++ keeps this member out of line in the shared library
template void std::__cxx11::basic_string<char>::_M_replace_cold(char*, size_type, const char*, size_type, size_type);
#include "streams.inc"
