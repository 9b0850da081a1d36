// Services: one object per interface, started when first wanted, carried over when the provider is replaced.
#include <cstring>
#include <nsx.h>
#include <neolib/core/service.hpp>
#include <../src/core/service.cpp>
using namespace neolib;
static unsigned pick(unsigned lo, unsigned hi, const char* w) { return lo == hi ? lo : (unsigned)nsx_choice(lo, hi, w); }
static uint16_t ida, idb; static int held; static unsigned starts[2]; static bool locked;
static uuid of(uint16_t x) { return uuid{ 1, 1, x, 3, { 4, 5, 6, 7, (uint8_t)x, (uint8_t)(x >> 8) } }; }   // any two, whose hashes meet
struct Base : i_service { uint32_t tag = 0; };
struct A : Base { static const uuid iid() { return of(ida); } };
struct B : Base { static const uuid iid() { return of(idb); } };
static A a[2]; static B b[2];
// a provider that notices how it is used: the real one, with the locks counted
struct counting : i_service_provider {
    services::service_provider p;
    bool try_lock() final { bool r = p.try_lock(); held += r; return r; } void lock() final { p.lock(); ++held; } void unlock() final { nsx_assert(held > 0, "unlocked when locked"); --held; p.unlock(); }
    bool service_registered(uuid i) const final { return p.service_registered(i); } i_service& service(uuid i) final { return p.service(i); }
    void register_service(i_service& s, uuid i) final { p.register_service(s, i); } void unregister_service(uuid i) final { p.unregister_service(i); }
    void migrate_to(i_service_provider& o) final { p.migrate_to(o); }
};
namespace neolib::services { template <> A& start_service<A>() { ++starts[0]; locked &= !dynamic_cast<counting*>(&get_service_provider()) || held > 0; return a[1]; } template <> B& start_service<B>() { ++starts[1]; return b[1]; } }
template <typename S> static void op(S* s, S*& in, unsigned& want, unsigned n) {
    switch (n) {
    case 0: register_service<S>(s[0]); in = &s[0]; break;
    case 1: { bool th = false; try { unregister_service<S>(s[0]); } catch (service_not_found&) { th = true; } nsx_assert(th == !in, "only what is registered can be unregistered"); in = nullptr; break; }
    case 2: { S& g = service<S>(); if (!in) { in = &s[1]; ++want; nsx_reach("started"); } nsx_assert(&g == in, "the service registered, or one started now"); break; }
    }
}
static void history(unsigned ops) {
    auto& inst = get_service_provider_instance(); inst.instance.reset(); service_ptr<A>() = nullptr; service_ptr<B>() = nullptr; starts[0] = starts[1] = 0; held = 0; locked = true; A* ina = nullptr; B* inb = nullptr; unsigned wa = 0, wb = 0; ida = nsx_u16("id"); idb = nsx_u16("id"); nsx_assume(ida != idb);
    bool th = false; try { get_service_provider(); } catch (no_service_provider_instance&) { th = true; } nsx_assert(th && !service_provider_allocated(), "no provider at first");
    counting p[2]; i_service_provider* cur; if (pick(0, 1, "own")) { set_service_provider(p[0]); cur = &p[0]; } else { cur = &allocate_service_provider(); th = false; try { allocate_service_provider(); } catch (service_provider_instance_exists&) { th = true; } nsx_assert(th, "one provider"); }
    for (unsigned o = 0; o < ops; ++o) {
        unsigned n = pick(0, 8, "op");
        if (n < 3) op<A>(a, ina, wa, n); else if (n < 6) op<B>(b, inb, wb, n - 3);
        else { i_service_provider* to = n == 8 ? cur : &p[n - 6]; nsx_reach(to == cur ? "provider set again" : "provider replaced"); set_service_provider(*to); cur = to; }
        nsx_assert(service_provider_allocated() && &get_service_provider() == cur, "the provider set");
        nsx_assert(service_registered<A>() == (ina != nullptr) && service_registered<B>() == (inb != nullptr), "what is registered"); nsx_assert(starts[0] == wa && starts[1] == wb, "started only when wanted and missing"); nsx_assert(held == 0 && locked, "locked while starting, and unlocked after");
        A* ga = nullptr; try { ga = &get_service_provider().service<A>(); } catch (service_not_found&) {} nsx_assert(ga == ina, "the provider's service"); B* gb = nullptr; try { gb = &get_service_provider().service<B>(); } catch (service_not_found&) {} nsx_assert(gb == inb, "the provider's service");
        for (auto& q : p) if (&q != cur) nsx_assert(q.p.services.empty(), "nothing stays behind");
    }
    inst.instance.reset(); nsx_reach("history");
}
void nsx_main() { history(nsx_param(0, 3)); }
