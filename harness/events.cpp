// Events: who is called, in what order, with what, and when delivery stops.
#include "shim.h"
#include <nsx.h>
#include <neolib/task/event.hpp>
#include <vector>
using namespace neolib;
static unsigned pick(unsigned lo, unsigned hi, const char* w) { return lo == hi ? lo : (unsigned)nsx_choice(lo, hi, w); }
enum Act { NONE, ACCEPT, LEAVE, DROP_OTHER, JOIN, AGAIN, DESTROY, ACCEPT_DESTROY, LEAVE_ACCEPT, NACT };
static unsigned g_tokens; struct Token { Token() { ++g_tokens; } Token(const Token&) { ++g_tokens; } ~Token() { --g_tokens; } };
struct Log { unsigned id; uint32_t arg; bool operator==(const Log& o) const { return id == o.id && arg == o.arg; } };
typedef event<uint32_t> E;
enum { MAX = 8 };
struct World {
    E* e; sink* s[MAX]; Act act[MAX]; unsigned other[MAX]; unsigned n = 0; std::vector<Log> got; bool fired[MAX] = {}; bool nested = false;
    // the model
    unsigned order[MAX], no = 0; bool alive = true; std::vector<Log> want; bool mfired[MAX] = {}, mnested = false; bool left[MAX] = {};
};
static World* w; static trigger_result inner; 
static void handler(unsigned id, uint32_t x);
static unsigned subscribe(bool prio) { unsigned id = w->n++; w->s[id] = new sink; w->fired[id] = false; w->mfired[id] = false; w->left[id] = false; *w->s[id] = (*w->e)([id, tk = Token()](uint32_t x) { handler(id, x); }, prio); return id; }
static void msub(unsigned id, bool prio) { if (prio) { for (unsigned i = w->no; i > 0; --i) w->order[i] = w->order[i - 1]; w->order[0] = id; } else w->order[w->no] = id; ++w->no; }
static void munsub(unsigned id) { unsigned k = 0; for (unsigned i = 0; i < w->no; ++i) if (w->order[i] != id) w->order[k++] = w->order[i]; w->no = k; w->left[id] = true; }
static bool g_prio; static unsigned g_joined;
static void handler(unsigned id, uint32_t x) {
    w->got.push_back({ id, x }); if (w->fired[id]) return; w->fired[id] = true;      // each handler acts the first time only
    switch (w->act[id]) {
    case ACCEPT: w->e->accept(); break;
    case LEAVE: w->s[id]->clear(); break;
    case LEAVE_ACCEPT: w->s[id]->clear(); w->e->accept(); break;
    case DROP_OTHER: w->s[w->other[id]]->clear(); break;
    case JOIN: w->act[w->n] = NONE; g_joined = subscribe(g_prio); break;
    case AGAIN: inner = w->e->trigger(x + 1); break;
    case DESTROY: delete w->e; w->e = nullptr; break;
    case ACCEPT_DESTROY: w->e->accept(); delete w->e; w->e = nullptr; break;
    default: break;
    }
}
static trigger_result minner; static unsigned mjoin;
static trigger_result model(uint32_t x) {    // who should be called
    unsigned snap[MAX], k = w->no; for (unsigned i = 0; i < k; ++i) snap[i] = w->order[i];
    for (unsigned i = 0; i < k; ++i) { unsigned id = snap[i]; if (w->left[id]) continue; bool acc = false;
        w->want.push_back({ id, x }); if (w->mfired[id]) continue; w->mfired[id] = true;
        switch (w->act[id]) { case ACCEPT: acc = true; break; case LEAVE: munsub(id); break; case LEAVE_ACCEPT: munsub(id); acc = true; break; case DROP_OTHER: munsub(w->other[id]); break; case JOIN: { unsigned j = mjoin++; w->left[j] = false; msub(j, g_prio); break; } case AGAIN: minner = model(x + 1); break; case DESTROY: case ACCEPT_DESTROY: w->alive = false; w->no = 0; break; default: break; }
        if (!w->alive) return trigger_result::Unaccepted; if (acc) return trigger_result::Accepted; }
    return trigger_result::Unaccepted;
}
static void same() { nsx_assert(w->got.size() == w->want.size(), "as many calls"); for (unsigned i = 0; i < w->want.size(); ++i) nsx_assert(w->got[i] == w->want[i], "the handlers called, in order, with the argument"); if (w->alive) nsx_assert(w->e->has_slots() == (w->no > 0), "has_slots"); }
static void history(unsigned n, unsigned acts) {
    World ww; w = &ww; w->e = new E; inner = minner = trigger_result::Unknown; unsigned base = 0;
    if (nsx_param(4, 0)) w->e->set_trigger_type(trigger_type::SynchronousDontQueue);
    unsigned k = pick(0, n, "handlers"); g_prio = false;
    for (unsigned i = 0; i < k; ++i) { bool p = i ? pick(0, 1, "priority") : false; w->act[i] = NONE; unsigned id = subscribe(p); msub(id, p); }
    for (unsigned i = 0; i < k && acts; ++i) { Act a = (Act)pick(0, NACT - 1, "action"); w->act[i] = a; if (a != NONE) --acts; if (a == DROP_OTHER) { w->other[i] = pick(0, k - 1, "whom"); nsx_reach("unsubscribed by another"); } if (a == JOIN) { g_prio = pick(0, 1, "joins first"); nsx_reach("joined"); } if (a == DESTROY || a == ACCEPT_DESTROY) nsx_reach("destroyed"); if (a == ACCEPT) nsx_reach("accepted"); if (a == AGAIN) nsx_reach("nested"); }
    mjoin = k; uint32_t x = nsx_u32("argument");
    if (k && pick(0, 1, "one leaves first")) { unsigned g = pick(0, k - 1, "who"); w->s[g]->clear(); munsub(g); nsx_assert(w->s[g]->empty(), "empty sink"); }
    for (unsigned t = 0; t < 2 && w->alive; ++t) { trigger_result r = (*w->e)(x + 16 * t); trigger_result q = model(x + 16 * t); same(); nsx_assert(r == q && event_consumed(r) == (q == trigger_result::Accepted), "trigger result"); nsx_assert(inner == minner, "nested trigger result"); }
    if (!w->alive) { E e2; unsigned c = 0; sink s1, s2; s1 = e2([&](uint32_t) { ++c; }); s2 = e2([&](uint32_t) { ++c; }); nsx_assert(e2.trigger(1) == trigger_result::Unaccepted && c == 2, "another event afterwards calls all its handlers"); }
    bool first = pick(0, 1, "event goes first"); if (first && w->e) { delete w->e; w->e = nullptr; }
    for (unsigned i = 0; i < w->n; ++i) delete w->s[i];
    if (w->e) { nsx_assert(!w->e->has_slots() , "no handlers left"); nsx_assert(w->e->trigger(x) == trigger_result::Unaccepted, "nobody to call"); nsx_assert(w->got.size() == w->want.size(), "unsubscribed handlers are not called"); delete w->e; }
    nsx_assert(g_tokens == 0, "every handler released"); nsx_reach("history");
}
// ---- queued delivery: what was triggered is delivered by the next pump, to those still subscribed to an event that still exists
static void queued(unsigned steps) {
    enum { K = 3 }; struct Q { unsigned ev, slot; uint32_t arg; }; struct Sub { unsigned ev; bool live, single; unsigned act; };
    static std::vector<Log>* got; std::vector<Log> g; got = &g; static unsigned acts[MAX]; static event<uint32_t>* ev[2]; static sink* sk[MAX]; static bool acted[MAX];
    auto& q = async_event_queue::instance(); while (q.pump_events()) ;
    for (unsigned k = 0; k < 2; ++k) ev[k] = new event<uint32_t>; bool alive[2] = { true, true }, dq[2]; for (unsigned k = 0; k < 2; ++k) { dq[k] = pick(0, 1, "once queued"); ev[k]->set_trigger_type(dq[k] ? trigger_type::AsynchronousDontQueue : trigger_type::Asynchronous); }
    Sub subs[MAX]; unsigned ns = 0; std::vector<Q> pend, single; unsigned order[2][MAX], no[2] = { 0, 0 };
    auto drop = [&](unsigned i) { subs[i].live = false; unsigned e = subs[i].ev, k = 0; for (unsigned j = 0; j < no[e]; ++j) if (order[e][j] != i) order[e][k++] = order[e][j]; no[e] = k; };
    auto trig = [&](unsigned e, uint32_t x) { for (unsigned j = 0; j < no[e]; ++j) { unsigned i = order[e][j]; if (subs[i].single || dq[e]) { bool f = false; for (auto& z : single) if (z.slot == i) { z.arg = x; f = true; } if (!f) single.push_back({ e, i, x }); } else pend.push_back({ e, i, x }); } };
    auto pump = [&]() { g.clear(); std::vector<Q> w, u; w.swap(pend); u.swap(single); std::vector<Log> want; bool some = false; bool r = q.pump_events();
        unsigned at = 0; auto deliver = [&](const Q& z) { some = true; unsigned a = acts[z.slot]; if (a == 0 || subs[z.slot].act) return; subs[z.slot].act = 1; switch (a) { case 1: drop(z.slot); break; case 2: for (unsigned j = 0; j < ns; ++j) if (j != z.slot && subs[j].live) drop(j); break; case 3: trig(z.ev, z.arg + 1); break; case 4: alive[z.ev] = false; for (unsigned j = 0; j < ns; ++j) if (subs[j].ev == z.ev) subs[j].live = false; no[z.ev] = 0; break; } };
        for (auto& z : w) if (alive[z.ev] && subs[z.slot].live) { nsx_assert(at < g.size() && g[at].id == z.slot && g[at].arg == z.arg, "queued calls arrive in order with their argument"); ++at; deliver(z); }
        if (u.size() == 1) { auto& z = u[0]; if (alive[z.ev] && subs[z.slot].live) { nsx_assert(at < g.size() && g[at].id == z.slot && g[at].arg == z.arg, "a call queued once carries the latest argument"); ++at; deliver(z); nsx_reach("queued once"); } }
        else { while (at < g.size()) { unsigned f = u.size(); for (unsigned k = 0; k < u.size(); ++k) if (u[k].slot == g[at].id && u[k].slot != 99) f = k; nsx_assert(f < u.size() && alive[u[f].ev] && subs[u[f].slot].live && g[at].arg == u[f].arg, "a call queued once, to a subscriber, with the latest argument"); Q z = u[f]; u[f].slot = 99; ++at; deliver(z); } for (auto& z : u) if (z.slot != 99) nsx_assert(!(alive[z.ev] && subs[z.slot].live), "every call queued once arrives"); }
        nsx_assert(at == g.size(), "nothing else is called"); nsx_assert(r == some, "pump reports whether it did something"); };
    for (unsigned s = 0; s < steps; ++s) switch (pick(s ? 0 : 1, 4, "op")) {
        case 0: { unsigned e = pick(0, 1, "event"); if (!alive[e]) nsx_assume(false); uint32_t x = nsx_u32("argument"); trigger_result r = ev[e]->trigger(x); nsx_assert(r == trigger_result::Unknown, "not known yet"); trig(e, x); nsx_reach("queued"); break; }
        case 1: { unsigned e = ns ? pick(0, 1, "event") : 0; if (!alive[e] || ns >= K) nsx_assume(false); unsigned i = ns++; sk[i] = new sink; subs[i] = { e, true, (bool)pick(0, 1, "stateless"), 0 }; acts[i] = pick(0, 4, "action"); acted[i] = false; bool p = no[e] ? pick(0, 1, "priority") : false;
            auto fn = [i](uint32_t x) { got->push_back({ i, x }); if (acted[i]) return; acted[i] = true; switch (acts[i]) { case 1: sk[i]->clear(); break; case 2: for (unsigned j = 0; j < MAX; ++j) if (j != i && sk[j]) sk[j]->clear(); break; case 3: { extern unsigned g_evof[]; unsigned e = g_evof[i]; ev[e]->trigger(x + 1); } break; case 4: { extern unsigned g_evof[]; unsigned e = g_evof[i]; delete ev[e]; ev[e] = nullptr; } break; } };
            { extern unsigned g_evof[]; g_evof[i] = e; } if (subs[i].single) *sk[i] = !(*ev[e])(fn, p); else *sk[i] = (*ev[e])(fn, p);
            if (p) { for (unsigned j = no[e]; j > 0; --j) order[e][j] = order[e][j - 1]; order[e][0] = i; } else order[e][no[e]] = i; ++no[e]; break; }
        case 2: { if (!ns) nsx_assume(false); unsigned i = pick(0, ns - 1, "who"); if (!subs[i].live) nsx_assume(false); sk[i]->clear(); drop(i); nsx_reach("left before"); break; }
        case 3: { unsigned e = pick(0, 1, "event"); if (!alive[e]) nsx_assume(false); delete ev[e]; ev[e] = nullptr; alive[e] = false; no[e] = 0; for (unsigned j = 0; j < ns; ++j) if (subs[j].ev == e) subs[j].live = false; nsx_reach("gone before"); break; }
        case 4: pump(); break; }
    pump(); pump(); nsx_reach("pumped"); for (unsigned i = 0; i < MAX; ++i) { delete sk[i]; sk[i] = nullptr; } for (unsigned k = 0; k < 2; ++k) { delete ev[k]; ev[k] = nullptr; } while (q.pump_events()) ;
}
unsigned g_evof[MAX];
void nsx_main() {
    static bool once = (services::allocate_service_provider(), services::service<i_event_system>().set_locking_strategy(event_system_locking_strategy::SingleThreaded), true); (void)once;
    switch (nsx_param(0, 0)) { case 0: history(nsx_param(1, 2), nsx_param(2, 1)); break; case 1: queued(nsx_param(1, 3)); break; }
}
