// Engine self-test: exercises the C++ runtime model and the memory checks on code with known answers.
#include <nsx.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <list>
#include <deque>
#include <memory>
#include <algorithm>
#include <optional>
#include <variant>
#include <functional>
#include <stdexcept>
#include <charconv>
#include <numeric>
struct A { virtual ~A() {} int a = 1; }; struct B { virtual ~B() {} int b = 2; }; struct C : A, B { int c = 3; }; struct D : virtual A { int d = 4; };
static int depth;
struct Guard { int& r; Guard(int& r) : r(r) { ++r; } ~Guard() { --r; } };
static void thrower(int k) { Guard g(depth); if (k == 0) throw std::out_of_range("zero"); if (k == 1) throw std::runtime_error(std::string("one") + "!"); if (k == 2) throw 42; if (k == 3) std::vector<int>().at(3); }
void nsx_main() {
    int64_t base = nsx_live_heap();
    switch (nsx_choice(0, 7, "which")) {
    case 0: {
        unsigned n = nsx_choice(0, 4, "k"); int got = -1;
        try { try { thrower(n); got = 9; } catch (std::logic_error& e) { got = 100 + e.what()[0]; throw; } }
        catch (std::out_of_range& e) { got = got * 10 + 1; } catch (std::exception& e) { got = e.what()[3]; } catch (int i) { got = i; }
        CHECK(depth == 0); 
        int want[] = {2221, '!', 42, 0, 9}; if (n != 3) CHECK(got == want[n]);
        nsx_observe(n == 3 ? 0 : got); nsx_reach("exc"); break; }
    case 1: {
        std::map<int, int> m; unsigned n = 4; int v[4];
        for (unsigned i = 0; i < n; ++i) { v[i] = nsx_u8("v") & 3; m[v[i]] += 1; }
        int sum = 0, last = -1; for (auto& p : m) { CHECK(p.first > last); last = p.first; sum += p.second; }
        CHECK(sum == 4);
        m.erase(v[1]); CHECK(m.find(v[1]) == m.end());
        unsigned c = 0; for (auto i = m.rbegin(); i != m.rend(); ++i) ++c; CHECK(c == m.size());
        nsx_observe(m.size()); nsx_reach("map"); break; }
    case 2: {
        std::string s; unsigned n = nsx_choice(0, 20, "n"); for (unsigned i = 0; i < n; ++i) s.push_back('a' + i);
        std::string t = s + "xyz"; CHECK(t.size() == n + 3); CHECK(t.find("xyz") == n); std::string u = t.substr(n); CHECK(u == "xyz");
        s.insert(n / 2, "QQ"); CHECK(s[n / 2] == 'Q'); s.erase(n / 2, 2); CHECK(s + "xyz" == t); s.swap(t); nsx_observe(s.size()); CHECK(std::to_string(12345) == "12345"); CHECK(std::stoi("-77") == -77);
        nsx_reach("str"); break; }
    case 3: {
        C c; A* a = &c; B* b = dynamic_cast<B*>(a); CHECK(b && b->b == 2); CHECK(dynamic_cast<C*>(b) == &c); D d; A* a2 = &d; CHECK(dynamic_cast<D*>(a2) == &d); CHECK(dynamic_cast<B*>(a2) == nullptr);
        bool bad = false; try { dynamic_cast<B&>(*a2); } catch (std::bad_cast&) { bad = true; } CHECK(bad);
        std::shared_ptr<A> p = std::make_shared<C>(); std::weak_ptr<A> w = p; CHECK(p.use_count() == 1); p.reset(); CHECK(w.expired());
        nsx_reach("rtti"); break; }
    case 4: {
        std::unordered_map<int, int> m; for (int i = 0; i < 30; ++i) m[i * 7] = i; CHECK(m.size() == 30); for (int i = 0; i < 30; ++i) CHECK(m.at(i * 7) == i); m.erase(7); CHECK(m.count(7) == 0);
        std::unordered_map<std::string, int> q; q["a"] = 1; q["bb"] = 2; q["c"] = 3; CHECK(q["c"] == 3 && q.size() == 3);
        std::list<int> l{3, 1, 2}; l.sort(); CHECK(l.front() == 1 && l.back() == 3); l.reverse(); CHECK(l.front() == 3); std::deque<int> dq; for (int i = 0; i < 300; ++i) dq.push_front(i); CHECK(dq[0] == 299 && dq.back() == 0);
        nsx_reach("misc"); break; }
    case 5: {
        std::vector<uint8_t> v(4); nsx_bytes(v.data(), 4, "v"); auto w = v; std::sort(w.begin(), w.end());
        CHECK(std::is_sorted(w.begin(), w.end())); CHECK(std::is_permutation(v.begin(), v.end(), w.begin())); nsx_observe(w[0]); nsx_reach("sort"); break; }
    case 6: {
        char b[8]; nsx_bytes(b, 3, "b"); int x = -1; auto r = std::from_chars(b, b + 3, x);
        if (r.ec == std::errc() && r.ptr == b + 3) { char o[8]; auto q = std::to_chars(o, o + 8, x); CHECK(q.ec == std::errc()); if (b[0] != '0' && b[0] != '-') CHECK(q.ptr == o + 3 && o[0] == b[0] && o[1] == b[1] && o[2] == b[2]); nsx_reach("chars"); nsx_observe((uint64_t)x); }
        break; }
    case 7: {
        double d; uint64_t u = nsx_u64("d"); __builtin_memcpy(&d, &u, 8); if (d > 1.0 && d < 1000.0) { CHECK(d * 2 > d); CHECK((int)d >= 1 && (int)d <= 1000); nsx_reach("fp"); nsx_observe((uint64_t)(int)d); }
        std::variant<int, std::string> v = std::string("hello"); CHECK(std::get<1>(v) == "hello"); v = 3; CHECK(v.index() == 0); std::function<int(int)> f = [&](int i) { return i + 1; }; CHECK(f(1) == 2);
        std::optional<std::string> o; o = "x"; CHECK(o->size() == 1); o.reset(); 
        break; }
    }
    CHECK(nsx_live_heap() == base);
}
