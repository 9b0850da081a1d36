// XML: reading, writing, the node tree.
#include <nsx.h>
#include <sstream>
#include <fstream>
#include <vector>
#include <neolib/file/xml.hpp>
#ifndef ALLOC
#define ALLOC std::allocator<char>
#endif
typedef neolib::basic_xml<char, ALLOC> X; typedef std::string S; typedef X::node node; typedef X::element element;
struct missing {};
static S str(const X::string& s) { return S(s.data(), s.size()); }
// the tree as one string, each part delimited by characters below 32 that contents do not use
static void show(S& o, const node& n) {
    switch (n.type()) {
    case node::Element: { auto& e = static_cast<const element&>(n); o += '\1'; o += str(e.name()); for (auto& a : e.attributes()) { o += '\2'; o += str(a.first); o += '\3'; o += str(a.second); } o += '\4'; for (auto i = e.node::begin(); i != e.node::end(); ++i) show(o, *i); o += '\5'; break; }
    case node::Text: o += '\6'; o += str(static_cast<const X::text&>(n).content()); o += '\6'; break;
    case node::Comment: o += '\7'; o += str(static_cast<const X::comment&>(n).content()); o += '\7'; break;
    case node::Cdata: o += '\10'; o += str(static_cast<const X::cdata&>(n).content()); o += '\10'; break;
    case node::Declaration: o += '\16'; o += str(static_cast<const X::declaration&>(n).content()); o += '\16'; break;
    case node::Dtd: o += '\17'; o += str(static_cast<const X::dtd&>(n).content()); o += '\17'; break;
    default: for (auto i = n.begin(); i != n.end(); ++i) show(o, *i);
    }
}
static S tree(const X& x) { S o; show(o, x.document()); return o; }
static char of(const char* al, const char* n) { uint8_t c = nsx_u8(n); bool in = false; for (; *al; ++al) in |= (char)c == *al; nsx_assume(in); return (char)c; }
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static void same(const S& a, const S& b, const char* what) { nsx_assert(a.size() == b.size(), what); bool ok = true; for (unsigned i = 0; i < a.size(); ++i) ok &= a[i] == b[i]; nsx_assert(ok, what); }
// any text at all
static void any_text(unsigned len, unsigned kind) {
    static const char* pre[] = { "", "<a>", "<a b=\"c", "<a><!--", "<a>&", "<a><b c='", "<a><!", "<a></a", "<?", "<a b" };
    static const char* post[] = { "", ">", "</a>", "</b></a>" };
    static const char al[] = "<>/a=\"'&;!- ?b#x1[]";
    S s = pre[kind % 10]; unsigned at = s.size(); s += S(len, 0) + post[kind / 10];
    for (unsigned i = 0; i < len; ++i) s[at + i] = of(al, "c");
    bool strip = nsx_choice(0, 1, "strip"); std::istringstream in(s); X x(strip); bool r = x.read(in); nsx_assert(r == x.got_root(), "whether there is a root is reported");
    if (r) { S t = tree(x); nsx_observe(t.size()); element& e = x.root(); (void)e.text(); bool th = false; try { const X& cx = x; cx.root(); } catch (X::error_no_root&) { th = true; } nsx_assert(!th, "the root is there"); }
    nsx_observe(x.error()); nsx_reach("any");
}
// well-formed documents: text and expected tree made together
struct Gen { S text, want; bool strip; bool sym; unsigned budget;
    char plain(const char* n) { if (!sym) return (char)nsx_choice('k', 'l', n); return of("k>\"';#]- \xe9/", n); }
    // one character of text or attribute value, written literally or as a reference
    void chr(S& v, char quote) {
        switch (nsx_choice(0, 3, "chr")) {
        case 0: { char c = plain("p"); if (quote) nsx_assume(c != quote && c != '>'); text += c; v += c; break; }
        case 1: { static const char* r[] = { "&amp;", "&lt;", "&gt;", "&quot;", "&apos;" }; unsigned k = (unsigned)nsx_choice(0, 4, "ref"); text += r[k]; v += "&<>\"'"[k]; break; }
        case 2: { static const char* r[] = { "&#60;", "&#38;", "&#126;", "&#x3C;", "&#x26;", "&#x6a;", "&#x4D;", "&#065;" }; static const char o[] = "<&~<&jMA"; unsigned k = (unsigned)nsx_choice(0, 7, "code"); text += r[k]; v += o[k]; break; }
        case 3: if (quote || !v.empty()) { char c = nsx_choice(0, 1, "w") ? '\n' : ' '; text += c; v += c; } break;
        } }
    static S squeeze(const S& v) { S o; for (char c : v) if (ws(c)) { if (!o.empty() && o.back() != ' ') o += ' '; } else o += c; while (!o.empty() && o.back() == ' ') o.pop_back(); return o; }
    bool take() { if (!budget) return false; --budget; return true; }
    void some_ws(const char* n) { switch (nsx_choice(0, 2, n)) { case 1: text += ' '; break; case 2: text += "\n\t"; break; } }
    void element(unsigned depth) {
        S name = nsx_choice(0, 1, "name") ? "n" : "ab-1"; text += '<'; text += name; want += '\1'; want += name;
        for (unsigned a = 0; a < 2 && budget && nsx_choice(0, 1, "attr") && take(); ++a) { static const char* an[] = { "q", "r:s" }; text += a ? "\n" : " "; text += an[a]; if (nsx_choice(0, 1, "eqws")) text += " = "; else text += '='; char q = nsx_choice(0, 1, "quote") ? '\'' : '"'; text += q; S v; while (budget && nsx_choice(0, 1, "more") && take()) chr(v, q); text += q; want += '\2'; want += an[a]; want += '\3'; want += v; }
        if (nsx_choice(0, 1, "tagws")) text += ' ';
        want += '\4';
        if (nsx_choice(0, 1, "selfclose")) { text += "/>"; want += '\5'; return; }
        text += '>';
        while (budget && nsx_choice(0, 1, "item") && take()) {
            switch (nsx_choice(0, depth ? 4 : 3, "kind")) {
            case 0: { S v, b = text; text.clear(); do chr(v, 0); while (budget && nsx_choice(0, 1, "more") && take()); bool only = true; for (char c : text) only &= ws(c); text = b + text; if (!only) { want += '\6'; want += v; want += '\6'; } text += "<!---->"; want += "\7\7"; break; }
            case 1: { S c = sym ? S(1, plain("cm")) + "->" : "x > & <y"; nsx_assume(c[0] != '-'); text += "<!--" + c + "-->"; want += '\7' + c + '\7'; break; }
            case 2: { S c = nsx_choice(0, 1, "cd") ? "" : "<z>&amp;]]"; text += "<![CDATA[" + c + "]]>"; want += '\10' + c + '\10'; break; }
            case 3: some_ws("between"); text += "<!---->"; want += "\7\7"; break;
            case 4: element(depth - 1); break;
            } }
        text += "</"; text += name; if (nsx_choice(0, 1, "endws")) text += ' '; text += '>'; want += '\5'; }
};
static void well_formed(unsigned budget, bool sym, bool wrap) {
    Gen g{ "", "", false, sym, budget };
    if (wrap) { unsigned k = (unsigned)nsx_choice(0, 7, "prolog"); if (k & 1) { g.text += "<?xml version=\"1.0\"?>"; g.want += "\16xml version=\"1.0\"\16"; } g.some_ws("ws1"); if (k & 2) { g.text += "<!DOCTYPE n [<!ENTITY x \"y\">]>"; g.want += "\17 n [<!ENTITY x \"y\">]\17"; } if (k & 4) { g.text += "<!-- <c> -->"; g.want += "\7 <c> \7"; } }
    g.element(2);
    if (wrap) { g.some_ws("ws2"); if (nsx_choice(0, 1, "trail")) { g.text += "<!--t-->"; g.want += "\7t\7"; } }
    std::istringstream in(g.text); X x; bool r = x.read(in);
    nsx_assert(r && !x.error(), "a well-formed document is read without error"); same(tree(x), g.want, "the tree is exactly that of the document"); nsx_reach("well-formed");
    const X& cx = x; nsx_assert(&cx.root() == &x.root() && cx.got_root(), "root");
}
// what is written reads back as the same tree
static char anychar(const char* n, bool first) { return of(first ? "k<>&\"';#\xe9" : "k<>&\"';\n ", n); }
static S any_string(unsigned len, const char* n) { S s; for (unsigned i = 0; i < len; ++i) s += anychar(n, i == 0); return s; }
static void fill(element& e, unsigned depth, unsigned& budget, bool mixed, unsigned len) {
    for (unsigned a = 0; a < 2 && budget && nsx_choice(0, 1, "attr"); ++a) { --budget; static const char* an[] = { "q", "r:s" }; e.set_attribute(an[a], any_string((unsigned)nsx_choice(0, len, "len"), "v")); }
    bool lastText = false; unsigned n = 0;
    while (budget && nsx_choice(0, 1, "item")) { --budget;
        switch (nsx_choice(0, depth ? 3 : 2, "kind")) {
        case 0: if (lastText || (!mixed && n)) return; e.append_text(any_string((unsigned)nsx_choice(1, len, "len"), "t")); lastText = true; ++n; if (!mixed) return; break;
        case 1: e.push_back(new X::comment("c <&> d")); lastText = false; ++n; break;
        case 2: e.push_back(new X::cdata(nsx_choice(0, 1, "cd") ? "" : "<x>&]]")); lastText = false; ++n; break;
        case 3: { static const char* en[] = { "n", "ab-1" }; element& c = e.append(en[nsx_choice(0, 1, "name")]); fill(c, depth - 1, budget, mixed, len); if (nsx_choice(0, 1, "tag")) c.set_use_empty_element_tag(false); lastText = false; ++n; break; }
        } }
}
static void round_trip(unsigned budget, unsigned len, bool mixed) {
    bool strip = mixed; X x(strip); if (nsx_choice(0, 1, "indent")) x.set_indent(' ', 2);
    if (nsx_choice(0, 1, "decl")) x.document().push_back(new X::declaration("xml version=\"1.0\""));
    element& e = x.root(); e.name() = "root"; fill(e, 2, budget, mixed, len);
    S want = tree(x); std::ostringstream out; nsx_assert(x.write(out), "written"); S text = out.str();
    std::istringstream in(text); X y(strip); bool r = y.read(in); nsx_assert(r && !y.error(), "what is written can be read"); 
    if (!strip) same(tree(y), want, "what is written reads back as the same tree");
    else { // white space within and around text is not kept apart
        auto norm = [](const S& t) { S o; for (char c : t) { if (ws(c)) { if (!o.empty() && o.back() != ' ' && (unsigned char)o.back() >= 32) o += ' '; } else { if ((unsigned char)c < 32 && !o.empty() && o.back() == ' ') o.pop_back(); o += c; } } return o; };
        same(norm(tree(y)), norm(want), "what is written reads back as the same tree up to white space"); }
    nsx_reach("round trip");
}
// finding, filtering and editing nodes
static void edits(unsigned steps) {
    long heap = nsx_live_heap();
    { X x; element& e = x.root(); e.name() = "r"; struct M { int kind; char name; uint8_t id; }; std::vector<M> m; static const char* nm[] = { "a", "b", "c" };
    for (unsigned t = 0; t < steps; ++t) {
        unsigned op = (unsigned)nsx_choice(0, 7, "op"); unsigned p = (op == 2 || op == 3) ? (unsigned)nsx_choice(0, m.size() - (op == 3 && m.size() ? 1 : 0), "pos") : 0; auto at = e.node::begin(); for (unsigned k = 0; k < p; ++k) ++at; unsigned k = (op < 3 || op == 4) ? (unsigned)nsx_choice(0, 2, "name") : 0;
        switch (op) {
        case 0: { element& c = e.append(nm[k]); nsx_assert(str(c.name()) == nm[k], "appended"); m.push_back({ 0, *nm[k] }); break; }
        case 1: { element& c = x.append(e, nm[k]); nsx_assert(str(c.name()) == nm[k] && &e.back() == &c, "appended"); m.push_back({ 0, *nm[k] }); break; }
        case 2: { auto i = x.insert(e, at, nm[k]); nsx_assert(str(static_cast<element&>(*i).name()) == nm[k], "insert gives the new node"); m.insert(m.begin() + p, { 0, *nm[k] }); break; }
        case 3: if (m.empty()) break; x.erase(e, at); m.erase(m.begin() + p); break;
        case 4: { auto i = x.find_or_append(e, nm[k]); int f = -1; for (unsigned j = 0; j < m.size(); ++j) if (f < 0 && m[j].kind == 0 && m[j].name == *nm[k]) f = j; if (f < 0) { f = m.size(); m.push_back({ 0, *nm[k] }); } auto j = e.node::begin(); while (f--) ++j; nsx_assert(i == j && str(static_cast<element&>(*i).name()) == nm[k], "find_or_append gives the first of that name"); break; }
        case 5: e.append_text("t"); m.push_back({ 1, 't' }); break;
        case 6: e.push_back(new X::comment("c")); m.push_back({ 2, 'c' }); break;
        case 7: if (m.size() == 4) { e.clear(); m.clear(); } break;
        }
        const element& ce = e; unsigned j = 0; auto i = e.node::begin(); for (; i != e.node::end(); ++i, ++j) { nsx_assert(j < m.size(), "children"); nsx_assert(i->type() == (m[j].kind == 0 ? node::Element : m[j].kind == 1 ? node::Text : node::Comment), "kind of child"); if (m[j].kind == 0) nsx_assert(str(static_cast<element&>(*i).name())[0] == m[j].name, "child"); } nsx_assert(j == m.size() && e.empty() == m.empty(), "number of children");
        while (j) { --i; --j; nsx_assert(i->type() == (m[j].kind == 0 ? node::Element : m[j].kind == 1 ? node::Text : node::Comment), "backwards"); }
        S els; for (auto& q : m) if (q.kind == 0) els += q.name; S got, cgot; for (auto i2 = e.begin(); i2 != e.end(); ++i2) got += str(i2->name()); for (auto i2 = ce.begin(); i2 != ce.end(); ++i2) cgot += str(i2->name()); nsx_assert(got == els && cgot == els, "filtered iteration meets exactly the elements");
        if (!els.empty()) { S back; auto i2 = e.end(); for (unsigned q = 0; q < els.size(); ++q) { --i2; back = str(i2->name()) + back; } nsx_assert(back == els && i2 == e.begin(), "filtered iteration backwards"); }
        S txt; for (auto& q : m) if (q.kind == 1) txt += 't'; nsx_assert(str(e.text()) == txt, "text is that of all text nodes");
        for (auto n : nm) { bool has = els.find(*n) != S::npos; nsx_assert((e.find(n) != e.node::end()) == has && e.find_maybe(n).has_value() == has && ce.find_maybe(n).has_value() == has && (ce.find(n) != ce.node::end()) == has, "find"); bool th = false; try { auto i3 = e.find_or_throw<missing>(n); nsx_assert(str(static_cast<element&>(*i3).name()) == n, "found"); } catch (missing&) { th = true; } nsx_assert(th != has, "find_or_throw"); }
    }
    uint8_t v = nsx_u8("val"); nsx_assume(v); S val(1, (char)v); e.set_attribute("k", "old"); e.set_attribute("k", val); nsx_assert(e.has_attribute("k") && !e.has_attribute("z") && str(e.attribute_value("k")) == val && e.attribute_value("z").empty() && str(e.attribute_value("z", "k")) == val && str(e.attribute_value("k", "z")) == val, "attributes"); nsx_reach("edits"); }
    if (nsx_param(2, 0)) nsx_assert(nsx_live_heap() <= heap + 1, "no memory is leaked");
}
void nsx_main() { unsigned m = nsx_param(0, 0), n = nsx_param(1, 3), k = nsx_param(2, 0); if (m == 0) any_text(n, k); else if (m == 1) well_formed(n, k & 1, k & 2); else if (m == 2) round_trip(n, k, false); else if (m == 3) round_trip(n, k, true); else edits(n); }
