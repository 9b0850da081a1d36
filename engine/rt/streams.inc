// The non-template parts of the iostream library, for string streams in the "C" locale.  The stream classes themselves are
// the libstdc++ templates, instantiated here from the installed headers.
namespace nsx_streams {
template <typename F> struct holder { alignas(F) static char buf[sizeof(F)]; static bool made; };
template <typename F> alignas(F) char holder<F>::buf[sizeof(F)]; template <typename F> bool holder<F>::made;
template <typename F> const F* the() { if (!holder<F>::made) { holder<F>::made = true; new (holder<F>::buf) F(1); } return reinterpret_cast<const F*>(holder<F>::buf); }
struct ct : std::ctype<char> { ct() : std::ctype<char>(0, false, 1) {} };
static const std::ctype<char>* ctypeC() { return reinterpret_cast<const std::ctype<char>*>([]() -> const void* { if (!holder<ct>::made) { holder<ct>::made = true; new (holder<ct>::buf) ct(); } return holder<ct>::buf; }()); }
static std::ctype_base::mask table[256]; static bool tableMade;
static const char atoms_out[] = "-+xX0123456789abcdef0123456789ABCDEF", atoms_in[] = "-+xX0123456789abcdefABCDEF";
}
namespace std {
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }
const locale& locale::classic() { static locale l; return l; }
bool locale::operator==(const locale&) const throw() { return true; }
static size_t nsx_next_id;
size_t locale::id::_M_id() const throw() { if (!_M_index) _M_index = ++nsx_next_id; return _M_index - 1; }
locale::facet::~facet() {}
locale::id ctype<char>::id;
const ctype_base::mask ctype_base::upper, ctype_base::lower, ctype_base::alpha, ctype_base::digit, ctype_base::xdigit, ctype_base::space, ctype_base::print, ctype_base::graph, ctype_base::cntrl, ctype_base::punct, ctype_base::alnum, ctype_base::blank;
const ctype_base::mask* ctype<char>::classic_table() throw() {
    using namespace nsx_streams;
    if (!tableMade) { tableMade = true; for (int c = 0; c < 128; ++c) { mask m = 0;
        bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', di = c >= '0' && c <= '9', xd = di || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'), sp = c == ' ' || (c >= 9 && c <= 13), pr = c >= 32 && c < 127;
        if (up) m |= upper; if (lo) m |= lower; if (up || lo) m |= alpha; if (di) m |= digit; if (xd) m |= xdigit; if (sp) m |= space; if (pr) m |= print; if (c < 32 || c == 127) m |= cntrl; if (pr && c != 32 && !up && !lo && !di) m |= punct; if (c == ' ' || c == 9) m |= blank;
        nsx_streams::table[c] = m; } }
    return nsx_streams::table;
}
ctype<char>::ctype(const mask* t, bool d, size_t r) : facet(r), _M_c_locale_ctype(0), _M_del(false), _M_toupper(0), _M_tolower(0), _M_table(t ? t : classic_table()), _M_widen_ok(0), _M_narrow_ok(0) { _M_widen_init(); _M_narrow_init(); }
ctype<char>::~ctype() {}
void ctype<char>::_M_widen_init() const { for (int i = 0; i < 256; ++i) _M_widen[i] = (char)i; _M_widen_ok = 1; }
void ctype<char>::_M_narrow_init() const { for (int i = 0; i < 256; ++i) _M_narrow[i] = (char)i; _M_narrow_ok = 1; }
char ctype<char>::do_toupper(char c) const { return c >= 'a' && c <= 'z' ? c - 32 : c; }
char ctype<char>::do_tolower(char c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
const char* ctype<char>::do_toupper(char* p, const char* e) const { for (; p < e; ++p) *p = ctype<char>::do_toupper(*p); return e; }
const char* ctype<char>::do_tolower(char* p, const char* e) const { for (; p < e; ++p) *p = ctype<char>::do_tolower(*p); return e; }
const char* __num_base::_S_atoms_out = nsx_streams::atoms_out;
const char* __num_base::_S_atoms_in = nsx_streams::atoms_in;
template <> const __numpunct_cache<char>* __use_cache<__numpunct_cache<char>>::operator()(const locale&) const;
}
namespace nsx_streams {
struct cache : std::__numpunct_cache<char> { cache() : std::__numpunct_cache<char>(1) {
    _M_grouping = ""; _M_grouping_size = 0; _M_use_grouping = false; _M_truename = "true"; _M_truename_size = 4; _M_falsename = "false"; _M_falsename_size = 5; _M_decimal_point = '.'; _M_thousands_sep = ',';
    for (unsigned i = 0; i < std::__num_base::_S_oend; ++i) _M_atoms_out[i] = std::__num_base::_S_atoms_out[i]; for (unsigned i = 0; i < std::__num_base::_S_iend; ++i) _M_atoms_in[i] = std::__num_base::_S_atoms_in[i]; _M_allocated = false; } };
}
namespace std {
template <> const __numpunct_cache<char>* __use_cache<__numpunct_cache<char>>::operator()(const locale&) const { using namespace nsx_streams; if (!holder<cache>::made) { holder<cache>::made = true; new (holder<cache>::buf) cache(); } return reinterpret_cast<const cache*>(holder<cache>::buf); }
alignas(locale::_Impl) static char nsx_impl[sizeof(locale::_Impl)]; static const locale::facet* nsx_facets[32]; static const locale::facet* nsx_caches[32]; static bool nsx_impl_made;
locale::locale() throw() {
    _M_impl = reinterpret_cast<_Impl*>(nsx_impl);
    if (!nsx_impl_made) { nsx_impl_made = true; _M_impl->_M_facets = nsx_facets; _M_impl->_M_facets_size = 32; _M_impl->_M_caches = nsx_caches;
        nsx_facets[std::ctype<char>::id._M_id()] = nsx_streams::ctypeC(); nsx_facets[num_put<char>::id._M_id()] = nsx_streams::the<num_put<char>>(); nsx_facets[num_get<char>::id._M_id()] = nsx_streams::the<num_get<char>>();
        nsx_caches[numpunct<char>::id._M_id()] = __use_cache<__numpunct_cache<char>>()(*this); }
}
void ios_base_library_init() {}
void __num_base::_S_format_float(const ios_base& io, char* p, char mod) throw() {
    ios_base::fmtflags f = io.flags(); *p++ = '%'; if (f & ios_base::showpos) *p++ = '+'; if (f & ios_base::showpoint) *p++ = '#'; ios_base::fmtflags ff = f & ios_base::floatfield;
    if (ff != (ios_base::fixed | ios_base::scientific)) { *p++ = '.'; *p++ = '*'; } if (mod) *p++ = mod; bool up = f & ios_base::uppercase;
    *p++ = ff == ios_base::fixed ? 'f' : ff == ios_base::scientific ? (up ? 'E' : 'e') : ff == (ios_base::fixed | ios_base::scientific) ? (up ? 'A' : 'a') : (up ? 'G' : 'g'); *p = 0;
}
template <> void __convert_to_v(const char* s, double& v, ios_base::iostate& err, const __c_locale&) throw() { char* e; v = strtod(s, &e); if (e == s || *e) { v = 0; err = ios_base::failbit; } }
template <> void __convert_to_v(const char* s, float& v, ios_base::iostate& err, const __c_locale&) throw() { char* e; v = strtof(s, &e); if (e == s || *e) { v = 0; err = ios_base::failbit; } }
template <> numpunct<char>::~numpunct() {}
template <> void numpunct<char>::_M_initialize_numpunct(__c_locale) {}
__c_locale locale::facet::_S_get_c_locale() { return 0; }
bool __verify_grouping(const char*, size_t, const string&) throw() { return true; }
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
locale ios_base::imbue(const locale&) throw() { return locale(); }
ios_base::_Words& ios_base::_M_grow_words(int, bool) { return _M_word_zero; }
void ios_base::_M_move(ios_base& o) noexcept { _M_precision = o._M_precision; _M_width = o._M_width; _M_flags = o._M_flags; _M_exception = o._M_exception; _M_streambuf_state = o._M_streambuf_state; }
void ios_base::_M_swap(ios_base& o) noexcept { std::swap(_M_precision, o._M_precision); std::swap(_M_width, o._M_width); std::swap(_M_flags, o._M_flags); std::swap(_M_exception, o._M_exception); std::swap(_M_streambuf_state, o._M_streambuf_state); }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
void __throw_ios_failure(const char* s) { throw std::runtime_error(s); }
void __throw_ios_failure(const char* s, int) { throw std::runtime_error(s); }
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template <> basic_istream<char>& basic_istream<char>::getline(char_type* s, streamsize n, char_type d) {
    _M_gcount = 0; iostate err = goodbit; sentry ok(*this, true);
    if (ok) { __streambuf_type* sb = rdbuf(); int_type c = sb->sgetc(); while (_M_gcount + 1 < n && c != EOF && traits_type::to_char_type(c) != d) { *s++ = traits_type::to_char_type(c); ++_M_gcount; c = sb->snextc(); }
        if (c == EOF) err |= eofbit; else if (traits_type::to_char_type(c) == d) { ++_M_gcount; sb->sbumpc(); } else err |= failbit; }
    if (n > 0) *s = 0; if (!_M_gcount) err |= failbit; if (err) setstate(err); return *this;
}
template <> basic_istream<char>& basic_istream<char>::ignore(streamsize n) { _M_gcount = 0; iostate err = goodbit; sentry ok(*this, true); if (ok) { __streambuf_type* sb = rdbuf(); while (_M_gcount < n) { if (sb->sbumpc() == EOF) { err |= eofbit; break; } ++_M_gcount; } } if (err) setstate(err); return *this; }
template <> basic_istream<char>& basic_istream<char>::ignore(streamsize n, int_type d) { _M_gcount = 0; iostate err = goodbit; sentry ok(*this, true); if (ok) { __streambuf_type* sb = rdbuf(); while (_M_gcount < n) { int_type c = sb->sbumpc(); if (c == EOF) { err |= eofbit; break; } ++_M_gcount; if (c == d) break; } } if (err) setstate(err); return *this; }
template class basic_istream<char>;
template class basic_iostream<char>;
template class __cxx11::basic_stringbuf<char>;
template class __cxx11::basic_ostringstream<char>;
template class __cxx11::basic_istringstream<char>;
template class __cxx11::basic_stringstream<char>;
template class num_put<char>;
template class num_get<char>;
template ostream& ostream::_M_insert(bool); template ostream& ostream::_M_insert(long); template ostream& ostream::_M_insert(unsigned long); template ostream& ostream::_M_insert(long long); template ostream& ostream::_M_insert(unsigned long long); template ostream& ostream::_M_insert(double); template ostream& ostream::_M_insert(long double); template ostream& ostream::_M_insert(const void*);
template istream& istream::_M_extract(bool&); template istream& istream::_M_extract(unsigned short&); template istream& istream::_M_extract(unsigned int&); template istream& istream::_M_extract(long&); template istream& istream::_M_extract(unsigned long&); template istream& istream::_M_extract(long long&); template istream& istream::_M_extract(unsigned long long&); template istream& istream::_M_extract(double&); template istream& istream::_M_extract(float&);
template ostream& __ostream_insert(ostream&, const char*, streamsize);
template ostream& operator<<(ostream&, const char*); template ostream& operator<<(ostream&, char); template ostream& endl(ostream&); template ostream& ends(ostream&); template ostream& flush(ostream&);
template istream& operator>>(istream&, char&); template istream& ws(istream&);
template <> basic_istream<char>& operator>>(basic_istream<char>& in, basic_string<char>& s) {
    ios_base::iostate err = ios_base::goodbit; size_t n = 0; istream::sentry ok(in, false);
    if (ok) { s.erase(); streamsize w = in.width(); size_t lim = w > 0 ? (size_t)w : s.max_size(); streambuf* sb = in.rdbuf(); int c = sb->sgetc();
        while (n < lim && c != EOF && !(c == ' ' || (c >= 9 && c <= 13))) { s.push_back((char)c); ++n; c = sb->snextc(); } if (n < lim && c == EOF) err |= ios_base::eofbit; in.width(0); }
    if (!n) err |= ios_base::failbit; if (err) in.setstate(err); return in;
}
template <> basic_istream<char>& getline(basic_istream<char>& in, basic_string<char>& s, char d) {
    ios_base::iostate err = ios_base::goodbit; size_t n = 0; istream::sentry ok(in, true);
    if (ok) { s.erase(); streambuf* sb = in.rdbuf(); int c = sb->sgetc(); while (c != EOF && (char)c != d) { s.push_back((char)c); ++n; c = sb->snextc(); } if (c == EOF) err |= ios_base::eofbit; else { ++n; sb->sbumpc(); } }
    if (!n) err |= ios_base::failbit; if (err) in.setstate(err); return in;
}
template istream& getline(istream&, string&);
}
