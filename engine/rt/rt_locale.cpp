// Model of the "C" locale facets used by std::regex (ctype<char>, collate<char>) and of the throw function of <regex>.
// The regular expression compiler and matcher themselves are header templates and executed as they are.
#include <locale>
#include <regex>
#include <string>
#include <cstring>
#include <cstdlib>
#include <new>
namespace {
struct Tab { unsigned short m[257]; };
constexpr Tab mk() {
	Tab t{};
	for (int c=0; c<128; ++c) { unsigned short v=0;
		bool up=c>='A'&&c<='Z', lo=c>='a'&&c<='z', di=c>='0'&&c<='9';
		if (up) v|=std::ctype_base::upper; if (lo) v|=std::ctype_base::lower; if (up||lo) v|=std::ctype_base::alpha; if (di) v|=std::ctype_base::digit;
		if (di||(c>='a'&&c<='f')||(c>='A'&&c<='F')) v|=std::ctype_base::xdigit;
		if (c==' '||(c>=9&&c<=13)) v|=std::ctype_base::space; if (c>=32&&c<127) v|=std::ctype_base::print;
		if (c==' '||c=='\t') v|=std::ctype_base::blank; if (c<32||c==127) v|=std::ctype_base::cntrl;
		if (c>32&&c<127&&!(up||lo||di)) v|=std::ctype_base::punct;
		t.m[c]=v; }
	return t;
}
constexpr Tab g_tab = mk();
}
namespace std {
locale::facet::~facet() {}
__c_locale locale::facet::_S_get_c_locale() { return 0; }
__c_locale locale::facet::_S_clone_c_locale( __c_locale&) noexcept { return 0; }
void locale::facet::_S_destroy_c_locale( __c_locale&) {}
void locale::facet::_S_create_c_locale( __c_locale&, const char*, __c_locale) {}
locale::id ctype<char>::id;
ctype<char>::ctype( const mask* t, bool, size_t refs) : facet(refs) { _M_c_locale_ctype=0; _M_del=false; _M_toupper=0; _M_tolower=0; _M_table = g_tab.m; _M_widen_ok=0; _M_narrow_ok=0; for (int i=0; i<256; ++i) { _M_widen[i]=(char)i; _M_narrow[i]=(char)i; } _M_widen_ok=1; _M_narrow_ok=1; }
ctype<char>::~ctype() {}
char ctype<char>::do_toupper( char c) const { return c>='a'&&c<='z' ? c-32 : c; }
const char* ctype<char>::do_toupper( char* lo, const char* hi) const { for (; lo<hi; ++lo) *lo=do_toupper(*lo); return hi; }
char ctype<char>::do_tolower( char c) const { return c>='A'&&c<='Z' ? c+32 : c; }
const char* ctype<char>::do_tolower( char* lo, const char* hi) const { for (; lo<hi; ++lo) *lo=do_tolower(*lo); return hi; }
void ctype<char>::_M_narrow_init() const {}
void ctype<char>::_M_widen_init() const {}
template<> int collate<char>::_M_compare( const char* a, const char* b) const noexcept { return strcmp( a, b); }
template<> size_t collate<char>::_M_transform( char* to, const char* from, size_t n) const noexcept { size_t l=strlen(from); if (l<n) memcpy( to, from, l+1); return l; }
template class collate<char>;
static char g_ct[ sizeof(ctype<char>)] __attribute__((aligned(16)));
static char g_co[ sizeof(collate<char>)] __attribute__((aligned(16)));
static const locale::facet* g_facets[8];
static struct { int refs; const locale::facet** f; size_t n; const locale::facet** c; char** names; } g_impl;
size_t locale::id::_M_id() const noexcept { return this == &std::ctype<char>::id ? 1 : this == &std::collate<char>::id ? 2 : 0; }
static void initLocale() { if (g_impl.f) return; g_impl.f = g_facets; g_impl.n = 8; g_facets[1] = new (g_ct) ctype<char>( nullptr, false, 1); g_facets[2] = new (g_co) collate<char>( 1); }
locale::locale() noexcept { initLocale(); _M_impl = (_Impl*)(void*)&g_impl; }
locale::locale( const locale& o) noexcept { _M_impl = o._M_impl; }
locale::~locale() noexcept {}
const locale& locale::operator=( const locale& o) noexcept { _M_impl = o._M_impl; return *this; }
regex_error::regex_error( regex_constants::error_type e) : runtime_error("regex_error"), _M_code(e) {}
regex_error::~regex_error() noexcept {}
void __throw_regex_error( regex_constants::error_type e) { throw regex_error(e); }
// hexadecimal, octal and decimal numbers inside a pattern
template<> int regex_traits<char>::value( char c, int radix) const { int v = c>='0'&&c<='9' ? c-'0' : c>='a'&&c<='f' ? c-'a'+10 : c>='A'&&c<='F' ? c-'A'+10 : 99; return v < radix ? v : -1; }
}
