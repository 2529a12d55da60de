// Model of the out-of-line parts of libstdc++ that the code under test calls: compiled to IR and
// executed by the engine together with the code. Header-only parts of libstdc++ are executed as they are.
#include <string>
#include <string_view>
#include <stdexcept>
#include <new>
#include <map>
#include <list>
#include <unordered_map>
#include <memory_resource>
#include <functional>
#include <typeinfo>
#include <cstring>
#include <cstdlib>
#include <vector>
template class std::__cxx11::basic_string<char>;
namespace std {
// ---- exceptions
__cow_string::__cow_string() {}
__cow_string::~__cow_string() {}
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
static char* sxdup( const char* s, size_t n) { char* p = (char*)malloc( n+1); memcpy( p, s, n); p[n] = 0; return p; }
runtime_error::runtime_error( const string& s) { *(char**)(void*)&_M_msg = sxdup( s.c_str(), s.size()); }
runtime_error::runtime_error( const char* s) { *(char**)(void*)&_M_msg = sxdup( s, strlen(s)); }
runtime_error::runtime_error( const runtime_error& o) noexcept { const char* s = o.what(); *(char**)(void*)&_M_msg = sxdup( s, strlen(s)); }
runtime_error::runtime_error( runtime_error&& o) noexcept { const char* s = o.what(); *(char**)(void*)&_M_msg = sxdup( s, strlen(s)); }
runtime_error& runtime_error::operator=( const runtime_error& o) noexcept { const char* s = o.what(); char* n = sxdup( s, strlen(s)); free( *(char**)(void*)&_M_msg); *(char**)(void*)&_M_msg = n; return *this; }
runtime_error::~runtime_error() noexcept { free( *(char**)(void*)&_M_msg); }
const char* runtime_error::what() const noexcept { return *(char* const*)(const void*)&_M_msg; }
logic_error::logic_error( const string& s) { *(char**)(void*)&_M_msg = sxdup( s.c_str(), s.size()); }
logic_error::logic_error( const char* s) { *(char**)(void*)&_M_msg = sxdup( s, strlen(s)); }
logic_error::logic_error( const logic_error& o) noexcept { const char* s = o.what(); *(char**)(void*)&_M_msg = sxdup( s, strlen(s)); }
logic_error::~logic_error() noexcept { free( *(char**)(void*)&_M_msg); }
const char* logic_error::what() const noexcept { return *(char* const*)(const void*)&_M_msg; }
out_of_range::out_of_range( const char* s) : logic_error(s) {}
out_of_range::~out_of_range() noexcept {}
length_error::length_error( const char* s) : logic_error(s) {}
length_error::~length_error() noexcept {}
invalid_argument::invalid_argument( const char* s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
domain_error::domain_error( const char* s) : logic_error(s) {}
domain_error::domain_error( const string& s) : logic_error(s) {}
domain_error::~domain_error() noexcept {}
out_of_range::out_of_range( const string& s) : logic_error(s) {}
length_error::length_error( const string& s) : logic_error(s) {}
invalid_argument::invalid_argument( const string& s) : logic_error(s) {}
range_error::range_error( const char* s) : runtime_error(s) {}
range_error::range_error( const string& s) : runtime_error(s) {}
range_error::~range_error() noexcept {}
overflow_error::overflow_error( const char* s) : runtime_error(s) {}
overflow_error::overflow_error( const string& s) : runtime_error(s) {}
overflow_error::~overflow_error() noexcept {}
underflow_error::underflow_error( const char* s) : runtime_error(s) {}
underflow_error::underflow_error( const string& s) : runtime_error(s) {}
underflow_error::~underflow_error() noexcept {}
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
void __throw_length_error( const char* s) { throw length_error(s); }
void __throw_logic_error( const char* s) { throw logic_error(s); }
void __throw_out_of_range( const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt( const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument( const char* s) { throw invalid_argument(s); }
void __throw_runtime_error( const char* s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
const nothrow_t nothrow{};

// ---- red black tree
static _Rb_tree_node_base* incr( _Rb_tree_node_base* x) noexcept
{
	if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
	_Rb_tree_node_base* y = x->_M_parent;
	while (x == y->_M_right) { x = y; y = y->_M_parent; }
	if (x->_M_right != y) x = y;
	return x;
}
static _Rb_tree_node_base* decr( _Rb_tree_node_base* x) noexcept
{
	if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
	if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
	_Rb_tree_node_base* y = x->_M_parent;
	while (x == y->_M_left) { x = y; y = y->_M_parent; }
	return y;
}
_Rb_tree_node_base* _Rb_tree_increment( _Rb_tree_node_base* x) noexcept { return incr(x); }
const _Rb_tree_node_base* _Rb_tree_increment( const _Rb_tree_node_base* x) noexcept { return incr( const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement( _Rb_tree_node_base* x) noexcept { return decr(x); }
const _Rb_tree_node_base* _Rb_tree_decrement( const _Rb_tree_node_base* x) noexcept { return decr( const_cast<_Rb_tree_node_base*>(x)); }
static void rotl( _Rb_tree_node_base* x, _Rb_tree_node_base*& root)
{
	_Rb_tree_node_base* y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x;
	y->_M_parent = x->_M_parent;
	if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
	y->_M_left = x; x->_M_parent = y;
}
static void rotr( _Rb_tree_node_base* x, _Rb_tree_node_base*& root)
{
	_Rb_tree_node_base* y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x;
	y->_M_parent = x->_M_parent;
	if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
	y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance( const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) noexcept
{
	_Rb_tree_node_base*& root = header._M_parent;
	x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
	if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
	else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
	while (x != root && x->_M_parent->_M_color == _S_red)
	{
		_Rb_tree_node_base* xpp = x->_M_parent->_M_parent;
		if (x->_M_parent == xpp->_M_left) {
			_Rb_tree_node_base* y = xpp->_M_right;
			if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
			else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl( x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr( xpp, root); }
		} else {
			_Rb_tree_node_base* y = xpp->_M_left;
			if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
			else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr( x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl( xpp, root); }
		}
	}
	root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase( _Rb_tree_node_base* const z, _Rb_tree_node_base& header) noexcept
{
	_Rb_tree_node_base*& root = header._M_parent; _Rb_tree_node_base*& leftmost = header._M_left; _Rb_tree_node_base*& rightmost = header._M_right;
	_Rb_tree_node_base* y = z; _Rb_tree_node_base* x = 0; _Rb_tree_node_base* xp = 0;
	if (y->_M_left == 0) x = y->_M_right;
	else if (y->_M_right == 0) x = y->_M_left;
	else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
	if (y != z) {
		z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
		if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
		else xp = y;
		if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
		y->_M_parent = z->_M_parent; _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
	} else {
		xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
		if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
		if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { leftmost = x; while (leftmost->_M_left) leftmost = leftmost->_M_left; } }
		if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { rightmost = x; while (rightmost->_M_right) rightmost = rightmost->_M_right; } }
	}
	if (y->_M_color != _S_red) {
		while (x != root && (x == 0 || x->_M_color == _S_black))
			if (x == xp->_M_left) {
				_Rb_tree_node_base* w = xp->_M_right;
				if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl( xp, root); w = xp->_M_right; }
				if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
				else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr( w, root); w = xp->_M_right; }
					w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl( xp, root); break; }
			} else {
				_Rb_tree_node_base* w = xp->_M_left;
				if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr( xp, root); w = xp->_M_left; }
				if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
				else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl( w, root); w = xp->_M_left; }
					w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr( xp, root); break; }
			}
		if (x) x->_M_color = _S_black;
	}
	return y;
}
// ---- list
namespace __detail {
void _List_node_base::_M_hook( _List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap( _List_node_base& x, _List_node_base& y) noexcept
{
	bool ex = x._M_next == &x, ey = y._M_next == &y; _List_node_base tx = x, ty = y;
	if (ey) { x._M_next = x._M_prev = &x; } else { x = ty; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
	if (ex) { y._M_next = y._M_prev = &y; } else { y = tx; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
}
void _List_node_base::_M_transfer( _List_node_base* const first, _List_node_base* const last) noexcept
{
	if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
		_List_node_base* const tmp = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp; }
}
// ---- hash table growth (any growing policy is a valid model)
size_t _Prime_rehash_policy::_M_next_bkt( size_t n) const { size_t r = 13; while (r < n) r = r*2+3; _M_next_resize = r; return r; }
pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash( size_t nb, size_t ne, size_t ins) const
{
	if (ne + ins > _M_next_resize) { size_t want = ne + ins; if (_M_next_resize == 0 && want < 11) want = 11; if (want >= nb) { size_t g = nb*2; if (g > want+1) want = g; else want = want+1; return { true, _M_next_bkt( want)}; } _M_next_resize = nb; return { false, 0}; }
	return { false, 0};
}
}
size_t _Hash_bytes( const void* p, size_t n, size_t seed) { size_t h = seed ^ 0x9E37u; const unsigned char* c = (const unsigned char*)p; for (size_t i=0; i<n; ++i) h = h*31 + c[i]; return h; }
namespace pmr {
memory_resource::~memory_resource() {}
namespace {
struct NewDelete : public memory_resource
{
	void* do_allocate( size_t n, size_t) override { return ::operator new( n); }
	void do_deallocate( void* p, size_t n, size_t) override { ::operator delete( p); }
	bool do_is_equal( const memory_resource& o) const noexcept override { return this == &o; }
};
struct Null : public memory_resource
{
	void* do_allocate( size_t n, size_t) override { throw std::bad_alloc(); }
	void do_deallocate( void* p, size_t n, size_t) override {}
	bool do_is_equal( const memory_resource& o) const noexcept override { return this == &o; }
};
}
memory_resource* new_delete_resource() noexcept { static NewDelete r; return &r; }
memory_resource* null_memory_resource() noexcept { static Null r; return &r; }
memory_resource* get_default_resource() noexcept { return new_delete_resource(); }
}
}
extern "C" {
int __cxa_guard_acquire( char* g) { if (*g) return 0; return 1; }
void __cxa_guard_release( char* g) { *g = 1; }
void __cxa_guard_abort( char* g) {}
char __libc_single_threaded = 1;
void* __dso_handle = 0;
}
