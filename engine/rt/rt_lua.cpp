// Model of the part of the Lua 5.2 C API used by the code under test: linked as bitcode for the symbolic execution (and natively, to
// replay violations of the rules of the API that the real library does not notice).
// Not modelled: garbage collection before lua_close, memory errors, coroutines, the interpreter (all functions are C functions).
// Checked: stack slots promised (LUA_MINSTACK and lua_checkstack), valid indices, values where the API demands a type.
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cstdio>
extern "C" {
#include <lua.h>
#include <lauxlib.h>
void sx_assert( bool c, const char* msg);
int sx_trycall( void (*fn)( void*), void* arg);
void sx_longjmp( int code);
}
struct Str { size_t len; char b[1]; };
struct Val { int tag; int isint; union { long i; double n; void* p; }; };
struct Tab { Val* k; Val* v; int n, cap; Tab* meta; };
struct Fun { lua_CFunction f; int nup; Val up[1]; };
struct Ud { Tab* meta; size_t size; double align; };
struct CI { int base, limit; Fun* fn; };
struct lua_State { Val* stk; int top, cap; CI ci[40]; int nci; Tab* registry; Tab* globals; Val err; int handler; int nref; Ud* uds[64]; int nud; int order; };
static Val nilv() { Val v; v.tag = LUA_TNIL; v.isint = 0; v.i = 0; return v; }
static Val none() { Val v = nilv(); v.tag = LUA_TNONE; return v; }
static Val intv( long i) { Val v; v.tag = LUA_TNUMBER; v.isint = 1; v.i = i; return v; }
static Val ptrv( int tag, void* p) { Val v; v.tag = tag; v.isint = 0; v.p = p; return v; }
static Val strv( const char* s, size_t n) { Str* r = (Str*)malloc( sizeof(Str)+n); r->len = n; memcpy( r->b, s, n); r->b[n] = 0; return ptrv( LUA_TSTRING, r); }
static Tab* newtab() { Tab* t = (Tab*)malloc( sizeof(Tab)); t->k = t->v = nullptr; t->n = t->cap = 0; t->meta = nullptr; return t; }
static bool eqv( const Val& a, const Val& b)
{
	if (a.tag != b.tag) return false;
	switch (a.tag)
	{
		case LUA_TNIL: return true;
		case LUA_TNUMBER: if (a.isint && b.isint) return a.i == b.i; return (a.isint ? (double)a.i : a.n) == (b.isint ? (double)b.i : b.n);
		case LUA_TSTRING: { if (a.p == b.p) return true; Str* x = (Str*)a.p; Str* y = (Str*)b.p; return x->len == y->len && memcmp( x->b, y->b, x->len) == 0; }
		case LUA_TBOOLEAN: return a.i == b.i;
		default: return a.p == b.p;
	}
}
static Val tget( Tab* t, const Val& k) { for (int i=0; i<t->n; ++i) if (eqv( t->k[i], k)) return t->v[i]; return nilv(); }
static void tset( Tab* t, const Val& key, const Val& v)
{
	Val k = key; if (k.tag == LUA_TNUMBER && !k.isint && k.n > -9e15 && k.n < 9e15 && (double)(long)k.n == k.n) k = intv( (long)k.n);
	for (int i=0; i<t->n; ++i) if (eqv( t->k[i], k)) { t->v[i] = v; return; }
	if (v.tag == LUA_TNIL) return;
	if (t->n == t->cap) { t->cap = t->cap ? 2*t->cap : 4; t->k = (Val*)realloc( t->k, t->cap*sizeof(Val)); t->v = (Val*)realloc( t->v, t->cap*sizeof(Val)); }
	t->k[t->n] = k; t->v[t->n++] = v;
}
static int tlen( Tab* t) { int n = 0; while (tget( t, intv( n+1)).tag != LUA_TNIL) ++n; return n; }
static Val keyOf( const char* s) { return strv( s, strlen( s)); }
static CI& cur( lua_State* L) { return L->ci[ L->nci-1]; }
static void push( lua_State* L, const Val& v)
{
	sx_assert( L->top < cur( L).limit, "more values are pushed on the Lua stack than lua_checkstack was asked for");
	if (L->top == L->cap) { L->cap *= 2; L->stk = (Val*)realloc( L->stk, L->cap*sizeof(Val)); }
	L->stk[ L->top++] = v;
}
static Val* slot( lua_State* L, int idx)
{
	if (idx > 0) { int i = cur( L).base + idx - 1; return i < L->top ? L->stk+i : nullptr; }
	sx_assert( idx != 0 && L->top + idx >= cur( L).base, "invalid index of the Lua stack");
	return L->stk + L->top + idx;
}
static Val at( lua_State* L, int idx)
{
	if (idx > LUA_REGISTRYINDEX) { Val* s = slot( L, idx); return s ? *s : none(); }
	if (idx == LUA_REGISTRYINDEX) return ptrv( LUA_TTABLE, L->registry);
	int u = LUA_REGISTRYINDEX - idx; Fun* f = cur( L).fn; if (!f || u > f->nup) return none(); return f->up[u-1];
}
static Tab* tabAt( lua_State* L, int idx) { Val v = at( L, idx); sx_assert( v.tag == LUA_TTABLE, "a table is expected by the Lua API"); return (Tab*)v.p; }
static void need( lua_State* L, int n) { sx_assert( L->top - cur( L).base >= n, "not enough values on the Lua stack"); }
static bool strToNum( const char* s, Val& r)
{
	while (*s == ' ' || (*s >= '\t' && *s <= '\r')) ++s;
	bool neg = false; if (*s == '-' || *s == '+') neg = *s++ == '-';
	if (!((*s >= '0' && *s <= '9') || *s == '.')) return false;
	long v = 0; int nd = 0; double d = 0; bool frac = false;
	while (*s >= '0' && *s <= '9') { v = v*10 + (*s-'0'); d = d*10 + (*s-'0'); ++s; ++nd; }
	if (*s == '.') { ++s; frac = true; double f = 1; while (*s >= '0' && *s <= '9') { f /= 10; d += f*(*s-'0'); ++s; ++nd; } }
	if (!nd) return false;
	while (*s == ' ' || (*s >= '\t' && *s <= '\r')) ++s;
	if (*s) return false;
	if (frac || nd > 15) { r.tag = LUA_TNUMBER; r.isint = 0; r.n = neg ? -d : d; } else r = intv( neg ? -v : v);
	return true;
}
static bool toNum( const Val& v, Val& r) { if (v.tag == LUA_TNUMBER) { r = v; return true; } if (v.tag == LUA_TSTRING) return strToNum( ((Str*)v.p)->b, r); return false; }
static Tab* metaOf( const Val& v) { return v.tag == LUA_TTABLE ? ((Tab*)v.p)->meta : v.tag == LUA_TUSERDATA ? ((Ud*)v.p)->meta : nullptr; }
static void callC( lua_State* L, int func, int nresults)
{
	Val f = L->stk[func]; 
	if (f.tag != LUA_TFUNCTION)
	{
		Tab* m = metaOf( f); Val c = m ? tget( m, keyOf( "__call")) : nilv();
		if (c.tag != LUA_TFUNCTION) { luaL_error( L, "attempt to call a %s value", lua_typename( L, f.tag)); }
		cur( L).limit++; push( L, nilv()); for (int i=L->top-1; i>func; --i) L->stk[i] = L->stk[i-1]; L->stk[func] = c; f = c;
	}
	sx_assert( L->nci < 40, "recursion of Lua calls is bounded in the model");
	CI& c = L->ci[ L->nci++]; c.base = func+1; c.limit = L->top + LUA_MINSTACK; c.fn = (Fun*)f.p;
	int n = c.fn->f( L);
	need( L, n);
	int from = L->top - n; L->nci--;
	if (nresults == LUA_MULTRET) { nresults = n; if (cur( L).limit < func + n) cur( L).limit = func + n; }
	for (int i=0; i<nresults; ++i) L->stk[ func+i] = i < n ? L->stk[ from+i] : nilv();
	L->top = func + nresults;
}
static void throwError( lua_State* L)
{
	L->err = L->stk[ L->top-1];
	if (L->handler >= 0)
	{
		int h = L->handler; L->handler = -1;	//... errors in the handler are not handled
		cur( L).limit = L->top + 8;
		push( L, L->stk[h]); push( L, L->err); callC( L, L->top-2, 1); L->err = L->stk[ L->top-1];
	}
	sx_longjmp( LUA_ERRRUN);
}
struct CallRec { lua_State* L; int func, nresults; };
static void callRec( void* p) { CallRec* c = (CallRec*)p; callC( c->L, c->func, c->nresults); }
static int nextIdx( lua_State* L, Tab* t, int i)
{
	// entries in order of traversal: keys 1..n first, then the others in order of insertion, rotated and reversed as chosen by lm_order (2*rotation + reverse)
	int len = tlen( t);
	if (i < 0 && len) { for (int k=0; k<t->n; ++k) if (eqv( t->k[k], intv( 1))) return k; }
	auto inArray = [&]( int k) { return t->k[k].tag == LUA_TNUMBER && t->k[k].isint && t->k[k].i >= 1 && t->k[k].i <= len; };
	if (i >= 0 && inArray( i) && t->k[i].i < len) { for (int k=0; k<t->n; ++k) if (eqv( t->k[k], intv( t->k[i].i+1))) return k; }
	int rot = t->n ? (L->order >> 1) % t->n : 0, p = -1;
	auto posOf = [&]( int k) { int q = k - rot; if (q < 0) q += t->n; return L->order & 1 ? t->n-1-q : q; };
	auto atPos = [&]( int q) { if (L->order & 1) q = t->n-1-q; q += rot; return q >= t->n ? q - t->n : q; };
	if (i >= 0 && !inArray( i)) p = posOf( i);
	for (++p; p < t->n; ++p) { int k = atPos( p); if (!inArray( k) && t->v[k].tag != LUA_TNIL) return k; }
	return -1;
}
extern "C" {
void lm_order( lua_State* L, int order) { L->order = order; }
lua_State* luaL_newstate()
{
	lua_State* L = (lua_State*)malloc( sizeof(lua_State)); L->cap = 32; L->stk = (Val*)malloc( L->cap*sizeof(Val)); L->top = 0; L->nci = 1;
	L->ci[0].base = 0; L->ci[0].limit = LUA_MINSTACK; L->ci[0].fn = nullptr; L->registry = newtab(); L->globals = newtab(); L->err = nilv(); L->handler = -1; L->nref = 2; L->nud = 0; L->order = 0;
	tset( L->registry, intv( LUA_RIDX_GLOBALS), ptrv( LUA_TTABLE, L->globals)); tset( L->registry, intv( LUA_RIDX_MAINTHREAD), nilv());
	return L;
}
void lua_close( lua_State* L)
{
	L->top = 0; L->nci = 1; L->ci[0].limit = LUA_MINSTACK; L->handler = -1;
	for (int i=L->nud-1; i>=0; --i) if (L->uds[i]->meta)
	{
		Val gc = tget( L->uds[i]->meta, keyOf( "__gc")); if (gc.tag != LUA_TFUNCTION) continue;
		push( L, gc); push( L, ptrv( LUA_TUSERDATA, L->uds[i])); lua_pcallk( L, 1, 0, 0, 0, nullptr); L->top = 0;
	}
}
int lua_gettop( lua_State* L) { return L->top - cur( L).base; }
void lua_settop( lua_State* L, int idx)
{
	if (idx < 0) { sx_assert( L->top + idx + 1 >= cur( L).base, "more values are popped from the Lua stack than there are"); L->top += idx+1; }
	else { while (L->top > cur( L).base + idx) --L->top; while (L->top < cur( L).base + idx) push( L, nilv()); }
}
int lua_absindex( lua_State* L, int idx) { return idx > 0 || idx <= LUA_REGISTRYINDEX ? idx : L->top - cur( L).base + idx + 1; }
int lua_checkstack( lua_State* L, int n) { if (n > 900000) return 0; if (L->top + n > cur( L).limit) cur( L).limit = L->top + n; return 1; }
void luaL_checkstack( lua_State* L, int n, const char* msg) { if (!lua_checkstack( L, n)) luaL_error( L, "stack overflow (%s)", msg); }
void lua_pushvalue( lua_State* L, int idx) { Val v = at( L, idx); sx_assert( v.tag != LUA_TNONE, "invalid index of the Lua stack"); push( L, v); }
void lua_insert( lua_State* L, int idx) { Val* s = slot( L, idx); sx_assert( s, "invalid index of the Lua stack"); Val t = L->stk[ L->top-1]; for (Val* p = L->stk+L->top-1; p > s; --p) *p = p[-1]; *s = t; }
void lua_remove( lua_State* L, int idx) { Val* s = slot( L, idx); sx_assert( s, "invalid index of the Lua stack"); for (; s+1 < L->stk+L->top; ++s) *s = s[1]; --L->top; }
void lua_replace( lua_State* L, int idx) { need( L, 1); Val v = L->stk[ L->top-1]; if (idx < LUA_REGISTRYINDEX) cur( L).fn->up[ LUA_REGISTRYINDEX-idx-1] = v; else { Val* s = slot( L, idx); sx_assert( s, "invalid index of the Lua stack"); *s = v; } --L->top; }
void lua_copy( lua_State* L, int from, int to) { Val v = at( L, from); Val* s = slot( L, to); sx_assert( s, "invalid index of the Lua stack"); *s = v; }
int lua_type( lua_State* L, int idx) { return at( L, idx).tag; }
const char* lua_typename( lua_State*, int t) { static const char* n[] = {"no value","nil","boolean","userdata","number","string","table","function","userdata","thread"}; return n[t+1]; }
int lua_isnumber( lua_State* L, int idx) { Val r; return toNum( at( L, idx), r); }
int lua_isstring( lua_State* L, int idx) { int t = at( L, idx).tag; return t == LUA_TSTRING || t == LUA_TNUMBER; }
int lua_iscfunction( lua_State* L, int idx) { return at( L, idx).tag == LUA_TFUNCTION; }
int lua_isuserdata( lua_State* L, int idx) { int t = at( L, idx).tag; return t == LUA_TUSERDATA || t == LUA_TLIGHTUSERDATA; }
int lua_rawequal( lua_State* L, int a, int b) { return eqv( at( L, a), at( L, b)); }
lua_Number lua_tonumberx( lua_State* L, int idx, int* ok) { Val r; bool c = toNum( at( L, idx), r); if (ok) *ok = c; return !c ? 0 : r.isint ? (double)r.i : r.n; }
lua_Integer lua_tointegerx( lua_State* L, int idx, int* ok) { Val r; bool c = toNum( at( L, idx), r); if (ok) *ok = c; return !c ? 0 : r.isint ? r.i : (r.n >= -9.2e18 && r.n <= 9.2e18) ? (long)r.n : (long)(-9223372036854775807L-1); }
int lua_toboolean( lua_State* L, int idx) { Val v = at( L, idx); return v.tag > LUA_TNIL && !(v.tag == LUA_TBOOLEAN && v.i == 0); }
const char* lua_tolstring( lua_State* L, int idx, size_t* len)
{
	Val* s = idx > LUA_REGISTRYINDEX ? slot( L, idx) : nullptr; Val v = s ? *s : at( L, idx);
	if (v.tag == LUA_TNUMBER)
	{
		char b[64]; if (v.isint) snprintf( b, sizeof b, "%ld", v.i); else snprintf( b, sizeof b, "%.14g", v.n);
		v = keyOf( b); if (s) *s = v;
	}
	if (v.tag != LUA_TSTRING) { if (len) *len = 0; return nullptr; }
	if (len) *len = ((Str*)v.p)->len;
	return ((Str*)v.p)->b;
}
size_t lua_rawlen( lua_State* L, int idx) { Val v = at( L, idx); return v.tag == LUA_TTABLE ? tlen( (Tab*)v.p) : v.tag == LUA_TSTRING ? ((Str*)v.p)->len : v.tag == LUA_TUSERDATA ? ((Ud*)v.p)->size : 0; }
void* lua_touserdata( lua_State* L, int idx) { Val v = at( L, idx); return v.tag == LUA_TUSERDATA ? (void*)((Ud*)v.p+1) : v.tag == LUA_TLIGHTUSERDATA ? v.p : nullptr; }
const void* lua_topointer( lua_State* L, int idx) { Val v = at( L, idx); return v.tag >= LUA_TSTRING || v.tag == LUA_TLIGHTUSERDATA ? v.p : nullptr; }
void lua_pushnil( lua_State* L) { push( L, nilv()); }
void lua_pushnumber( lua_State* L, lua_Number n) { Val v; v.tag = LUA_TNUMBER; v.isint = 0; v.n = n; push( L, v); }
void lua_pushinteger( lua_State* L, lua_Integer n) { push( L, intv( n)); }
void lua_pushunsigned( lua_State* L, lua_Unsigned n) { push( L, intv( n)); }
void lua_pushboolean( lua_State* L, int b) { Val v = intv( b != 0); v.tag = LUA_TBOOLEAN; push( L, v); }
const char* lua_pushlstring( lua_State* L, const char* s, size_t n) { Val v = strv( s, n); push( L, v); return ((Str*)v.p)->b; }
const char* lua_pushstring( lua_State* L, const char* s) { if (!s) { push( L, nilv()); return nullptr; } return lua_pushlstring( L, s, strlen( s)); }
void lua_pushcclosure( lua_State* L, lua_CFunction f, int n) { need( L, n); Fun* c = (Fun*)malloc( sizeof(Fun)+n*sizeof(Val)); c->f = f; c->nup = n; for (int i=0; i<n; ++i) c->up[i] = L->stk[ L->top-n+i]; L->top -= n; push( L, ptrv( LUA_TFUNCTION, (void*)c)); }
void lua_pushlightuserdata( lua_State* L, void* p) { push( L, ptrv( LUA_TLIGHTUSERDATA, p)); }
void lua_createtable( lua_State* L, int, int) { push( L, ptrv( LUA_TTABLE, newtab())); }
void* lua_newuserdata( lua_State* L, size_t n) { Ud* u = (Ud*)malloc( sizeof(Ud)+n); u->meta = nullptr; u->size = n; sx_assert( L->nud < 64, "the number of user data is bounded in the model"); L->uds[ L->nud++] = u; push( L, ptrv( LUA_TUSERDATA, u)); return u+1; }
static void getv( lua_State* L, Val o, const Val& k, int dst)	// the stack slot dst gets the result
{
	for (int n=0; n<8; ++n)
	{
		if (o.tag == LUA_TTABLE) { Val r = tget( (Tab*)o.p, k); if (r.tag != LUA_TNIL || !((Tab*)o.p)->meta) { L->stk[dst] = r; return; } }
		Tab* m = metaOf( o); Val ix = m ? tget( m, keyOf( "__index")) : nilv();
		if (ix.tag == LUA_TNIL) { if (o.tag == LUA_TTABLE) { L->stk[dst] = nilv(); return; } luaL_error( L, "attempt to index a %s value", lua_typename( L, o.tag)); return; }
		if (ix.tag == LUA_TFUNCTION) { cur( L).limit += 3; push( L, ix); push( L, o); push( L, k); callC( L, L->top-3, 1); L->stk[dst] = L->stk[ L->top-1]; --L->top; return; }
		o = ix;
	}
}
void lua_gettable( lua_State* L, int idx) { need( L, 1); Val o = at( L, idx); getv( L, o, L->stk[ L->top-1], L->top-1); }
void lua_getfield( lua_State* L, int idx, const char* k) { Val o = at( L, idx); push( L, keyOf( k)); getv( L, o, L->stk[ L->top-1], L->top-1); }
void lua_rawget( lua_State* L, int idx) { need( L, 1); Tab* t = tabAt( L, idx); L->stk[ L->top-1] = tget( t, L->stk[ L->top-1]); }
void lua_rawgeti( lua_State* L, int idx, int n) { Tab* t = tabAt( L, idx); push( L, tget( t, intv( n))); }
void lua_getglobal( lua_State* L, const char* k) { push( L, tget( L->globals, keyOf( k))); }
static void setv( lua_State* L, const Val& o, const Val& k, const Val& v)
{
	if (o.tag != LUA_TTABLE) { luaL_error( L, "attempt to index a %s value", lua_typename( L, o.tag)); return; }
	if (k.tag == LUA_TNIL) { luaL_error( L, "index is nil"); return; }
	Tab* m = ((Tab*)o.p)->meta; sx_assert( !m || tget( m, keyOf( "__newindex")).tag == LUA_TNIL, "__newindex is not modelled");
	tset( (Tab*)o.p, k, v);
}
void lua_settable( lua_State* L, int idx) { need( L, 2); Val o = at( L, idx); setv( L, o, L->stk[ L->top-2], L->stk[ L->top-1]); L->top -= 2; }
void lua_setfield( lua_State* L, int idx, const char* k) { need( L, 1); Val o = at( L, idx); setv( L, o, keyOf( k), L->stk[ L->top-1]); L->top -= 1; }
void lua_rawset( lua_State* L, int idx) { need( L, 2); Tab* t = tabAt( L, idx); sx_assert( L->stk[ L->top-2].tag != LUA_TNIL, "nil as key of a table"); tset( t, L->stk[ L->top-2], L->stk[ L->top-1]); L->top -= 2; }
void lua_rawseti( lua_State* L, int idx, int n) { need( L, 1); Tab* t = tabAt( L, idx); tset( t, intv( n), L->stk[ L->top-1]); --L->top; }
void lua_setglobal( lua_State* L, const char* k) { need( L, 1); tset( L->globals, keyOf( k), L->stk[ L->top-1]); --L->top; }
int lua_setmetatable( lua_State* L, int idx) { need( L, 1); Val o = at( L, idx); Val m = L->stk[ L->top-1]; sx_assert( m.tag == LUA_TTABLE || m.tag == LUA_TNIL, "a metatable is a table"); Tab* t = m.tag == LUA_TTABLE ? (Tab*)m.p : nullptr; if (o.tag == LUA_TTABLE) ((Tab*)o.p)->meta = t; else if (o.tag == LUA_TUSERDATA) ((Ud*)o.p)->meta = t; --L->top; return 1; }
int lua_getmetatable( lua_State* L, int idx) { Tab* m = metaOf( at( L, idx)); if (!m) return 0; push( L, ptrv( LUA_TTABLE, m)); return 1; }
int luaL_getmetafield( lua_State* L, int idx, const char* k) { Tab* m = metaOf( at( L, idx)); if (!m) return 0; Val v = tget( m, keyOf( k)); if (v.tag == LUA_TNIL) return 0; push( L, v); return 1; }
int lua_next( lua_State* L, int idx)
{
	need( L, 1); Tab* t = tabAt( L, idx); Val k = L->stk[ --L->top]; int i = -1;
	if (k.tag != LUA_TNIL) { for (i=0; i<t->n && !eqv( t->k[i], k); ++i) {} if (i == t->n) { luaL_error( L, "invalid key to 'next'"); return 0; } }
	i = nextIdx( L, t, i); if (i < 0) return 0;
	Val nk = t->k[i], nv = t->v[i]; push( L, nk); push( L, nv); return 1;
}
void lua_callk( lua_State* L, int nargs, int nresults, int, lua_CFunction) { need( L, nargs+1); callC( L, L->top-nargs-1, nresults); }
int lua_pcallk( lua_State* L, int nargs, int nresults, int errfunc, int, lua_CFunction)
{
	need( L, nargs+1); int func = L->top-nargs-1, nci = L->nci, handler = L->handler;
	if (errfunc) { Val* h = slot( L, errfunc); sx_assert( h && h < L->stk+func, "the error handler is on the Lua stack below the function called"); L->handler = h - L->stk; } else L->handler = -1;
	CallRec r = {L, func, nresults};
	int rc = sx_trycall( callRec, &r);
	L->handler = handler; L->nci = nci;
	if (rc) { L->top = func; Val e = L->err; push( L, e); }
	return rc;
}
int lua_error( lua_State* L) { need( L, 1); throwError( L); return 0; }
int luaL_error( lua_State* L, const char* fmt, ...) { char b[400]; va_list ap; va_start( ap, fmt); vsnprintf( b, sizeof b, fmt, ap); va_end( ap); cur( L).limit += 2; lua_pushstring( L, b); throwError( L); return 0; }
int lua_getstack( lua_State* L, int level, lua_Debug* ar) { if (level < 0 || level >= L->nci-1) return 0; ar->event = level; return 1; }
int lua_getinfo( lua_State*, const char*, lua_Debug* ar) { ar->source = "=[C]"; strcpy( ar->short_src, "[C]"); ar->what = "C"; ar->currentline = -1; ar->linedefined = -1; ar->lastlinedefined = -1; ar->name = nullptr; ar->namewhat = ""; return 1; }
int luaL_ref( lua_State* L, int idx) { need( L, 1); Tab* t = tabAt( L, idx); Val v = L->stk[ --L->top]; if (v.tag == LUA_TNIL) return LUA_REFNIL; int r = ++L->nref; tset( t, intv( r), v); return r; }
void luaL_unref( lua_State* L, int idx, int r) { if (r >= 0) { Tab* t = tabAt( L, idx); sx_assert( tget( t, intv( r)).tag != LUA_TNIL, "a reference is released once"); tset( t, intv( r), nilv()); } }
int luaL_newmetatable( lua_State* L, const char* name) { Val k = keyOf( name), v = tget( L->registry, k); if (v.tag != LUA_TNIL) { push( L, v); return 0; } v = ptrv( LUA_TTABLE, newtab()); push( L, v); tset( L->registry, k, v); return 1; }
void* luaL_testudata( lua_State* L, int idx, const char* name) { Val v = at( L, idx); if (v.tag != LUA_TUSERDATA) return nullptr; Val m = tget( L->registry, keyOf( name)); return m.tag == LUA_TTABLE && m.p == ((Ud*)v.p)->meta ? (void*)((Ud*)v.p+1) : nullptr; }
void* luaL_checkudata( lua_State* L, int idx, const char* name) { void* p = luaL_testudata( L, idx, name); if (!p) luaL_error( L, "bad argument #%d (%s expected, got %s)", idx, name, lua_typename( L, at( L, idx).tag)); return p; }
void luaL_setmetatable( lua_State* L, const char* name) { push( L, tget( L->registry, keyOf( name))); lua_setmetatable( L, -2); }
void luaL_setfuncs( lua_State* L, const luaL_Reg* l, int nup) { for (; l->name; ++l) { for (int i=0; i<nup; ++i) lua_pushvalue( L, -nup); lua_pushcclosure( L, l->func, nup); lua_setfield( L, -(nup+2), l->name); } L->top -= nup; }
}
