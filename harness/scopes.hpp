// Shared by the type database harnesses: histories of properly nested scopes with arbitrary bounds.
#pragma once
#include "sx.h"
#include "typedb.hpp"
#include "error.hpp"
using namespace mewa;
static const int INF = 2147483647;
struct Sc { int s, e; };
static inline bool nested( const Sc& a, const Sc& b) { return (a.e <= b.s) | (b.e <= a.s) | ((a.s >= b.s) & (a.e <= b.e)) | ((b.s >= a.s) & (b.e <= a.e)); }
static inline bool inside( const Sc& a, const Sc& b) { return (a.s >= b.s) & (a.e <= b.e); }	// a inside b
static inline bool same( const Sc& a, const Sc& b) { return (a.s == b.s) & (a.e == b.e); }
static inline bool holds( const Sc& a, int step) { return (a.s <= step) & (step < a.e); }
// arbitrary non-empty scope, properly nested with the n scopes before
static inline Sc anyScope( const Sc* prev, int n)
{
	Sc c; sx_sym( &c.s, 4, "start"); sx_sym( &c.e, 4, "end"); sx_assume( (c.s >= 0) & (c.s < c.e));
	for (int j=0; j<n; ++j) sx_assume( nested( c, prev[j]));
	return c;
}
static inline int anyStep() { int q; sx_sym( &q, 4, "step"); sx_assume( q >= 0); return q; }
template <class F> static int errorOf( F f) { try { f(); } catch (const Error& e) { return (int)e.code(); } return 0; }
