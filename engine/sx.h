// Harness interface. In the symbolic build these are engine intrinsics; in the native replay build
// (replay.cpp) sx_sym reads the counterexample file and sx_assert reports.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void sx_sym( void* p, size_t n, const char* name);	// make n bytes symbolic (arbitrary)
void sx_assume( bool c);
void sx_assert( bool c, const char* msg);
void sx_reach( const char* name);			// reachability witness
void sx_expect( const char* name);			// declares a witness that has to be reached
long sx_arg( int i);					// concrete configuration parameter
uint64_t sx_concretize( uint64_t v);			// fork over all feasible values
void sx_print( const char* msg, uint64_t v);
bool sx_is_symbolic( uint64_t v);
void sx_note( const char* s);
uint64_t sx_heap_live();
int sx_trycall( void (*fn)( void*), void* arg);	// 0, or the code of the sx_longjmp that ended it; no destructors are called
void sx_longjmp( int code);
}
static inline int sx_int( const char* name, int lo, int hi) { int v; sx_sym( &v, sizeof(v), name); sx_assume( (v >= lo) & (v <= hi)); return v; }
static inline unsigned sx_u8( const char* name, unsigned lo, unsigned hi) { unsigned char v; sx_sym( &v, 1, name); sx_assume( (v >= lo) & (v <= hi)); return v; }
static inline int sx_pick( const char* name, int n) { unsigned char v; sx_sym( &v, 1, name); sx_assume( v < n); return (int)sx_concretize( v); }
// value in [lo,hi], one byte of symbolic data
static inline int sx_small( const char* name, int lo, int hi) { unsigned char v; sx_sym( &v, 1, name); sx_assume( v <= (unsigned)(hi-lo)); return lo + (int)v; }
