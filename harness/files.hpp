// Files in memory (engine/rt/rt_file.cpp): what a harness provides and what was written
#pragma once
#include "sx.h"
#include <string>
extern "C" {
void fm_begin();
void fm_end();
void fm_put( const char* name, const char* data, size_t n);	// a file with this content
void fm_dir( const char* name);				// a directory
void fm_none( const char* name);				// no such file
void fm_limit( const char* name, long n);			// only n bytes can be written to the file, -2: it can not be opened for writing
const char* fm_get( const char* name, size_t* n);
const char* fm_std( int k, size_t* n);			// what was written to standard output (0) or standard error (1)
int fm_open();						// number of files open
}
static inline void putFile( const char* name, const std::string& s) { fm_put( name, s.data(), s.size()); }
static inline bool getFile( const char* name, std::string& s) { size_t n; const char* p = fm_get( name, &n); if (!p) return false; s.assign( p, n); return true; }
static inline std::string stdText( int k) { size_t n; const char* p = fm_std( k, &n); return std::string( p, n); }
