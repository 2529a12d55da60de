#include "sx.h"
#include "identmap.hpp"
#include <cstring>
using namespace mewa;
extern "C" void h_ident()
{
	int N = sx_arg(0), MAX = sx_arg(1);
	char buf[1024], buf2[1024];
	monotonic_buffer_resource m1( buf, sizeof buf), m2( buf2, sizeof buf2);
	IdentMap map( &m1, &m2, 16);
	char s[4][16]; int len[4], id[4];
	for (int i=0; i<N; ++i)
	{
		len[i] = sx_pick( "len", MAX+1); for (int k=0; k<len[i]; ++k) { static const char AB[3] = {0,'a','b'}; s[i][k] = AB[ sx_pick( "byte", 3)]; }
		int before = map.lookup( std::string_view( s[i], len[i]));
		id[i] = map.get( std::string_view( s[i], len[i]));
		sx_assert( id[i] > 0, "an identifier gets a positive number");
		int exp = 0;
		for (int j=0; j<i; ++j)
		{
			bool eq = len[i] == len[j] && 0 == std::memcmp( s[i], s[j], len[i]);
			if (eq) exp = id[j];
			sx_assert( eq == (id[i] == id[j]), "two strings have the same number exactly if they have the same bytes");
			sx_reach( eq ? "same" : "different");
		}
		sx_assert( before == exp, "looking up an identifier tells if it was interned before and does not intern it");
		sx_assert( map.lookup( std::string_view( s[i], len[i])) == id[i], "an identifier interned is found");
	}
	for (int i=0; i<N; ++i)
	{
		std::string_view v = map.inv( id[i]);
		sx_assert( (int)v.size() == len[i] && 0 == std::memcmp( v.data(), s[i], len[i]), "the string of a number is the string interned");
	}
	sx_expect("same"); sx_expect("different");
}
// keys of arbitrary bytes: equality and hash of the key type
extern "C" void h_ident_key()
{
	int MAX = sx_arg(0);
	alignas(8) char buf[3][16]; sx_sym( buf, sizeof buf, "garbage");	// memory is not clean
	monotonic_buffer_resource m1( buf[0], 16), m2( buf[1], 16), m3( buf[2], 16);
	char s[2][16]; int len[2];
	for (int i=0; i<2; ++i) { len[i] = sx_pick( "len", MAX+1); sx_sym( s[i], len[i], "bytes"); }
	IdentKeyEnvelop a( IdentKey::create( &m1, std::string_view( s[0], len[0]))), b( IdentKey::create( &m2, std::string_view( s[1], len[1])));
	bool eq = len[0] == len[1]; for (int k=0; k<len[0] && k<len[1]; ++k) eq &= s[0][k] == s[1][k];
	sx_assert( (a == b) == eq && (b == a) == eq, "keys are equal exactly if the strings have the same bytes");
	IdentKeyEnvelop c( IdentKey::create( &m3, std::string_view( s[0], len[0])));
	sx_assert( a.hash() == c.hash() && a == c, "keys of the same bytes are equal and have the same hash");
	sx_reach( eq ? "same" : "different");
	sx_assert( a.key->size == len[0] && 0 == std::memcmp( a.key->buf, s[0], len[0]), "a key holds the bytes of the string");
	sx_expect("same"); sx_expect("different");
}
// long identifiers: length arg0, differing in one arbitrary byte somewhere
extern "C" void h_ident_long()
{
	int L = sx_arg(0);
	IdentMap map( std::pmr::get_default_resource(), std::pmr::get_default_resource(), 16);
	std::string a( L, 'x'), b( L, 'x');
	int at[3] = {0, L/2, L-1}; int p = at[ sx_pick( "position", 3)];
	a[p] = "xy"[ sx_pick( "byte", 2)]; b[p] = "xy"[ sx_pick( "byte", 2)];
	int i = map.get( a), k = map.get( b), z = map.get( "z");
	std::string_view v = map.inv( i);
	// names may be cut at a limit near 64K
	sx_assert( L > 65500 ? (int)v.size() <= L && v.size() >= 65500 : (int)v.size() == L, "the string of a number has the length of the string interned");
	if (p < (int)v.size()) sx_assert( (i == k) == (a[p] == b[p]), "long strings have the same number exactly if they have the same bytes");
	sx_assert( z != i && z != k, "a short string differs from a long one");
	sx_assert( 0 == std::memcmp( v.data(), a.data(), v.size()), "the string of a number is the string interned");
	sx_reach("long"); sx_expect("long");
}
