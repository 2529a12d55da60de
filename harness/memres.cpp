#include "sx.h"
#include <cstdlib>
#include "memory_resource.hpp"
#include "typedb.hpp"
using namespace mewa;
struct Up : public std::pmr::memory_resource	// records what overflows
{
	int n = 0; std::size_t sz[8], al[8]; char* p[8];
	void* do_allocate( size_t b, size_t a) override { sz[n] = b; al[n] = a; p[n] = (char*)std::malloc( 512); return p[n++]; }
	void do_deallocate( void*, size_t, size_t) override {}
	bool do_is_equal( const std::pmr::memory_resource&) const noexcept override { return false; }
};
extern "C" void h_memres()
{
	int N = sx_arg(0);
	alignas(128) char buf[32]; Up up;
	monotonic_buffer_resource m( buf, sizeof buf, &up);
	char* p[6]; std::size_t sz[6];
	for (int i=0; i<N; ++i)
	{
		sz[i] = sx_small( "size", 0, 31); static const std::size_t AL[6] = {1,4,8,16,32,2}; std::size_t al = AL[ sx_pick( "align", sx_arg(1))];
		int ups = up.n;
		std::pmr::memory_resource* r = &m;
		p[i] = (char*)r->allocate( sz[i], al);
		if (up.n > ups) { sx_assert( p[i] == up.p[ups] && up.sz[ups] == sz[i] && up.al[ups] == al, "what does not fit comes from the upstream resource"); sx_reach("upstream"); sz[i] = 0; continue; }
		sx_reach("local");
		std::size_t off = p[i] - buf;
		sx_assert( off <= sizeof buf && sz[i] <= sizeof buf - off, "a block is inside the buffer");
		sx_assert( (off & (al-1)) == 0, "a block is aligned");
		for (int j=0; j<i; ++j) { std::size_t o2 = p[j]-buf; sx_assert( (sz[j] == 0) | (sz[i] == 0) | (o2 + sz[j] <= off) | (off + sz[i] <= o2), "blocks do not overlap"); }
	}
	sx_expect("local"); sx_expect("upstream");
}
extern "C" void h_memres_bad_align()
{
	alignas(16) char buf[32]; Up up; monotonic_buffer_resource m( buf, sizeof buf, &up);
	std::size_t al; sx_sym( &al, 8, "align");
	sx_assume( (al == 0) | ((al & (al-1)) != 0));
	bool thrown = false;
	try { m.allocate( 4, al); } catch (const std::bad_alloc&) { thrown = true; }
	sx_assert( thrown, "an alignment that is not a power of two is refused"); sx_reach("refused"); sx_expect("refused");
}
