#include "expr.h"
E g_true, g_false;
std::vector<std::string> g_varNames;
std::vector<unsigned> g_varWidth;
SolverStats g_sst;
static std::vector<E> g_vars;

struct KeyHash { size_t operator()(const Expr* e) const {
	uint64_t h = e->k*0x9E3779B97F4A7C15ull ^ e->w*0xC2B2AE3D27D4EB4Full ^ e->c*0x165667B19E3779F9ull;
	h ^= (uintptr_t)e->a*0x85EBCA77C2B2AE63ull; h = (h<<13)|(h>>51); h ^= (uintptr_t)e->b*0x27D4EB2F165667C5ull; h=(h<<17)|(h>>47); h ^= (uintptr_t)e->d*0x9E3779B185EBCA87ull;
	return h ^ (h>>29); } };
struct KeyEq { bool operator()(const Expr* x, const Expr* y) const { return x->k==y->k&&x->w==y->w&&x->c==y->c&&x->a==y->a&&x->b==y->b&&x->d==y->d; } };
static std::unordered_set<Expr*,KeyHash,KeyEq> g_tab;
static uint32_t g_id = 0;
size_t exprCount() { return g_id; }

static E mkRaw(EK k, unsigned w, uint64_t c, E a, E b, E d)
{
	Expr key; key.k=k; key.w=(uint8_t)w; key.c=c; key.a=a; key.b=b; key.d=d;
	auto it = g_tab.find(&key);
	if (it != g_tab.end()) return *it;
	Expr* e = new Expr(key);
	e->id = ++g_id; e->evEpoch=0; e->evVal=0; e->z3=0; e->z3f=0; e->fp = (k>=EFAdd);
	e->vars = Bits256();
	if (k==EVar) e->vars.set((unsigned)c);
	for (E x : {a,b,d}) if (x) { e->vars |= x->vars; e->fp |= x->fp; }
	g_tab.insert(e);
	return e;
}

E mkConst(uint64_t v, unsigned w) { return mkRaw(EConst,w,v&maskw(w),0,0,0); }
static std::unordered_map<std::string,unsigned> g_varIdx;
E mkVar(const std::string& name, unsigned w)
{
	std::string key = name + "#" + std::to_string(w);
	auto it = g_varIdx.find(key);
	if (it != g_varIdx.end()) return g_vars[it->second];
	unsigned idx = g_vars.size();
	E e = mkRaw(EVar,w,idx,0,0,0);
	g_vars.push_back(e); g_varWidth.push_back(w); g_varNames.push_back(name);
	g_varIdx[key] = idx;
	return e;
}
void exprInit() { g_true = mkConst(1,1); g_false = mkConst(0,1); }

// results that are not a number have one representation
static inline uint64_t canon(unsigned w, uint64_t r) { return w==32 ? (std::isnan(asF(r))?0x7fc00000u:r) : (std::isnan(asD(r))?0x7ff8000000000000ull:r); }
uint64_t foldOp(EK k, unsigned w, unsigned aw, uint64_t a, uint64_t b, uint64_t d, uint64_t c)
{
	uint64_t m = maskw(w);
	switch (k) {
	case EAdd: return (a+b)&m; case ESub: return (a-b)&m; case EMul: return (a*b)&m;
	case EUDiv: return b? (a/b)&m : m;
	case ESDiv: { int64_t x=sx(a,aw),y=sx(b,aw); if (!y) return x<0?1:m; if (y==-1) return (uint64_t)(0-(uint64_t)x)&m; return (uint64_t)(x/y)&m; }
	case EURem: return b? (a%b)&m : a;
	case ESRem: { int64_t x=sx(a,aw),y=sx(b,aw); if (!y) return a; if (y==-1) return 0; return (uint64_t)(x%y)&m; }
	case EAnd: return a&b; case EOr: return a|b; case EXor: return a^b;
	case EShl: return b>=w?0:(a<<b)&m;
	case ELShr: return b>=w?0:(a>>b);
	case EAShr: { int64_t x=sx(a,w); return (uint64_t)(b>=w?(x<0?-1:0):(x>>b))&m; }
	case EEq: return a==b; case EUlt: return a<b; case EUle: return a<=b;
	case ESlt: return sx(a,aw)<sx(b,aw); case ESle: return sx(a,aw)<=sx(b,aw);
	case EIte: return a?b:d;
	case EExtract: return (a>>c)&m;
	case EZExt: return a; case ESExt: return (uint64_t)sx(a,aw)&m;
	case EFAdd: return canon(w, w==32?fromF(asF(a)+asF(b)):fromD(asD(a)+asD(b)));
	case EFSub: return canon(w, w==32?fromF(asF(a)-asF(b)):fromD(asD(a)-asD(b)));
	case EFMul: return canon(w, w==32?fromF(asF(a)*asF(b)):fromD(asD(a)*asD(b)));
	case EFDiv: return canon(w, w==32?fromF(asF(a)/asF(b)):fromD(asD(a)/asD(b)));
	case EFRem: return canon(w, w==32?fromF(fmodf(asF(a),asF(b))):fromD(fmod(asD(a),asD(b))));
	case EFOeq: return aw==32? asF(a)==asF(b) : asD(a)==asD(b);
	case EFOlt: return aw==32? asF(a)<asF(b) : asD(a)<asD(b);
	case EFOle: return aw==32? asF(a)<=asF(b) : asD(a)<=asD(b);
	case EFUno: return aw==32? (std::isnan(asF(a))||std::isnan(asF(b))) : (std::isnan(asD(a))||std::isnan(asD(b)));
	case EFFloor: return canon(w, w==32?fromF(floorf(asF(a))):fromD(floor(asD(a))));
	case EFCeil: return canon(w, w==32?fromF(ceilf(asF(a))):fromD(ceil(asD(a))));
	case EFTrunc: return canon(w, w==32?fromF(truncf(asF(a))):fromD(trunc(asD(a))));
	case EFPExt: return canon(w, fromD((double)asF(a)));
	case EFPTrunc: return canon(w, fromF((float)asD(a)));
	case ESIToFP: { int64_t x=sx(a,aw); return w==32?fromF((float)x):fromD((double)x); }
	case EUIToFP: return w==32?fromF((float)a):fromD((double)a);
	case EFPToSI: { double x = trunc(aw==32?asF(a):asD(a)), lim = ldexp(1.0,(int)w-1); if (!(x>=-lim&&x<lim)) return (1ull<<(w-1)); return (uint64_t)(int64_t)x & m; } // out of range: as the processor does it
	case EFPToUI: { double x = aw==32?asF(a):asD(a); if (!(x>-1&&x<1.9e19)) return 0; return (uint64_t)x & m; }
	default: fprintf(stderr,"foldOp %d\n",k); abort();
	}
}

static inline bool isC(E e) { return e->k==EConst; }
static inline bool isC(E e, uint64_t v) { return e->k==EConst && e->c==v; }

static E exactInt(E a);
E mkBin(EK k, E a, E b)
{
	unsigned w = a->w;
	if (isC(a)&&isC(b)) return mkConst(foldOp(k,w,w,a->c,b->c,0,0),w);
	if (k==EFSub && a==b && exactInt(a)) return mkConst(0,w);
	if (k>=EFAdd) return mkRaw(k,w,0,a,b,0);
	if (isC(a) && (k==EAdd||k==EMul||k==EAnd||k==EOr||k==EXor)) std::swap(a,b);
	if (isC(b)) {
		uint64_t c=b->c;
		switch (k) {
		case EAdd: if (!c) return a; if (a->k==EAdd&&isC(a->b)) return mkBin(EAdd,a->a,mkConst(a->b->c+c,w));
			if (a->k==EIte && isC(a->b) && isC(a->d)) return mkIte(a->a, mkConst(a->b->c+c,w), mkConst(a->d->c+c,w));
			break;
		case ESub: return mkBin(EAdd,a,mkConst(0-c,w));
		case EMul: if (c==0) return b; if (c==1) return a; if ((c&(c-1))==0) return mkBin(EShl,a,mkConst(__builtin_ctzll(c),w)); break;
		case EUDiv: if (c==1) return a; if (c && (c&(c-1))==0) return mkBin(ELShr,a,mkConst(__builtin_ctzll(c),w)); break;
		case EURem: if (c==1) return mkConst(0,w); if (c && (c&(c-1))==0) return mkBin(EAnd,a,mkConst(c-1,w)); break;
		case EAnd: if (c==0) return b; if (c==maskw(w)) return a;
			if (a->k==EAnd&&isC(a->b)) return mkBin(EAnd,a->a,mkConst(a->b->c&c,w));
			// low mask -> zext(extract)
			if ((c&(c+1))==0) { unsigned n=64-__builtin_clzll(c); if (n<w) return mkZExt(mkExtract(a,0,n),w); }
			break;
		case EOr: if (c==0) return a; if (c==maskw(w)) return b; break;
		case EXor: if (c==0) return a; if (a->k==EXor&&isC(a->b)) return mkBin(EXor,a->a,mkConst(a->b->c^c,w));
			if (w==1 && a->k==EIte && (isC(a->b)||isC(a->d))) return mkIte(a->a, mkNot(a->b), mkNot(a->d));
			break;
		case EShl: if (c==0) return a; if (c>=w) return mkConst(0,w); return mkConcat(mkExtract(a,0,w-c), mkConst(0,c));
		case ELShr: if (c==0) return a; if (c>=w) return mkConst(0,w); return mkZExt(mkExtract(a,c,w-c),w);
		case EAShr: if (c==0) return a; if (c>=w) c=w-1; return mkSExt(mkExtract(a,c,w-c),w);
		default: break;
		}
	}
	if (a==b) switch (k) {
		case ESub: case EXor: return mkConst(0,w);
		case EAnd: case EOr: return a;
		default: break;
	}
	if (k==ESub && isC(a) && a->c==0) {}
	if (w==1) {
		if (k==EAdd) k=EXor; // mod 2
		if ((k==EAnd||k==EOr)) {
			// x & !x
			if (a->k==EXor && a->b==g_true && a->a==b) return k==EAnd?g_false:g_true;
			if (b->k==EXor && b->b==g_true && b->a==a) return k==EAnd?g_false:g_true;
		}
	}
	if (k==EOr && w>1) {
		// or of disjoint concat pieces: zext(x) | concat(y,0)
		auto lowZero = [](E e)->unsigned { if (e->k==EConcat && isC(e->b,0)) return e->b->w; return 0; };
		auto hiZero = [](E e)->unsigned { if (e->k==EZExt) return e->a->w; return e->w; };
		for (int i=0;i<2;++i) {
			unsigned lz = lowZero(a), hw = hiZero(b);
			if (lz && hw<=lz) return mkConcat(a->a, mkExtract(b,0,lz));
			std::swap(a,b);
		}
	}
	if ((k==EAdd||k==EMul||k==EAnd||k==EOr||k==EXor) && !isC(b) && a->id > b->id) std::swap(a,b);
	return mkRaw(k,w,0,a,b,0);
}

// integer converted to floating point without rounding, as a 64-bit integer, or null
static E exactInt(E a)
{
	if (a->k!=ESIToFP && a->k!=EUIToFP) return nullptr;
	unsigned s=a->a->w; if (s>(a->w==64?52u:23u)) return nullptr;
	return a->k==ESIToFP ? mkSExt(a->a,64) : mkZExt(a->a,64);
}
static E cmpExactConst(EK k, E x, double c, bool left) // x OP c (left) or c OP x
{
	if (c!=c) return k==EFUno?g_true:g_false;
	if (k==EFUno) return g_false;
	if (k==EFOeq) { if (c!=floor(c) || !(fabs(c)<9e15)) return g_false; return mkCmp(EEq,x,mkConst((uint64_t)(int64_t)c,64)); }
	if (c>9e15) return left?g_true:g_false;
	if (c<-9e15) return left?g_false:g_true;
	if (left) return k==EFOlt ? mkCmp(ESlt,x,mkConst((uint64_t)(int64_t)ceil(c),64)) : mkCmp(ESle,x,mkConst((uint64_t)(int64_t)floor(c),64));
	return k==EFOlt ? mkCmp(ESlt,mkConst((uint64_t)(int64_t)floor(c),64),x) : mkCmp(ESle,mkConst((uint64_t)(int64_t)ceil(c),64),x);
}
E mkCmp(EK k, E a, E b)
{
	if (isC(a)&&isC(b)) return mkConst(foldOp(k,1,a->w,a->c,b->c,0,0),1);
	if (k>=EFAdd) {
		E x=exactInt(a), y=exactInt(b);
		if (x && y) return k==EFUno ? g_false : mkCmp(k==EFOeq?EEq:k==EFOlt?ESlt:ESle,x,y);
		if (x && isC(b)) return cmpExactConst(k,x,b->w==64?asD(b->c):asF(b->c),true);
		if (y && isC(a)) return cmpExactConst(k,y,a->w==64?asD(a->c):asF(a->c),false);
		return mkRaw(k,1,0,a,b,0);
	}
	if (a==b) return (k==EEq||k==EUle||k==ESle)?g_true:g_false;
	unsigned w=a->w;
	if (k==EEq) {
		if (isC(a)) std::swap(a,b);
		if (isC(b)) {
			uint64_t c=b->c;
			if (w==1) return c? a : mkNot(a);
			if (a->k==EZExt) { if (c & ~maskw(a->a->w)) return g_false; return mkCmp(EEq,a->a,mkConst(c,a->a->w)); }
			if (a->k==ESExt) { uint64_t lo=c&maskw(a->a->w); if ((uint64_t)sx(lo,a->a->w)%1==0 && (((uint64_t)sx(lo,a->a->w))&maskw(w))!=c) return g_false; return mkCmp(EEq,a->a,mkConst(lo,a->a->w)); }
			if (a->k==EAdd && isC(a->b)) return mkCmp(EEq,a->a,mkConst(c-a->b->c,w));
			if (a->k==EXor && isC(a->b)) return mkCmp(EEq,a->a,mkConst(c^a->b->c,w));
			if (a->k==EConcat) return mkBin(EAnd, mkCmp(EEq,a->a,mkConst(c>>a->b->w,a->a->w)), mkCmp(EEq,a->b,mkConst(c,a->b->w)));
			if (a->k==EIte) {
				E x=a->b,y=a->d;
				if (isC(x)||isC(y)) {
					E ex=mkCmp(EEq,x,b), ey=mkCmp(EEq,y,b);
					return mkIte(a->a,ex,ey);
				}
			}
		} else {
			if (a->k==EZExt && b->k==EZExt && a->a->w==b->a->w) return mkCmp(EEq,a->a,b->a);
			if (a->k==ESExt && b->k==ESExt && a->a->w==b->a->w) return mkCmp(EEq,a->a,b->a);
			if (a->k==EConcat && b->k==EConcat && a->b->w==b->b->w && a->a->w==b->a->w) return mkBin(EAnd,mkCmp(EEq,a->a,b->a),mkCmp(EEq,a->b,b->b));
			if (w==1) return mkNot(mkBin(EXor,a,b));
			if (a->id > b->id) std::swap(a,b);
		}
	} else {
		if (k==EUlt && isC(b,0)) return g_false;
		if (k==EUle && isC(a,0)) return g_true;
		if (k==EUlt && isC(b,1)) return mkCmp(EEq,a,mkConst(0,w));
		if (k==EUle && isC(b,0)) return mkCmp(EEq,a,b);
		if (k==EUlt && isC(a,0)) return mkNot(mkCmp(EEq,b,a));
		if (k==EUle && isC(b,maskw(w))) return g_true;
		if (k==EUlt && isC(a,maskw(w))) return g_false;
		if (a->k==EZExt && b->k==EZExt && a->a->w==b->a->w) return mkCmp(k==ESlt?EUlt:k==ESle?EUle:k,a->a,b->a);
		if (a->k==EZExt && isC(b)) {
			unsigned n=a->a->w; bool sg=(k==ESlt||k==ESle);
			if (sg && sx(b->c,w)<0) return g_false;
			if (b->c & ~maskw(n)) return g_true;
			return mkCmp(k==ESlt?EUlt:k==ESle?EUle:k,a->a,mkConst(b->c,n));
		}
		if (b->k==EZExt && isC(a)) {
			unsigned n=b->a->w; bool sg=(k==ESlt||k==ESle);
			if (sg && sx(a->c,w)<0) return g_true;
			if (a->c & ~maskw(n)) return g_false;
			return mkCmp(k==ESlt?EUlt:k==ESle?EUle:k,mkConst(a->c,n),b->a);
		}
		if (a->k==ESExt && b->k==ESExt && a->a->w==b->a->w) return mkCmp(k,a->a,b->a);
		if ((k==ESlt||k==ESle) && a->k==ESExt && isC(b)) {
			unsigned n=a->a->w; int64_t v=sx(b->c,w); if (sx((uint64_t)v,n)==v) return mkCmp(k,a->a,mkConst((uint64_t)v,n));
			return v>0?g_true:g_false;
		}
		if ((k==ESlt||k==ESle) && b->k==ESExt && isC(a)) {
			unsigned n=b->a->w; int64_t v=sx(a->c,w); if (sx((uint64_t)v,n)==v) return mkCmp(k,mkConst((uint64_t)v,n),b->a);
			return v>0?g_false:g_true;
		}
		// sign tests
		if (k==ESlt && isC(b,0) && w>1) {
			if (a->k==EConcat) return mkCmp(ESlt,a->a,mkConst(0,a->a->w));
			if (a->k==EOr && w>1) return mkBin(EOr,mkCmp(ESlt,a->a,b),mkCmp(ESlt,a->b,b));
			if (a->k==EAnd && w>1) return mkBin(EAnd,mkCmp(ESlt,a->a,b),mkCmp(ESlt,a->b,b));
		}
		if (k==ESlt && isC(a,maskw(w)) && w>1 && (b->k==EConcat||b->k==EOr||b->k==EAnd)) return mkNot(mkCmp(ESlt,b,mkConst(0,w)));
		if (k==ESle && isC(a,0) && w>1 && (b->k==EConcat||b->k==EOr||b->k==EAnd)) return mkNot(mkCmp(ESlt,b,a));
		if (k==ESle && isC(b,maskw(w)) && w>1 && (a->k==EConcat||a->k==EOr||a->k==EAnd)) return mkCmp(ESlt,a,mkConst(0,w));
		if (a->k==EIte && isC(a->b) && isC(a->d) && isC(b)) return mkIte(a->a,mkCmp(k,a->b,b),mkCmp(k,a->d,b));
		if (b->k==EIte && isC(b->b) && isC(b->d) && isC(a)) return mkIte(b->a,mkCmp(k,a,b->b),mkCmp(k,a,b->d));
	}
	// canonical form: strict comparisons, constants on the right
	if (k==ESle) return mkNot(mkCmp(ESlt,b,a));
	if (k==EUle) return mkNot(mkCmp(EUlt,b,a));
	if (k==ESlt && isC(a)) { uint64_t mx=maskw(w)>>1; if (a->c==mx) return g_false; return mkNot(mkCmp(ESlt,b,mkConst(a->c+1,w))); }
	if (k==EUlt && isC(a)) { if (a->c==maskw(w)) return g_false; return mkNot(mkCmp(EUlt,b,mkConst(a->c+1,w))); }
	if (k==ESlt && isC(b) && b->c==(1ull<<(w-1))) return g_false;
	return mkRaw(k,1,0,a,b,0);
}

E mkIte(E c, E a, E b)
{
	if (isC(c)) return c->c?a:b;
	if (a==b) return a;
	if (c->k==EXor && c->b==g_true) return mkIte(c->a,b,a);
	if (a->w==1) {
		if (isC(a)&&isC(b)) return a->c? c : mkNot(c);
		if (isC(a)) return a->c? mkBin(EOr,c,b) : mkBin(EAnd,mkNot(c),b);
		if (isC(b)) return b->c? mkBin(EOr,mkNot(c),a) : mkBin(EAnd,c,a);
	}
	if (a->k==EIte && a->a==c) a=a->b;
	if (b->k==EIte && b->a==c) b=b->d;
	if (a==b) return a;
	if (b->k==EIte && b->b==a) return mkIte(mkBin(EOr,c,b->a),a,b->d);
	return mkRaw(EIte,a->w,0,c,a,b);
}

E mkExtract(E a, unsigned lo, unsigned w)
{
	if (lo==0 && w==a->w) return a;
	if (isC(a)) return mkConst(a->c>>lo,w);
	switch (a->k) {
	case EExtract: return mkExtract(a->a,lo+a->c,w);
	case EConcat: { unsigned bw=a->b->w; if (lo+w<=bw) return mkExtract(a->b,lo,w); if (lo>=bw) return mkExtract(a->a,lo-bw,w);
		return mkConcat(mkExtract(a->a,0,lo+w-bw), mkExtract(a->b,lo,bw-lo)); }
	case EZExt: { unsigned n=a->a->w; if (lo+w<=n) return mkExtract(a->a,lo,w); if (lo>=n) return mkConst(0,w);
		return mkZExt(mkExtract(a->a,lo,n-lo),w); }
	case ESExt: { unsigned n=a->a->w; if (lo+w<=n) return mkExtract(a->a,lo,w); if (lo<n) return mkSExt(mkExtract(a->a,lo,n-lo),w); return mkSExt(mkExtract(a->a,n-1,1),w); }
	case EIte: if (isC(a->b)||isC(a->d)||a->b->k==EIte||a->d->k==EIte) return mkIte(a->a,mkExtract(a->b,lo,w),mkExtract(a->d,lo,w)); break;
	case EAnd: case EOr: case EXor: if (isC(a->b)) return mkBin(a->k,mkExtract(a->a,lo,w),mkExtract(a->b,lo,w)); break;
	case EAdd: if (lo==0 && w<a->w) return mkBin(a->k,mkExtract(a->a,0,w),mkExtract(a->b,0,w)); break;
	default: break;
	}
	return mkRaw(EExtract,w,lo,a,0,0);
}
E mkConcat(E hi, E lo)
{
	unsigned w=hi->w+lo->w;
	if (isC(hi)&&isC(lo)) return mkConst((hi->c<<lo->w)|lo->c,w);
	if (isC(hi,0)) return mkZExt(lo,w);
	if (hi->k==EExtract && lo->k==EExtract && hi->a==lo->a && hi->c==lo->c+lo->w) return mkExtract(hi->a,lo->c,w);
	if (hi->k==EExtract && hi->a==lo && hi->c==lo->w) return mkExtract(lo,0,w); // cannot happen (width)
	if (hi->k==EConcat) { // right assoc normalise: concat(concat(a,b),lo) -> concat(a,concat(b,lo)) when b,lo merge
		E m = hi->b;
		if ((isC(m)&&isC(lo)) || (m->k==EExtract&&lo->k==EExtract&&m->a==lo->a&&m->c==lo->c+lo->w)) return mkConcat(hi->a,mkConcat(m,lo));
	}
	if (lo->k==EConcat) { E m=lo->a;
		if ((isC(m)&&isC(hi)) || (m->k==EExtract&&hi->k==EExtract&&m->a==hi->a&&hi->c==m->c+m->w)) return mkConcat(mkConcat(hi,m),lo->b);
	}
	// ite pairs with the same condition
	if (hi->k==EIte && lo->k==EIte && hi->a==lo->a && isC(hi->b)&&isC(lo->b)) return mkIte(hi->a, mkConcat(hi->b,lo->b), mkConcat(hi->d,lo->d));
	if (hi->k==EIte && lo->k==EIte && hi->a==lo->a && isC(hi->d)&&isC(lo->d)) return mkIte(hi->a, mkConcat(hi->b,lo->b), mkConcat(hi->d,lo->d));
	return mkRaw(EConcat,w,0,hi,lo,0);
}
E mkZExt(E a, unsigned w)
{
	if (a->w==w) return a;
	if (isC(a)) return mkConst(a->c,w);
	if (a->k==EZExt) return mkZExt(a->a,w);
	if (a->k==EIte && isC(a->b) && isC(a->d)) return mkIte(a->a,mkConst(a->b->c,w),mkConst(a->d->c,w));
	return mkRaw(EZExt,w,0,a,0,0);
}
E mkSExt(E a, unsigned w)
{
	if (a->w==w) return a;
	if (isC(a)) return mkConst((uint64_t)sx(a->c,a->w),w);
	if (a->k==EZExt) return mkZExt(a->a,w);
	if (a->k==ESExt) return mkSExt(a->a,w);
	if (a->k==EIte && isC(a->b) && isC(a->d)) return mkIte(a->a,mkSExt(a->b,w),mkSExt(a->d,w));
	return mkRaw(ESExt,w,0,a,0,0);
}
E mkFUn(EK k, E a, unsigned w)
{
	if (isC(a)) return mkConst(foldOp(k,w,a->w,a->c,0,0,0),w);
	if ((k==EFFloor||k==EFCeil||k==EFTrunc) && (a->k==ESIToFP||a->k==EUIToFP||a->k==EFFloor||a->k==EFCeil||a->k==EFTrunc)) return a;
	if (k==EFPToSI && exactInt(a) && (a->k==ESIToFP ? a->a->w<=w : a->a->w<w)) return a->k==ESIToFP ? mkSExt(a->a,w) : mkZExt(a->a,w);
	return mkRaw(k,w,0,a,0,0);
}

static uint64_t g_epoch = 0;
static uint64_t evalRec(E e, const Model& m)
{
	if (e->k==EConst) return e->c;
	if (e->evEpoch==g_epoch) return e->evVal;
	uint64_t r;
	switch (e->k) {
	case EVar: r = e->c < m.size() ? m[e->c] & maskw(e->w) : 0; break;
	case EIte: r = evalRec(e->a,m)? evalRec(e->b,m) : evalRec(e->d,m); break;
	case EConcat: r = (evalRec(e->a,m) << e->b->w) | evalRec(e->b,m); break;
	default: {
		uint64_t a=evalRec(e->a,m), b=e->b?evalRec(e->b,m):0;
		r = foldOp(e->k,e->w,e->a->w,a,b,0,e->c); }
	}
	e->evEpoch=g_epoch; e->evVal=r;
	return r;
}
uint64_t evalExpr(E e, const Model& m) { ++g_epoch; return evalRec(e,m); }

std::string exprStr(E e, int depth)
{
	static const char* nm[] = {"c","v","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","extract","concat","zext","sext","fadd","fsub","fmul","fdiv","frem","foeq","folt","fole","funo","fpext","fptrunc","sitofp","uitofp","fptosi","fptoui"};
	if (e->k==EConst) return std::to_string(sx(e->c,e->w));
	if (e->k==EVar) return g_varNames[e->c];
	if (!depth) return "..";
	std::string s = std::string("(")+nm[e->k]; if (e->k==EExtract) s += ":"+std::to_string(e->c)+"+"+std::to_string(e->w);
	for (E x : {e->a,e->b,e->d}) if (x) s += " "+exprStr(x,depth-1);
	return s+")";
}

// ---------------------------------------------------------------- Z3
static Z3_context C = 0;
static Z3_sort s_f32, s_f64; static Z3_ast rne, rtz;
static Z3_solver g_bvSolver=0, g_fpSolver=0;
static Z3_params g_params=0;
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr,"Z3 error: %s\n", Z3_get_error_msg(c,e)); _exit(3); }
static void z3init()
{
	if (C) return;
	Z3_config cfg = Z3_mk_config();
	C = Z3_mk_context(cfg); Z3_del_config(cfg);
	Z3_set_error_handler(C,z3err);
	s_f32 = Z3_mk_fpa_sort_32(C); s_f64=Z3_mk_fpa_sort_64(C); rne=Z3_mk_fpa_rne(C); rtz=Z3_mk_fpa_rtz(C);
	Z3_inc_ref(C,Z3_sort_to_ast(C,s_f32)); Z3_inc_ref(C,Z3_sort_to_ast(C,s_f64)); Z3_inc_ref(C,rne); Z3_inc_ref(C,rtz);
}
static Z3_ast toBV(E e);
static Z3_ast toFP(E e)
{
	if (e->z3f) return e->z3f;
	Z3_ast r=0;
	Z3_sort s = e->w==32?s_f32:s_f64;
	switch (e->k) {
	case EFAdd: r=Z3_mk_fpa_add(C,rne,toFP(e->a),toFP(e->b)); break;
	case EFSub: r=Z3_mk_fpa_sub(C,rne,toFP(e->a),toFP(e->b)); break;
	case EFMul: r=Z3_mk_fpa_mul(C,rne,toFP(e->a),toFP(e->b)); break;
	case EFDiv: r=Z3_mk_fpa_div(C,rne,toFP(e->a),toFP(e->b)); break;
	case EFPExt: case EFPTrunc: r=Z3_mk_fpa_to_fp_float(C,rne,toFP(e->a),s); break;
	case EFFloor: r=Z3_mk_fpa_round_to_integral(C,Z3_mk_fpa_rtn(C),toFP(e->a)); break;
	case EFCeil: r=Z3_mk_fpa_round_to_integral(C,Z3_mk_fpa_rtp(C),toFP(e->a)); break;
	case EFTrunc: r=Z3_mk_fpa_round_to_integral(C,rtz,toFP(e->a)); break;
	case ESIToFP: r=Z3_mk_fpa_to_fp_signed(C,rne,toBV(e->a),s); break;
	case EUIToFP: r=Z3_mk_fpa_to_fp_unsigned(C,rne,toBV(e->a),s); break;
	case EIte: r=Z3_mk_ite(C,toBV(e->a),toFP(e->b),toFP(e->d)); break;
	default: r=Z3_mk_fpa_to_fp_bv(C,toBV(e),s); break;
	}
	Z3_inc_ref(C,r); e->z3f=r; return r;
}
static Z3_ast b2bv(Z3_ast b)
{
	// boolean stays boolean: width-1 expressions are lowered to Bool sort
	return b;
}
static Z3_ast bv1(E e) // width-1 as BV1
{
	Z3_ast t=toBV(e);
	Z3_sort s1=Z3_mk_bv_sort(C,1);
	return Z3_mk_ite(C,t,Z3_mk_unsigned_int64(C,1,s1),Z3_mk_unsigned_int64(C,0,s1));
}
static Z3_ast asBV(E e) { return e->w==1 ? bv1(e) : toBV(e); }
static Z3_ast toBoolFromBV1(Z3_ast a) { Z3_sort s1=Z3_mk_bv_sort(C,1); return Z3_mk_eq(C,a,Z3_mk_unsigned_int64(C,1,s1)); }
static Z3_ast toBV(E e)
{
	if (e->z3) return e->z3;
	Z3_ast r=0; bool isb = e->w==1;
	switch (e->k) {
	case EConst: r = isb ? (e->c?Z3_mk_true(C):Z3_mk_false(C)) : Z3_mk_unsigned_int64(C,e->c,Z3_mk_bv_sort(C,e->w)); break;
	case EVar: { char nm[32]; snprintf(nm,sizeof nm,"v%u_%u",(unsigned)e->c,(unsigned)e->w); Z3_symbol sy=Z3_mk_string_symbol(C,nm);
		r = Z3_mk_const(C,sy,isb?Z3_mk_bool_sort(C):Z3_mk_bv_sort(C,e->w)); break; }
	case EAdd: r=Z3_mk_bvadd(C,toBV(e->a),toBV(e->b)); break;
	case ESub: r= isb? Z3_mk_xor(C,toBV(e->a),toBV(e->b)) : Z3_mk_bvsub(C,toBV(e->a),toBV(e->b)); break;
	case EMul: if (isb) { Z3_ast t[2]={toBV(e->a),toBV(e->b)}; r=Z3_mk_and(C,2,t);} else r=Z3_mk_bvmul(C,toBV(e->a),toBV(e->b)); break;
	case EUDiv: r=Z3_mk_bvudiv(C,toBV(e->a),toBV(e->b)); break;
	case ESDiv: r=Z3_mk_bvsdiv(C,toBV(e->a),toBV(e->b)); break;
	case EURem: r=Z3_mk_bvurem(C,toBV(e->a),toBV(e->b)); break;
	case ESRem: r=Z3_mk_bvsrem(C,toBV(e->a),toBV(e->b)); break;
	case EAnd: if (isb) { Z3_ast t[2]={toBV(e->a),toBV(e->b)}; r=Z3_mk_and(C,2,t);} else r=Z3_mk_bvand(C,toBV(e->a),toBV(e->b)); break;
	case EOr: if (isb) { Z3_ast t[2]={toBV(e->a),toBV(e->b)}; r=Z3_mk_or(C,2,t);} else r=Z3_mk_bvor(C,toBV(e->a),toBV(e->b)); break;
	case EXor: if (isb) { if (e->b==g_true) r=Z3_mk_not(C,toBV(e->a)); else r=Z3_mk_xor(C,toBV(e->a),toBV(e->b)); } else r=Z3_mk_bvxor(C,toBV(e->a),toBV(e->b)); break;
	case EShl: r=Z3_mk_bvshl(C,toBV(e->a),toBV(e->b)); break;
	case ELShr: r=Z3_mk_bvlshr(C,toBV(e->a),toBV(e->b)); break;
	case EAShr: r=Z3_mk_bvashr(C,toBV(e->a),toBV(e->b)); break;
	case EEq: r=Z3_mk_eq(C,toBV(e->a),toBV(e->b)); break;
	case EUlt: r=Z3_mk_bvult(C,asBV(e->a),asBV(e->b)); break;
	case EUle: r=Z3_mk_bvule(C,asBV(e->a),asBV(e->b)); break;
	case ESlt: r=Z3_mk_bvslt(C,asBV(e->a),asBV(e->b)); break;
	case ESle: r=Z3_mk_bvsle(C,asBV(e->a),asBV(e->b)); break;
	case EIte: r=Z3_mk_ite(C,toBV(e->a),toBV(e->b),toBV(e->d)); break;
	case EExtract: r=Z3_mk_extract(C,(unsigned)e->c+e->w-1,(unsigned)e->c,asBV(e->a)); if (isb) r=toBoolFromBV1(r); break;
	case EConcat: r=Z3_mk_concat(C,asBV(e->a),asBV(e->b)); break;
	case EZExt: r=Z3_mk_zero_ext(C,e->w-e->a->w,asBV(e->a)); break;
	case ESExt: r=Z3_mk_sign_ext(C,e->w-e->a->w,asBV(e->a)); break;
	case EFOeq: r=Z3_mk_fpa_eq(C,toFP(e->a),toFP(e->b)); break;
	case EFOlt: r=Z3_mk_fpa_lt(C,toFP(e->a),toFP(e->b)); break;
	case EFOle: r=Z3_mk_fpa_leq(C,toFP(e->a),toFP(e->b)); break;
	case EFUno: { Z3_ast t[2]={Z3_mk_fpa_is_nan(C,toFP(e->a)),Z3_mk_fpa_is_nan(C,toFP(e->b))}; r=Z3_mk_or(C,2,t); break; }
	case EFPToSI: {
		Z3_sort fs = e->a->w==32?s_f32:s_f64; double lim = ldexp(1.0,(int)e->w-1); Z3_ast x=toFP(e->a), tx=Z3_mk_fpa_round_to_integral(C,rtz,x);
		Z3_ast in[2]={Z3_mk_fpa_geq(C,tx,Z3_mk_fpa_numeral_double(C,-lim,fs)),Z3_mk_fpa_lt(C,tx,Z3_mk_fpa_numeral_double(C,lim,fs))};
		r=Z3_mk_ite(C,Z3_mk_and(C,2,in),Z3_mk_fpa_to_sbv(C,rtz,x,e->w),toBV(mkConst(1ull<<(e->w-1),e->w))); break; }
	case EFPToUI: r=Z3_mk_fpa_to_ubv(C,rtz,toFP(e->a),e->w); break;
	case EFAdd: case EFSub: case EFMul: case EFDiv: case EFPExt: case EFPTrunc: case ESIToFP: case EUIToFP: case EFFloor: case EFCeil: case EFTrunc:
		r=Z3_mk_ite(C,Z3_mk_fpa_is_nan(C,toFP(e)),toBV(mkConst(canon(e->w,e->w==32?0x7fc00000u:0x7ff8000000000000ull),e->w)),Z3_mk_fpa_to_ieee_bv(C,toFP(e))); break;
	default: fprintf(stderr,"toBV: unsupported op %d\n",e->k); _exit(3);
	}
	r=b2bv(r);
	Z3_inc_ref(C,r); e->z3=r; return r;
}


// ---- integer (difference logic) lowering of queries that consist of comparisons only
static std::unordered_map<E,Z3_ast> g_int; static std::vector<E> g_intVars; static Z3_solver g_liaSolver=0;
static Z3_ast iNum(int64_t v) { return Z3_mk_int64(C,v,Z3_mk_int_sort(C)); }
static bool liLeaf(E e) { return e->k==EConst||e->k==EVar; }
static Z3_ast toInt(E e)	// null if not expressible
{
	auto it=g_int.find(e); if (it!=g_int.end()) return it->second;
	Z3_ast r=0; Z3_sort I=Z3_mk_int_sort(C);
	if (e->w==1) {
		switch (e->k) {
		case EConst: r=e->c?Z3_mk_true(C):Z3_mk_false(C); break;
		case EVar: { char nm[32]; snprintf(nm,sizeof nm,"b%u",(unsigned)e->c); r=Z3_mk_const(C,Z3_mk_string_symbol(C,nm),Z3_mk_bool_sort(C)); g_intVars.push_back(e); break; }
		case EAnd: case EOr: { Z3_ast t[2]={toInt(e->a),toInt(e->b)}; if (t[0]&&t[1]) r=e->k==EAnd?Z3_mk_and(C,2,t):Z3_mk_or(C,2,t); break; }
		case EXor: { Z3_ast x=toInt(e->a); if (x) { if (e->b==g_true) r=Z3_mk_not(C,x); else { Z3_ast y=toInt(e->b); if (y) r=Z3_mk_xor(C,x,y); } } break; }
		case EIte: { Z3_ast c=toInt(e->a),x=toInt(e->b),y=toInt(e->d); if (c&&x&&y) r=Z3_mk_ite(C,c,x,y); break; }
		case EEq: { Z3_ast x=toInt(e->a),y=toInt(e->b); if (x&&y) r=Z3_mk_eq(C,x,y); break; }
		case ESlt: case ESle: if (e->a->w>1) { Z3_ast x=toInt(e->a),y=toInt(e->b); if (x&&y) r=e->k==ESlt?Z3_mk_lt(C,x,y):Z3_mk_le(C,x,y); } break;
		case EUlt: case EUle: if (e->a->w>1) { Z3_ast x=toInt(e->a),y=toInt(e->b); if (x&&y) {
			Z3_ast z=iNum(0), nx=Z3_mk_lt(C,x,z), ny=Z3_mk_lt(C,y,z), lt=e->k==EUlt?Z3_mk_lt(C,x,y):Z3_mk_le(C,x,y);
			r=Z3_mk_ite(C,Z3_mk_eq(C,nx,ny),lt,ny); } } break;
		default: break;
		}
	} else if (e->w<=64) {
		switch (e->k) {
		case EConst: r=iNum(sx(e->c,e->w)); break;
		case EVar: { char nm[32]; snprintf(nm,sizeof nm,"i%u",(unsigned)e->c); r=Z3_mk_const(C,Z3_mk_string_symbol(C,nm),I); g_intVars.push_back(e); break; }
		case EIte: { Z3_ast c=toInt(e->a),x=toInt(e->b),y=toInt(e->d); if (c&&x&&y) r=Z3_mk_ite(C,c,x,y); break; }
		case ESExt: if (e->a->w>1) r=toInt(e->a); break;
		case EConcat: if (isC(e->b,0) && e->a->w>1) { Z3_ast x=toInt(e->a); if (x && e->b->w<62) { Z3_ast t[2]={x,iNum((int64_t)1<<e->b->w)}; r=Z3_mk_mul(C,2,t); } } break;
		case EZExt: if (e->a->w>1 && e->a->w<63) { Z3_ast x=toInt(e->a); if (x) { Z3_ast t[2]={x,iNum((int64_t)1<<e->a->w)}; r=Z3_mk_ite(C,Z3_mk_lt(C,x,iNum(0)),Z3_mk_add(C,2,t),x); } } break;
		default: break;
		}
	}
	if (r) Z3_inc_ref(C,r);
	g_int[e]=r; return r;
}

SatRes solveConj(const std::vector<E>& cs, Model& model, unsigned timeout_ms)
{
	z3init();
	bool fp=false; Bits256 vs;
	for (E e : cs) { fp |= e->fp; vs |= e->vars; }
	auto t0 = std::chrono::steady_clock::now();
	Z3_solver& S = fp ? g_fpSolver : g_bvSolver;
	if (!S) {
		S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, fp?"QF_FPBV":"QF_BV"));
		Z3_solver_inc_ref(C,S);
	}
	if (!g_params) { g_params=Z3_mk_params(C); Z3_params_inc_ref(C,g_params); }
	Z3_lbool r; Z3_solver used=S;
	static int mode=-1; if (mode<0) { const char* m=getenv("SX_SOLVER"); mode=m?atoi(m):2; }
	bool li = !fp && mode>=1; bool wide=false;
	if (li) { for (unsigned i=0;i<g_vars.size();++i) if (vs.test(i) && g_varWidth[i]>8) { wide=true; break; } if (!wide && mode<2) li=false; }
	if (li) for (E e : cs) if (!toInt(e)) { li=false; break; }
	if (li) {
		static std::unordered_map<E,Z3_ast> lits; static unsigned serial=0, lastTimeout=0; static size_t nb=0; static Z3_params lp=0;
		if (!g_liaSolver) { g_liaSolver=Z3_mk_simple_solver(C); Z3_solver_inc_ref(C,g_liaSolver); lp=Z3_mk_params(C); Z3_params_inc_ref(C,lp); }
		if (lits.size()>1500) { Z3_solver_reset(C,g_liaSolver); lits.clear(); lastTimeout=0; nb=0; }
		if (timeout_ms!=lastTimeout) { Z3_params_set_uint(C,lp,Z3_mk_string_symbol(C,"timeout"),timeout_ms); Z3_solver_set_params(C,g_liaSolver,lp); lastTimeout=timeout_ms; }
		for (;nb<g_intVars.size();++nb) { E v=g_intVars[nb]; if (v->w>1) { Z3_ast x=toInt(v); int64_t lo=v->w>=64?INT64_MIN:-((int64_t)1<<(v->w-1)), hi=v->w>=64?INT64_MAX:((int64_t)1<<(v->w-1))-1; Z3_solver_assert(C,g_liaSolver,Z3_mk_le(C,iNum(lo),x)); Z3_solver_assert(C,g_liaSolver,Z3_mk_le(C,x,iNum(hi))); } }
		std::vector<Z3_ast> as;
		for (E e : cs) {
			Z3_ast& l=lits[e];
			if (!l) { char nm[32]; snprintf(nm,sizeof nm,"l%u",serial++); l=Z3_mk_const(C,Z3_mk_string_symbol(C,nm),Z3_mk_bool_sort(C)); Z3_solver_assert(C,g_liaSolver,Z3_mk_implies(C,l,toInt(e))); }
			as.push_back(l);
		}
		r = Z3_solver_check_assumptions(C,g_liaSolver,as.size(),as.data());
		if (r==Z3_L_UNDEF) li=false;
	}
	if (li) {} else if (fp || mode==0) {
		Z3_solver_reset(C,S);
		Z3_params_set_uint(C,g_params,Z3_mk_string_symbol(C,"timeout"),timeout_ms);
		Z3_solver_set_params(C,S,g_params);
		for (E e : cs) Z3_solver_assert(C,S,toBV(e));
		r = Z3_solver_check(C,S);
	} else {
		// incremental: each constraint is attached once to an assumption literal
		static std::unordered_map<E,Z3_ast> lits; static unsigned serial=0, lastTimeout=0;
		if (lits.size()>1500) { Z3_solver_reset(C,S); lits.clear(); lastTimeout=0; }
		unsigned first=timeout_ms>12000?12000:timeout_ms;
		if (first!=lastTimeout) { Z3_params_set_uint(C,g_params,Z3_mk_string_symbol(C,"timeout"),first); Z3_solver_set_params(C,S,g_params); lastTimeout=first; }
		std::vector<Z3_ast> as;
		for (E e : cs) {
			Z3_ast& l=lits[e];
			if (!l) { char nm[32]; snprintf(nm,sizeof nm,"a%u",serial++); l=Z3_mk_const(C,Z3_mk_string_symbol(C,nm),Z3_mk_bool_sort(C)); Z3_solver_assert(C,S,Z3_mk_implies(C,l,toBV(e))); }
			as.push_back(l);
		}
		r = Z3_solver_check_assumptions(C,S,as.size(),as.data());
		if (r==Z3_L_UNDEF) {	// once more from scratch, with preprocessing
			static Z3_solver fresh=0; static Z3_params fp_=0;
			if (!fresh) { fresh=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_BV")); Z3_solver_inc_ref(C,fresh); fp_=Z3_mk_params(C); Z3_params_inc_ref(C,fp_); }
			Z3_solver_reset(C,fresh); Z3_params_set_uint(C,fp_,Z3_mk_string_symbol(C,"timeout"),timeout_ms*2); Z3_solver_set_params(C,fresh,fp_);
			for (E e : cs) Z3_solver_assert(C,fresh,toBV(e));
			r = Z3_solver_check(C,fresh); used=fresh;
		}
	}
	double dt = std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
	g_sst.queries++; g_sst.time += dt; if (dt>g_sst.maxTime) g_sst.maxTime=dt;
	static int dumpSlow=-1; if (dumpSlow<0) dumpSlow=getenv("SX_SLOW")?1:0;
	if (dumpSlow && dt>0.5) { fprintf(stderr,"slow query %.2fs mode %s result %d\n",dt,li?"int":fp?"fp":"bv",(int)r); for (E e : cs) fprintf(stderr,"   %s\n",exprStr(e,8).c_str()); }
	if (r==Z3_L_FALSE) { g_sst.unsat++; return SatNo; }
	if (r==Z3_L_UNDEF) { g_sst.unknown++; return SatUnknown; }
	g_sst.sat++;
	Z3_model md = Z3_solver_get_model(C,li?g_liaSolver:used); Z3_model_inc_ref(C,md);
	if (model.size() < g_vars.size()) model.resize(g_vars.size(),0);
	for (unsigned i=0;i<g_vars.size();++i) {
		if (!vs.test(i)) continue;
		Z3_ast v=0;
		if (li) {
			auto it=g_int.find(g_vars[i]); if (it==g_int.end()||!it->second) continue;
			if (Z3_model_eval(C,md,it->second,true,&v)) { Z3_inc_ref(C,v); int64_t x=0; if (g_varWidth[i]==1) x = Z3_get_bool_value(C,v)==Z3_L_TRUE; else Z3_get_numeral_int64(C,v,&x); Z3_dec_ref(C,v); model[i]=(uint64_t)x & maskw(g_varWidth[i]); }
			continue;
		}
		if (!g_vars[i]->z3) continue;
		if (Z3_model_eval(C,md,g_vars[i]->z3,true,&v)) {
			Z3_inc_ref(C,v);
			uint64_t x=0;
			if (g_varWidth[i]==1) x = Z3_get_bool_value(C,v)==Z3_L_TRUE; else Z3_get_numeral_uint64(C,v,&x);
			Z3_dec_ref(C,v);
			model[i]=x;
		}
	}
	Z3_model_dec_ref(C,md);
	// cross-check the model by evaluation (guards against a lowering error)
	for (E e : cs) if (!evalExpr(e,model)) {
		fprintf(stderr,"engine: solver model does not satisfy constraint %s\n", exprStr(e).c_str()); _exit(3);
	}
	return SatYes;
}
