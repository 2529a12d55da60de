// Hash-consed bit-vector / IEEE float expression DAG with constant folding, and its lowering to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <z3.h>
#include <unistd.h>

enum EK : uint8_t {
	EConst, EVar, EAdd, ESub, EMul, EUDiv, ESDiv, EURem, ESRem, EAnd, EOr, EXor, EShl, ELShr, EAShr,
	EEq, EUlt, EUle, ESlt, ESle, EIte, EExtract, EConcat, EZExt, ESExt,
	EFAdd, EFSub, EFMul, EFDiv, EFRem, EFOeq, EFOlt, EFOle, EFUno, EFPExt, EFPTrunc, ESIToFP, EUIToFP, EFPToSI, EFPToUI, EFFloor, EFCeil, EFTrunc
};

struct Bits256 {
	uint64_t w[4] = {0,0,0,0};
	void set(unsigned i) { i &= 255; w[i>>6] |= 1ull << (i&63);} 
	bool test(unsigned i) const { i &= 255; return (w[i>>6] >> (i&63)) & 1; }
	bool any() const { return w[0]|w[1]|w[2]|w[3]; }
	bool intersects(const Bits256& o) const { return (w[0]&o.w[0])|(w[1]&o.w[1])|(w[2]&o.w[2])|(w[3]&o.w[3]); }
	void operator|=(const Bits256& o) { for (int i=0;i<4;++i) w[i]|=o.w[i]; }
	bool subsetOf(const Bits256& o) const { for (int i=0;i<4;++i) if (w[i]&~o.w[i]) return false; return true; }
	bool operator==(const Bits256& o) const { return !memcmp(w,o.w,sizeof w); }
};

struct Expr {
	EK k; uint8_t w; bool fp; uint32_t id; uint64_t c; const Expr *a,*b,*d; Bits256 vars;
	mutable uint64_t evEpoch, evVal;
	mutable Z3_ast z3; mutable Z3_ast z3f;
};
typedef const Expr* E;

static inline uint64_t maskw(unsigned w) { return w>=64 ? ~0ull : ((1ull<<w)-1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); v&=maskw(w); return (int64_t)((v^m)-m); }
static inline float asF(uint64_t v){ uint32_t u=(uint32_t)v; float f; memcpy(&f,&u,4); return f; }
static inline double asD(uint64_t v){ double f; memcpy(&f,&v,8); return f; }
static inline uint64_t fromF(float f){ uint32_t u; memcpy(&u,&f,4); return u; }
static inline uint64_t fromD(double f){ uint64_t u; memcpy(&u,&f,8); return u; }

uint64_t foldOp(EK k, unsigned w, unsigned aw, uint64_t a, uint64_t b, uint64_t d, uint64_t c);
E mkConst(uint64_t v, unsigned w);
E mkVar(const std::string& name, unsigned w);
E mkBin(EK k, E a, E b);
E mkCmp(EK k, E a, E b);
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkFUn(EK k, E a, unsigned w);
static inline E mkNot(E a);
extern E g_true, g_false;
extern std::vector<std::string> g_varNames;
extern std::vector<unsigned> g_varWidth;

typedef std::vector<uint64_t> Model;   // by var index
uint64_t evalExpr(E e, const Model& m);

struct SolverStats { uint64_t queries=0, sat=0, unsat=0, unknown=0, cacheHits=0, modelHits=0; double time=0, maxTime=0; };
extern SolverStats g_sst;
// decide satisfiability of the conjunction; on sat fills model entries of the variables involved
enum SatRes { SatNo, SatYes, SatUnknown };
SatRes solveConj(const std::vector<E>& cs, Model& model, unsigned timeout_ms);
void exprInit();
size_t exprCount();
std::string exprStr(E e, int depth=6);
static inline E mkNot(E a) { return mkBin(EXor, a, g_true); }
