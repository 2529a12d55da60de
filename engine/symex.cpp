// symex: a symbolic executor for LLVM IR (clang++ output of the real sources plus a harness).
// Inputs become symbolic bit-vectors, every branch and every assertion is decided by the SMT solver (Z3)
// over all values admitted by the path condition; memory is an object model with bounds/lifetime checks.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <memory>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <atomic>
using namespace llvm;

// ------------------------------------------------------------------ options
static double optMaxTime = 800; static uint64_t optMaxSteps = 20000000; static int optJobs = 1; static unsigned optSolverTimeout = 60000;
static std::string optEntry, optOut; static std::vector<long> optArgs; static std::string optRepo = "/repo"; static bool optVerbose=false; static int optMaxViol=4;
static uint64_t g_merges=0;
static uint64_t optMaxPaths = ~0ull; static uint64_t optMaxConc = 4096; static size_t optMaxStack = 4000;
static bool optProfile=false; static bool optTrace=false;
static std::chrono::steady_clock::time_point g_t0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now()-g_t0).count(); }

struct Val { uint64_t c=0; E e=nullptr; Val(){} explicit Val(uint64_t v):c(v){} explicit Val(E x) { if (x->k==EConst) c=x->c; else e=x; } };
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c,w); }

// ------------------------------------------------------------------ memory
enum ObjKind : uint8_t { OHeap, OStack, OGlobal, OFunc };
enum AllocKind : uint8_t { AMalloc, ANew, ANewArr, ANone };
struct Obj {
	uint32_t size; ObjKind kind; AllocKind ak; bool ro; bool freed; const char* name;
	uint8_t* b; E* s; // s: symbolic bytes or null
	uint32_t alias=0, pages=0, large=0; // large objects: distance to the slot of the head, first page (0: none), total size
	Obj(uint32_t sz, ObjKind k, AllocKind a, int fill) : size(sz),kind(k),ak(a),ro(false),freed(false),name(""),s(nullptr) { b=(uint8_t*)malloc(sz?sz:1); memset(b,fill,sz); }
	Obj(const Obj& o) : size(o.size),kind(o.kind),ak(o.ak),ro(o.ro),freed(o.freed),name(o.name),s(nullptr),alias(o.alias),pages(o.pages),large(o.large) {
		b=(uint8_t*)malloc(size?size:1); memcpy(b,o.b,size);
		if (o.s) { s=(E*)malloc(sizeof(E)*(size?size:1)); memcpy(s,o.s,sizeof(E)*size); } }
	~Obj() { free(b); free(s); }
	void needSym() { if (!s) s=(E*)calloc(size?size:1,sizeof(E)); }
};
typedef std::shared_ptr<Obj> ObjP;
struct Chunk { ObjP o[64]; };
typedef std::shared_ptr<Chunk> ChunkP;
static const uint64_t BASEOFS=0x1000, STACKBIT=1ull<<46; static const unsigned SLOT=24; static const uint32_t PAGE=1<<14;
struct Space {
	std::vector<ChunkP> ch; uint32_t n=0;
	const ObjP& get(uint32_t i) const { static ObjP none; if (i>=n) return none; return ch[i>>6]->o[i&63]; }
	Obj* wr(uint32_t i) { ChunkP& c=ch[i>>6]; if (c.use_count()>1) c=std::make_shared<Chunk>(*c); ObjP& o=c->o[i&63]; if (o.use_count()>1) o=std::make_shared<Obj>(*o); return o.get(); }
	void put(uint32_t i, ObjP p) { while ((i>>6)>=ch.size()) ch.push_back(std::make_shared<Chunk>()); ChunkP& c=ch[i>>6]; if (c.use_count()>1) c=std::make_shared<Chunk>(*c); c->o[i&63]=p; if (i>=n) n=i+1; }
};

// ------------------------------------------------------------------ decoded code
struct Opnd { int32_t reg=-1; uint16_t n=1; uint64_t c=0; const std::vector<uint64_t>* agg=nullptr; };
enum DK : uint8_t { DBin, DCmp, DFNeg, DSelect, DCast, DLoad, DStore, DAlloca, DGep, DBr, DCondBr, DSwitch, DRet, DCall, DInvoke, DUnreach, DLandingPad, DResume, DExtract, DInsert, DFreeze, DNop, DIntr, DAsmBsr, DBad, DAtomicRMW, DCmpXchg, DShuffle, DExtElt, DInsElt };
struct Fn;
struct GepT { Opnd o; unsigned w; int64_t scale; };
struct Edge { int target=-1; std::vector<std::pair<int,Opnd>> phis; };
struct Leaf { uint32_t ofs; uint16_t w; };
struct DI {
	DK k; uint8_t op=0; uint16_t w=0, w2=0; int dst=-1; uint16_t nd=1; // width of result / operand; dst register, number of leaves
	Opnd a,b,d; std::vector<Opnd> ops; std::vector<uint16_t> opw; std::vector<GepT> gep; std::vector<Leaf> leaves;
	int64_t imm=0; Edge e1,e2; std::vector<std::pair<uint64_t,Edge>> cases;
	Function* callee=nullptr; Fn* fn=nullptr; int native=-1; const Instruction* inst=nullptr; uint32_t gid=0; uint32_t loc=0; bool isSigned=false; bool isPtr=false;
	std::vector<std::pair<int,uint64_t>> clauses; bool cleanup=false; std::vector<uint32_t> byval; // landing pad: kind 0 catch,1 filter
	std::vector<std::vector<uint64_t>> filters; FunctionType* fty=nullptr;
};
struct Fn { Function* f; bool decoded=false; bool inRepo=false; std::vector<DI> code; std::vector<int> blockStart; int nregs=0; std::vector<std::pair<int,uint16_t>> args; std::vector<uint16_t> argLeaves; bool vararg=false; std::string name; bool executed=false; uint64_t calls=0, steps=0, forks=0; };

struct Frame { Fn* fn; int pc; std::vector<Val> r; uint32_t stackMark; std::vector<std::pair<Val,unsigned>> va; bool tryMark=false; uint32_t caughtMark=0; };
typedef std::shared_ptr<Frame> FrameP;
struct Exc { uint64_t obj, tinfo; };
struct SymRec { std::string name; unsigned nbytes; std::vector<E> vars; };
struct State {
	std::vector<FrameP> st; Space heap, stk; std::vector<E> pc; Model model; std::vector<std::pair<E,uint64_t>> fixed; Bits256 fixedMask;
	std::vector<SymRec> syms; std::map<std::string,int> symCount; std::vector<Exc> live, caught; uint64_t steps=0; unsigned depth=0; uint64_t concCount=0;
	std::set<std::string> reached; std::string note; uint64_t lastSrc=0;
};
typedef std::unique_ptr<State> StateP;

static LLVMContext* g_ctx; static Module* M; static const DataLayout* DL;
static std::unordered_map<const Function*,Fn*> g_fns; static std::unordered_map<const GlobalValue*,uint64_t> g_gaddr; static std::unordered_map<uint64_t,Function*> g_faddr;
static std::vector<std::pair<std::string,unsigned>> g_locs(1); static std::map<std::pair<std::string,unsigned>,uint32_t> g_locIdx; static std::vector<uint8_t> g_locHit(1), g_locRepo(1);
static std::deque<StateP> g_work;
static std::map<std::string,uint64_t> g_reach, g_stats; static uint64_t g_paths=0, g_instrs=0, g_forks=0, g_asserts=0, g_assertQ=0, g_errors=0, g_assumeDrop=0;
static std::vector<std::string> g_errmsgs; static std::vector<std::string> g_samples; static std::set<std::string> g_declared;
struct Violation { std::string kind,msg,loc; std::vector<std::pair<std::string,std::string>> vars; };
static std::vector<Violation> g_viol; static std::set<std::string> g_violSeen;
static bool g_incomplete=false; static std::string g_incompleteWhy;

struct PathEnd {}; // thrown (C++-level) is disabled (-fno-exceptions): use flag
static bool g_end=false; static bool g_restart=false;

static void engineError(State& s, const std::string& m);
static std::string where(State& s)
{
	std::string r; int n=0;
	for (int i=(int)s.st.size()-1;i>=0&&n<12;--i) {
		Frame& f=*s.st[i]; if (f.pc<0||f.pc>=(int)f.fn->code.size()) continue;
		const DI& d=f.fn->code[f.pc]; const auto& l=g_locs[d.loc];
		std::string file=l.first; size_t p=file.rfind('/'); if (p!=std::string::npos) file=file.substr(p+1);
		if (n++) r += " < "; 
		std::string dn=demangle(f.fn->name); size_t q=dn.find('('); if (q!=std::string::npos) dn=dn.substr(0,q); if (dn.size()>60) dn=dn.substr(0,60);
		r += dn+"@"+file+":"+std::to_string(l.second);
	}
	return r;
}
static std::string hexBytes(const SymRec& sr, const Model& m)
{
	std::string r; char b[4];
	for (E v : sr.vars) { uint64_t x=evalExpr(v,m); for (unsigned i=0;i<(v->w+7u)/8;++i) { snprintf(b,sizeof b,"%02x",(unsigned)((x>>(8*i))&0xff)); r+=b; } }
	return r;
}
static void report(State& s, const Model& m, const std::string& kind, const std::string& msg)
{
	Violation v; v.kind=kind; v.msg=msg; v.loc=where(s);
	for (auto& sr : s.syms) v.vars.push_back({sr.name,hexBytes(sr,m)});
	std::string first=v.loc.substr(0,v.loc.find(" < "));
	std::string key=kind+"|"+msg+"|"+(kind=="assert"?"":first);
	if (g_violSeen.insert(key).second) { g_viol.push_back(v); if (optVerbose) { fprintf(stderr,"VIOL %s: %s at %s\n",kind.c_str(),msg.c_str(),v.loc.c_str()); for (auto& p: v.vars) fprintf(stderr,"   %s=%s\n",p.first.c_str(),p.second.c_str()); } }
}
static bool g_halt=false; static uint64_t g_maxPathSteps=0; // g_halt: a path that does not terminate was found, exploring others would only find the same
static void endPath(State& s, bool completed)
{
	g_end=true; g_paths++; if (s.steps>g_maxPathSteps) g_maxPathSteps=s.steps;
	if (completed) { g_stats["completed"]++; for (auto& r : s.reached) g_reach[r]++;
		if (g_samples.size()<6 || (g_paths%1000==0 && g_samples.size()<12)) { std::string t; for (auto& sr : s.syms) { t += sr.name+"="+hexBytes(sr,s.model)+" "; if (t.size()>600) break; } t += "[constraints "+std::to_string(s.pc.size())+", instructions "+std::to_string(s.steps)+"]"; if (s.note.size()) t += " "+s.note; g_samples.push_back(t); } }
}
static void violationHere(State& s, const std::string& kind, const std::string& msg) { report(s,s.model,kind,msg); endPath(s,false); }
static void engineError(State& s, const std::string& m)
{
	g_errors++; std::string t=m+" at "+where(s); if (g_errmsgs.size()<20) { bool dup=false; for (auto& x : g_errmsgs) if (x==t) dup=true; if (!dup) g_errmsgs.push_back(t); }
	if (optVerbose) fprintf(stderr,"ENGINE ERROR %s\n",t.c_str());
	endPath(s,false);
}

// ------------------------------------------------------------------ solver front end
struct QKey { uint64_t a,b; bool operator==(const QKey& o) const { return a==o.a&&b==o.b; } };
struct QH { size_t operator()(const QKey& k) const { return k.a^k.b*31; } };
struct QVal { SatRes r; std::vector<std::pair<uint32_t,uint64_t>> m; };
static std::unordered_map<QKey,QVal,QH> g_cache;

static E substRec(E e, State& s, std::unordered_map<E,E>& memo)
{
	if (!e->vars.intersects(s.fixedMask)) return e;
	auto it=memo.find(e); if (it!=memo.end()) return it->second;
	E r=e;
	if (e->k==EVar) { for (auto& p : s.fixed) if (p.first==e) { r=mkConst(p.second,e->w); break; } }
	else {
		E a=e->a?substRec(e->a,s,memo):nullptr, b=e->b?substRec(e->b,s,memo):nullptr, d=e->d?substRec(e->d,s,memo):nullptr;
		if (a!=e->a||b!=e->b||d!=e->d) switch (e->k) {
			case EIte: r=mkIte(a,b,d); break;
			case EExtract: r=mkExtract(a,(unsigned)e->c,e->w); break;
			case EConcat: r=mkConcat(a,b); break;
			case EZExt: r=mkZExt(a,e->w); break;
			case ESExt: r=mkSExt(a,e->w); break;
			case EEq: case EUlt: case EUle: case ESlt: case ESle: case EFOeq: case EFOlt: case EFOle: case EFUno: r=mkCmp(e->k,a,b); break;
			case EFPExt: case EFPTrunc: case ESIToFP: case EUIToFP: case EFPToSI: case EFPToUI: case EFFloor: case EFCeil: case EFTrunc: r=mkFUn(e->k,a,e->w); break;
			default: r=mkBin(e->k,a,b);
		}
	}
	memo[e]=r; return r;
}
static E subst(E e, State& s) { if (!e->vars.intersects(s.fixedMask)) return e; std::unordered_map<E,E> memo; return substRec(e,s,memo); }

static SatRes query(State& s, E cond, Model& out)
{
	// slice
	std::vector<E> cs; cs.push_back(cond); Bits256 vs=cond->vars; std::vector<char> used(s.pc.size(),0); bool ch=true;
	while (ch) { ch=false; for (size_t i=0;i<s.pc.size();++i) if (!used[i] && s.pc[i]->vars.intersects(vs)) { used[i]=1; if (!s.pc[i]->vars.subsetOf(vs)) { vs|=s.pc[i]->vars; ch=true; } cs.push_back(s.pc[i]); } }
	std::vector<uint32_t> ids; for (E e : cs) ids.push_back(e->id); std::sort(ids.begin(),ids.end()); ids.erase(std::unique(ids.begin(),ids.end()),ids.end());
	QKey k{1469598103934665603ull,0x9E3779B97F4A7C15ull}; for (uint32_t i : ids) { k.a=(k.a^i)*1099511628211ull; k.b=(k.b+i)*0xC2B2AE3D27D4EB4Full; k.b^=k.b>>31; }
	auto it=g_cache.find(k);
	if (it!=g_cache.end()) { g_sst.cacheHits++; if (it->second.r==SatYes) { out=s.model; for (auto& p : it->second.m) { if (out.size()<=p.first) out.resize(p.first+1,0); out[p.first]=p.second; } } return it->second.r; }
	if (g_varNames.size()>250) { fprintf(stderr,"too many symbolic variables\n"); }
	out=s.model; SatRes r=solveConj(cs,out,optSolverTimeout);
	QVal qv; qv.r=r; if (r==SatYes) for (unsigned i=0;i<g_varNames.size();++i) if (vs.test(i)&&i<out.size()) qv.m.push_back({i,out[i]});
	if (r!=SatUnknown) g_cache.emplace(k,std::move(qv));
	return r;
}
static void addCons(State& s, E c)
{
	if (c->k==EConst) return;
	if (c->k==EAnd && c->w==1) { addCons(s,c->a); addCons(s,c->b); return; }
	if (c->k==EXor && c->b==g_true && c->a->k==EOr) { addCons(s,mkNot(c->a->a)); addCons(s,mkNot(c->a->b)); return; }
	E v=nullptr; uint64_t cv=0;
	if (c->k==EEq && c->a->k==EVar && c->b->k==EConst) { v=c->a; cv=c->b->c; }
	else if (c->k==EEq && c->b->k==EVar && c->a->k==EConst) { v=c->b; cv=c->a->c; }
	else if (c->k==EVar) { v=c; cv=1; } else if (c->k==EXor && c->b==g_true && c->a->k==EVar) { v=c->a; cv=0; }
	for (E x : s.pc) if (x==c) return;
	s.pc.push_back(c);
	if (v && !s.fixedMask.test((unsigned)v->c)) {
		s.fixed.push_back({v,cv}); s.fixedMask.set((unsigned)v->c);
		// drop var from other constraints
		std::vector<E> old; old.swap(s.pc);
		for (E x : old) { if (x==c || !x->vars.test((unsigned)v->c)) s.pc.push_back(x); else { E y=subst(x,s); if (y->k!=EConst) { if (y->k==EAnd) { addCons(s,y); } else addCons(s,y); } } }
	}
}
// truth of a condition that is literally part of the path condition: 1, 0 or -1
static int known(State& s, E c)
{
	if (c->k==EConst) return (int)c->c;
	if (c->w!=1) return -1;
	E n=mkNot(c);
	for (E x : s.pc) { if (x==c) return 1; if (x==n) return 0; }
	if (c->k==EAnd||c->k==EOr) { int a=known(s,c->a), b=known(s,c->b); if (c->k==EAnd) { if (!a||!b) return 0; if (a==1&&b==1) return 1; } else { if (a==1||b==1) return 1; if (!a&&!b) return 0; } }
	return -1;
}
static StateP cloneState(State& s) { StateP n(new State(s)); n->depth=s.depth+1; return n; }
static Frame& top(State& s) { FrameP& f=s.st.back(); if (f.use_count()>1) f=std::make_shared<Frame>(*f); return *f; }

// Decide a condition: returns its truth on the path the current state continues with; the other side, if feasible,
// becomes a new state which re-executes the current instruction.
static bool decide(State& s, E c)
{
	if (c->k==EConst) return c->c;
	c=subst(c,s); if (c->k==EConst) return c->c;
	{ int k=known(s,c); if (k>=0) return k; }
	bool v=evalExpr(c,s.model);
	E taken = v?c:mkNot(c), other = v?mkNot(c):c;
	Model m; SatRes r=query(s,other,m);
	if (r==SatUnknown) { g_incomplete=true; g_incompleteWhy="solver returned unknown at "+where(s); addCons(s,taken); return v; }
	if (r==SatYes) {
		StateP n=cloneState(s); n->model=m; addCons(*n,other); g_forks++; g_work.push_back(std::move(n));
		if (optProfile) { s.st.back()->fn->forks++; uint32_t l=s.st.back()->fn->code[s.st.back()->pc].loc; std::string w=where(s); size_t p=0; for (int i=0;i<5&&p!=std::string::npos;++i) p=w.find(" < ",p+1); g_stats["fork:"+w.substr(0,p)]++; (void)l; }
	}
	addCons(s,taken); if (r==SatYes) s.depth++;
	return v;
}
static uint64_t concretize(State& s, const Val& v, unsigned w, const char* why)
{
	if (!v.e) return v.c;
	E e=subst(v.e,s); if (e->k==EConst) return e->c;
	for (;;) {
		uint64_t x=evalExpr(e,s.model);
		if (optProfile) g_stats[std::string("concretize ")+why+" "+where(s).substr(0,120)]++;
		E c=mkCmp(EEq,e,mkConst(x,w));
		if (++s.concCount>optMaxConc) { g_incomplete=true; g_incompleteWhy=std::string("too many concretizations (")+why+") at "+where(s); g_end=true; return x; }
		bool t=decide(s,c); (void)t; // model satisfies c, hence t is true
		return x;
	}
}

// ------------------------------------------------------------------ memory access
static uint64_t allocObj(State& s, uint64_t size, ObjKind k, AllocKind a, int fill)
{
	if (size > (1u<<SLOT)-0x2000)
	{
		if (k!=OHeap || size > (256u<<20)) { engineError(s,"allocation too large: "+std::to_string(size)); return 0; }
		// a large block: a head without bytes, an alias for every further slot of addresses, pages allocated on demand
		ObjP h=std::make_shared<Obj>(0,k,a,fill); uint32_t id=s.heap.n, slots=(uint32_t)((size+0x2000+((1u<<SLOT)-1))>>SLOT); h->large=(uint32_t)size; h->pages=id+slots;
		s.heap.put(id,h); for (uint32_t i=1;i<slots;++i) { ObjP l=std::make_shared<Obj>(0,k,a,fill); l->alias=i; s.heap.put(id+i,l); }
		uint32_t np=(uint32_t)((size+PAGE-1)/PAGE); s.heap.put(id+slots+np-1,nullptr);
		return ((uint64_t)(id+16)<<SLOT)|BASEOFS;
	}
	ObjP o=std::make_shared<Obj>((uint32_t)size,k,a,fill);
	if (k==OStack) { uint32_t id=s.stk.n; s.stk.put(id,o); return STACKBIT | ((uint64_t)id<<SLOT) | BASEOFS; }
	uint32_t id=s.heap.n; s.heap.put(id,o); return ((uint64_t)(id+16)<<SLOT)|BASEOFS;
}
static inline bool locate(State& s, uint64_t addr, Space*& sp, uint32_t& id, int64_t& ofs)
{
	if (addr>=(STACKBIT<<1)) return false;
	if (addr & STACKBIT) { sp=&s.stk; id=(uint32_t)((addr&~STACKBIT)>>SLOT); }
	else { if (addr < (16ull<<SLOT)) return false; sp=&s.heap; id=(uint32_t)((addr>>SLOT)-16); }
	ofs=(int64_t)(addr & ((1ull<<SLOT)-1))-(int64_t)BASEOFS;
	return id < sp->n && sp->get(id);
}
static std::string addrStr(State& s, uint64_t addr)
{
	Space* sp; uint32_t id; int64_t ofs; char b[128];
	if (addr<4096) { snprintf(b,sizeof b,"null pointer (offset %llu)",(unsigned long long)addr); return b; }
	if (!locate(s,addr,sp,id,ofs)) return "wild pointer";
	Obj& o=*sp->get(id);
	snprintf(b,sizeof b,"%s object of %u bytes%s, offset %lld",o.kind==OHeap?"heap":o.kind==OStack?"stack":"global",o.size,o.freed?" (freed)":"",(long long)ofs);
	return b;
}
// check an access to concrete address; reports violation and returns null on failure
// number of bytes from addr on that can be accessed at once: up to the end of the page in a large block
static uint64_t contiguous(State& s, uint64_t addr, uint64_t n)
{
	Space* sp; uint32_t id; int64_t ofs; if (!locate(s,addr,sp,id,ofs)) return n;
	const ObjP& o=sp->get(id); if (!o || !(o->large||o->alias) || o->freed) return n;
	int64_t full=ofs+((int64_t)o->alias<<SLOT); if (full<0) return n;
	uint64_t left=PAGE-(uint64_t)full%PAGE; return left<n?left:n;
}
static Obj* access(State& s, uint64_t addr, uint64_t n, bool write, int64_t& ofs)
{
	Space* sp; uint32_t id;
	if (!locate(s,addr,sp,id,ofs)) { violationHere(s,"memory",std::string(write?"write to ":"read of ")+addrStr(s,addr)); return nullptr; }
	const ObjP& o=sp->get(id);
	if ((o->large||o->alias) && !o->freed)
	{
		uint32_t hid=id-o->alias; const ObjP& h=sp->get(hid); uint64_t full=(uint64_t)(ofs+((int64_t)o->alias<<SLOT));
		if (h->freed || (int64_t)full<0 || full+n>h->large) { violationHere(s,"memory",std::string("out of bounds ")+(write?"write":"read")+" of "+std::to_string(n)+" bytes of a block of "+std::to_string(h->large)); return nullptr; }
		if (full/PAGE!=(full+(n?n-1:0))/PAGE) { engineError(s,"access across pages of a large block"); return nullptr; }
		uint32_t pid=h->pages+(uint32_t)(full/PAGE); if (!sp->get(pid)) sp->put(pid,std::make_shared<Obj>(PAGE,OHeap,ANone,0xCD)); ofs=(int64_t)(full%PAGE);
		return write?sp->wr(pid):sp->get(pid).get();
	}
	if (o->freed) { violationHere(s,"memory",std::string(write?"write to ":"read of ")+"freed memory: "+addrStr(s,addr)); return nullptr; }
	if (ofs<0 || (uint64_t)ofs+n>o->size) { violationHere(s,"memory",std::string("out of bounds ")+(write?"write":"read")+" of "+std::to_string(n)+" bytes: "+addrStr(s,addr)); return nullptr; }
	if (write) { if (o->ro) { violationHere(s,"memory","write to constant "+addrStr(s,addr)); return nullptr; } return sp->wr(id); }
	return o.get();
}
static Val readObj(Obj* o, int64_t ofs, unsigned w)
{
	unsigned n=(w+7)/8; bool sym=false;
	if (o->s) for (unsigned i=0;i<n;++i) if (o->s[ofs+i]) { sym=true; break; }
	if (!sym) { uint64_t v=0; memcpy(&v,o->b+ofs,n); return Val(v&maskw(w)); }
	E e=nullptr;
	for (unsigned i=0;i<n;++i) { E x=o->s[ofs+i]?o->s[ofs+i]:mkConst(o->b[ofs+i],8); e = e?mkConcat(x,e):x; }
	if (e->w!=w) e=mkExtract(e,0,w);
	return Val(e);
}
static void writeObj(Obj* o, int64_t ofs, unsigned w, const Val& v)
{
	unsigned n=(w+7)/8;
	if (!v.e) { uint64_t c=v.c&maskw(w); memcpy(o->b+ofs,&c,n); if (o->s) for (unsigned i=0;i<n;++i) o->s[ofs+i]=nullptr; return; }
	E e=v.e; if (e->w!=n*8) e=mkZExt(e,n*8);
	o->needSym();
	for (unsigned i=0;i<n;++i) { E x=mkExtract(e,8*i,8); if (x->k==EConst) { o->b[ofs+i]=(uint8_t)x->c; o->s[ofs+i]=nullptr; } else o->s[ofs+i]=x; }
}
static unsigned ctzExpr(E e, int dep=0)
{
	if (dep>10) return 0;
	switch (e->k) {
	case EConst: return e->c?__builtin_ctzll(e->c):64;
	case EConcat: { unsigned t=ctzExpr(e->b,dep+1); return t>=e->b->w? e->b->w+ctzExpr(e->a,dep+1) : t; }
	case EZExt: case ESExt: return ctzExpr(e->a,dep+1);
	case EAdd: case ESub: case EOr: case EXor: return std::min(ctzExpr(e->a,dep+1),ctzExpr(e->b,dep+1));
	case EAnd: return std::max(ctzExpr(e->a,dep+1),ctzExpr(e->b,dep+1));
	case EMul: return std::min(64u,ctzExpr(e->a,dep+1)+ctzExpr(e->b,dep+1));
	case EIte: return std::min(ctzExpr(e->b,dep+1),ctzExpr(e->d,dep+1));
	default: return 0;
	}
}
// symbolic address: either resolve inside one object (returns obj + offset expr) or concretize by forking
struct SymAddr { bool conc; uint64_t addr; Obj* o; E ofs; uint64_t base; uint32_t lo,hi,step; };
static bool resolve(State& s, const Val& a, uint64_t n, bool write, SymAddr& r)
{
	if (!a.e) { r.conc=true; r.addr=a.c; return true; }
	E e=subst(a.e,s); if (e->k==EConst) { r.conc=true; r.addr=e->c; return true; }
	uint64_t x=evalExpr(e,s.model);
	Space* sp; uint32_t id; int64_t ofs;
	if (locate(s,x,sp,id,ofs) && !sp->get(id)->freed && ofs>=0 && (uint64_t)ofs+n<=sp->get(id)->size) {
		const ObjP& o=sp->get(id); uint64_t base=x-ofs;
		if (o->size<=2048) {
			E off=mkBin(ESub,e,mkConst(base,64));
			E in=mkCmp(EUle,off,mkConst(o->size-n,64));
			if (!decide(s,in)) { engineError(s,"resolve: model"); return false; }
			unsigned step=1u<<std::min(4u,ctzExpr(off));
			unsigned cnt=(unsigned)((o->size-n)/step+1);
			if (cnt<=520) { if (write && o->ro) { violationHere(s,"memory","write to constant "+addrStr(s,x)); return false; }
				r.conc=false; r.o=write?sp->wr(id):o.get(); r.ofs=subst(off,s); r.base=base; r.lo=0; r.hi=o->size-(uint32_t)n; r.step=step;
				if (r.ofs->k==EConst) { r.conc=true; r.addr=base+r.ofs->c; }
				return true; }
		}
	}
	r.conc=true; r.addr=concretize(s,Val(e),64,"address"); return !g_end;
}
static Val forkIte(State& s, Val v)
{
	if (!v.e) return v; E e=subst(v.e,s);
	while (e->k==EIte) { bool t=decide(s,e->a); if (g_end) return Val(); e=t?e->b:e->d; }
	return Val(e);
}
static Val loadVal(State& s, const Val& a, unsigned w)
{
	SymAddr r; unsigned n=(w+7)/8;
	if (!resolve(s,a,n,false,r)) return Val();
	if (r.conc) { int64_t ofs; Obj* o=access(s,r.addr,n,false,ofs); if (!o) return Val(); return readObj(o,ofs,w); }
	// group equal values to keep the ite chain small
	std::map<uint32_t,std::vector<uint32_t>> byVal; std::unordered_map<E,std::vector<uint32_t>> grp; std::vector<E> order;
	for (uint32_t p=0;p<=r.hi;p+=r.step) { E v=toE(readObj(r.o,p,w),w); auto& g=grp[v]; if (g.empty()) order.push_back(v); g.push_back(p); }
	size_t big=0; for (size_t i=1;i<order.size();++i) if (grp[order[i]].size()>grp[order[big]].size()) big=i;
	E res=order[big];
	for (size_t i=0;i<order.size();++i) if (i!=big) {
		E c=g_false; auto& g=grp[order[i]];
		for (size_t j=0;j<g.size();) { size_t k=j; while (k+1<g.size()&&g[k+1]==g[k]+r.step) ++k;
			E t = j==k? mkCmp(EEq,r.ofs,mkConst(g[j],64)) : mkBin(EAnd,mkCmp(EUle,mkConst(g[j],64),r.ofs),mkCmp(EUle,r.ofs,mkConst(g[k],64)));
			c=mkBin(EOr,c,t); j=k+1; }
		res=mkIte(c,order[i],res);
	}
	return Val(res);
}
static void storeVal(State& s, const Val& a, unsigned w, const Val& v)
{
	SymAddr r; unsigned n=(w+7)/8;
	if (!resolve(s,a,n,true,r)) return;
	if (r.conc) { int64_t ofs; Obj* o=access(s,r.addr,n,true,ofs); if (!o) return; writeObj(o,ofs,w,v); return; }
	E ve=toE(v,w); if (ve->w!=n*8) ve=mkZExt(ve,n*8);
	// positions may overlap when step < n: handle bytewise
	uint32_t size=r.hi+n; std::vector<E> nb(size);
	for (uint32_t q=0;q<size;++q) nb[q]=r.o->s&&r.o->s[q]?r.o->s[q]:mkConst(r.o->b[q],8);
	for (uint32_t p=0;p<=r.hi;p+=r.step) { E c=mkCmp(EEq,r.ofs,mkConst(p,64)); for (unsigned i=0;i<n;++i) nb[p+i]=mkIte(c,mkExtract(ve,8*i,8),nb[p+i]); }
	r.o->needSym();
	for (uint32_t q=0;q<size;++q) { if (nb[q]->k==EConst) { r.o->b[q]=(uint8_t)nb[q]->c; r.o->s[q]=nullptr; } else r.o->s[q]=nb[q]; }
}

// ------------------------------------------------------------------ globals and constants
static void flatten(Type* t, uint64_t ofs, std::vector<Leaf>& out)
{
	if (auto* st=dyn_cast<StructType>(t)) { auto* sl=DL->getStructLayout(st); for (unsigned i=0;i<st->getNumElements();++i) flatten(st->getElementType(i),ofs+sl->getElementOffset(i),out); return; }
	if (auto* at=dyn_cast<ArrayType>(t)) { uint64_t es=DL->getTypeAllocSize(at->getElementType()); for (uint64_t i=0;i<at->getNumElements();++i) flatten(at->getElementType(),ofs+i*es,out); return; }
	if (auto* vt=dyn_cast<FixedVectorType>(t)) { uint64_t es=DL->getTypeAllocSize(vt->getElementType()); for (uint64_t i=0;i<vt->getNumElements();++i) flatten(vt->getElementType(),ofs+i*es,out); return; }
	if (t->isVoidTy()||t->isLabelTy()||t->isTokenTy()||t->isMetadataTy()) return;
	uint64_t w=DL->getTypeSizeInBits(t);
	if (t->isIntegerTy() && w>64 && w%64==0) { for (uint64_t i=0;i<w/64;++i) out.push_back({(uint32_t)(ofs+8*i),64}); return; }
	out.push_back({(uint32_t)ofs,(uint16_t)w});
}
static unsigned nLeaves(Type* t) { std::vector<Leaf> l; flatten(t,0,l); return l.size(); }
static uint64_t gAddr(const GlobalValue* g);
static uint64_t constScalar(const Constant* c);
static void constLeaves(const Constant* c, std::vector<uint64_t>& out)
{
	Type* t=c->getType();
	if (isa<StructType>(t)||isa<ArrayType>(t)||isa<FixedVectorType>(t)) {
		unsigned n = isa<StructType>(t)?t->getStructNumElements():isa<ArrayType>(t)?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements();
		for (unsigned i=0;i<n;++i) constLeaves(c->getAggregateElement(i),out);
		return;
	}
	if (t->isIntegerTy() && t->getIntegerBitWidth()>64) { unsigned n=(t->getIntegerBitWidth()+63)/64; if (auto* ci=dyn_cast<ConstantInt>(c)) { for (unsigned i=0;i<n;++i) out.push_back(ci->getValue().getRawData()[i]); } else for (unsigned i=0;i<n;++i) out.push_back(0); return; }
	out.push_back(constScalar(c));
}
static uint64_t constScalar(const Constant* c)
{
	if (auto* ci=dyn_cast<ConstantInt>(c)) return ci->getZExtValue();
	if (auto* cf=dyn_cast<ConstantFP>(c)) { APInt i=cf->getValueAPF().bitcastToAPInt(); return i.getBitWidth()<=64? i.getZExtValue() : 0; }
	if (isa<ConstantPointerNull>(c)||isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) return 0;
	if (auto* g=dyn_cast<GlobalValue>(c)) return gAddr(g);
	if (auto* ce=dyn_cast<ConstantExpr>(c)) {
		auto opv=[&](unsigned i){ return constScalar(ce->getOperand(i)); };
		unsigned w=DL->getTypeSizeInBits(ce->getType());
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: { APInt off(64,0); auto* gep=cast<GEPOperator>(ce); if (!gep->accumulateConstantOffset(*DL,off)) break; return opv(0)+off.getSExtValue(); }
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return opv(0)&maskw(w);
		case Instruction::Add: return (opv(0)+opv(1))&maskw(w);
		case Instruction::Sub: return (opv(0)-opv(1))&maskw(w);
		case Instruction::Trunc: return opv(0)&maskw(w);
		case Instruction::ZExt: return opv(0);
		case Instruction::ICmp: { auto p=ce->getPredicate(); if (p==CmpInst::ICMP_EQ) return opv(0)==opv(1); if (p==CmpInst::ICMP_NE) return opv(0)!=opv(1); break; }
		default: break;
		}
	}
	errs() << "unsupported constant: " << *c << "\n"; _exit(3);
}
static State* g_init=nullptr;
static uint64_t gAddr(const GlobalValue* g)
{
	if (auto* ga=dyn_cast<GlobalAlias>(g)) return constScalar(ga->getAliasee());
	auto it=g_gaddr.find(g); if (it!=g_gaddr.end()) return it->second;
	errs() << "no address for global " << g->getName() << "\n"; _exit(3);
}
static void initGlobals(State& s)
{
	for (auto& f : *M) { uint64_t a=allocObj(s,1,OFunc,ANone,0); Space* sp; uint32_t id; int64_t o; locate(s,a,sp,id,o); sp->wr(id)->ro=true; g_gaddr[&f]=a; g_faddr[a]=&f; }
	for (auto& g : M->globals()) { Type* t=g.getValueType(); uint64_t sz=t->isSized()?DL->getTypeAllocSize(t):8; if (g.isDeclaration()) sz=std::max<uint64_t>(sz,256);
		g_gaddr[&g]=allocObj(s,sz,OGlobal,ANone,0); }
	for (auto& g : M->globals()) { Space* sp; uint32_t id; int64_t o; locate(s,g_gaddr[&g],sp,id,o); Obj* ob=sp->wr(id); ob->name=strdup(g.getName().str().c_str());
		if (!g.hasInitializer()) continue;
		std::vector<Leaf> ls; std::vector<uint64_t> vs;
		if (auto* cd=dyn_cast<ConstantDataArray>(g.getInitializer())) { StringRef r=cd->getRawDataValues(); memcpy(ob->b,r.data(),r.size()); }
		else if (!isa<ConstantAggregateZero>(g.getInitializer())) { flatten(g.getValueType(),0,ls); constLeaves(g.getInitializer(),vs); for (size_t i=0;i<ls.size();++i) { uint64_t v=vs[i]; memcpy(ob->b+ls[i].ofs,&v,(ls[i].w+7)/8); } }
		if (g.isConstant()) ob->ro=true;
	}
}

// ------------------------------------------------------------------ natives
enum Nat { N_malloc, N_calloc, N_realloc, N_free, N_new, N_newarr, N_del, N_delarr, N_memcpy, N_memmove, N_memset, N_memcmp, N_bcmp, N_strlen, N_alloc_exc, N_free_exc, N_throw, N_begin_catch, N_end_catch, N_rethrow, N_abort, N_exit, N_terminate, N_purevirt, N_assertfail, N_dyncast, N_nop, N_typeid, N_vastart, N_vacopy, N_curexc,
	N_sx_sym, N_sx_assume, N_sx_assert, N_sx_reach, N_sx_arg, N_sx_conc, N_sx_print, N_sx_expect, N_sx_issym, N_sx_note, N_sx_steps, N_alignednew, N_sx_prefer, N_ret0, N_sx_heaplive, N_alalloc, N_sx_trycall, N_sx_longjmp, N_sx_fmtd, N_strtod, N_floor, N_ceil };
static std::map<std::string,int> g_nat = {
	{"malloc",N_malloc},{"aligned_alloc",N_alalloc},{"calloc",N_calloc},{"realloc",N_realloc},{"free",N_free},{"_Znwm",N_new},{"_Znam",N_newarr},{"_ZnwmRKSt9nothrow_t",N_new},{"_ZnamRKSt9nothrow_t",N_newarr},{"_ZnwmSt11align_val_t",N_new},
	{"_ZdlPv",N_del},{"_ZdlPvm",N_del},{"_ZdaPv",N_delarr},{"_ZdaPvm",N_delarr},{"_ZdlPvSt11align_val_t",N_del},{"_ZdlPvmSt11align_val_t",N_del},{"_ZdlPvRKSt9nothrow_t",N_del},
	{"memcpy",N_memcpy},{"memmove",N_memmove},{"memset",N_memset},{"memcmp",N_memcmp},{"bcmp",N_bcmp},{"strlen",N_strlen},
	{"__cxa_allocate_exception",N_alloc_exc},{"__cxa_free_exception",N_free_exc},{"__cxa_throw",N_throw},{"__cxa_begin_catch",N_begin_catch},{"__cxa_end_catch",N_end_catch},{"__cxa_rethrow",N_rethrow},
	{"abort",N_abort},{"exit",N_exit},{"_ZSt9terminatev",N_terminate},{"__clang_call_terminate",N_terminate},{"__cxa_pure_virtual",N_purevirt},{"__assert_fail",N_assertfail},{"__dynamic_cast",N_dyncast},
	{"__cxa_atexit",N_ret0},{"_ZSt21ios_base_library_initv",N_nop},{"_ZNSt8ios_base4InitC1Ev",N_nop},{"_ZNSt8ios_base4InitD1Ev",N_nop},
	{"sx_sym",N_sx_sym},{"sx_assume",N_sx_assume},{"sx_assert",N_sx_assert},{"sx_reach",N_sx_reach},{"sx_arg",N_sx_arg},{"sx_concretize",N_sx_conc},{"sx_print",N_sx_print},{"sx_expect",N_sx_expect},{"sx_is_symbolic",N_sx_issym},{"sx_note",N_sx_note},{"sx_heap_live",N_sx_heaplive},{"sx_trycall",N_sx_trycall},{"sx_longjmp",N_sx_longjmp},{"sx_fmtd",N_sx_fmtd},{"strtod",N_strtod},{"floor",N_floor},{"ceil",N_ceil},
};

// ------------------------------------------------------------------ decode
static Fn* getFn(const Function* f) { auto it=g_fns.find(f); if (it!=g_fns.end()) return it->second; Fn* n=new Fn; n->f=const_cast<Function*>(f); n->name=f->getName().str(); g_fns[f]=n; return n; }
static uint32_t locOf(const Instruction& i)
{
	const DebugLoc& dl=i.getDebugLoc(); if (!dl) return 0;
	auto* sc=dyn_cast<DIScope>(dl.getScope()); if (!sc) return 0;
	std::string f=(sc->getFilename().startswith("/")?sc->getFilename().str():(sc->getDirectory()+"/"+sc->getFilename()).str());
	auto k=std::make_pair(f,(unsigned)dl.getLine()); auto it=g_locIdx.find(k); if (it!=g_locIdx.end()) return it->second;
	uint32_t n=g_locs.size(); g_locs.push_back(k); g_locHit.push_back(0); g_locRepo.push_back(f.compare(0,optRepo.size()+5,optRepo+"/src/")==0); g_locIdx[k]=n; return n;
}
static const Function* resolveCallee(const Value* v)
{
	v=v->stripPointerCasts();
	if (auto* a=dyn_cast<GlobalAlias>(v)) v=a->getAliasee()->stripPointerCasts();
	return dyn_cast<Function>(v);
}
struct Decoder {
	Fn* fn; std::unordered_map<const Value*,int> reg; std::unordered_map<const BasicBlock*,int> blk;
	Opnd op(const Value* v) {
		Opnd o; o.n=nLeaves(v->getType());
		if (auto* c=dyn_cast<Constant>(v)) { if (o.n==1 && !isa<StructType>(v->getType()) && !isa<ArrayType>(v->getType()) && !isa<FixedVectorType>(v->getType())) o.c=constScalar(c); else { auto* ag=new std::vector<uint64_t>; constLeaves(c,*ag); o.agg=ag; if (ag->size()==1) { o.c=(*ag)[0]; } } return o; }
		if (isa<MetadataAsValue>(v)||isa<InlineAsm>(v)) return o;
		auto it=reg.find(v); if (it==reg.end()) { errs()<<"no reg for "<<*v<<"\n"; _exit(3); } o.reg=it->second; return o;
	}
	unsigned width(const Value* v) { Type* t=v->getType(); if (t->isPointerTy()) return 64; return t->isSized()?(unsigned)DL->getTypeSizeInBits(t):0; }
	Edge edge(const BasicBlock* from, const BasicBlock* to) {
		Edge e; e.target=blk[to];
		for (auto& p : to->phis()) { const Value* v=p.getIncomingValueForBlock(from); e.phis.push_back({reg[&p],op(v)}); }
		return e;
	}
	void run() {
		Function& f=*fn->f; int n=0;
		for (auto& a : f.args()) { unsigned l=nLeaves(a.getType()); reg[&a]=n; fn->args.push_back({n,(uint16_t)l}); n+=l; }
		for (auto& b : f) for (auto& i : b) { unsigned l=nLeaves(i.getType()); if (l) { reg[&i]=n; n+=l; } }
		fn->nregs=n; fn->vararg=f.isVarArg();
		int bi=0; for (auto& b : f) blk[&b]=bi++;
		fn->blockStart.resize(bi);
		for (auto& b : f) { fn->blockStart[blk[&b]]=fn->code.size(); for (auto& i : b) if (!isa<PHINode>(i)) dec(i,b); }
	}
	void dec(Instruction& i, BasicBlock& b);
};
// 1 or 2: the block taken if the condition holds (1) or not (2) does nothing but storing a byte and going on with the other block
static int mergeable(BasicBlock& B, BranchInst& br)
{
	for (int k=0;k<2;++k) {
		BasicBlock *T=br.getSuccessor(k), *F=br.getSuccessor(1-k); if (T->getSinglePredecessor()!=&B || T==F) continue;
		auto* tb=dyn_cast<BranchInst>(T->getTerminator()); if (!tb || tb->isConditional() || tb->getSuccessor(0)!=F) continue;
		StoreInst* st=nullptr; int n=0; bool ok=true;
		for (auto& i : *T) { if (&i==tb || isa<DbgInfoIntrinsic>(i)) continue; ++n;
			if (auto* x=dyn_cast<StoreInst>(&i)) { if (st || x->isVolatile() || x->isAtomic() || !x->getValueOperand()->getType()->isIntegerTy(8)) ok=false; st=x; }
			else if (i.getType()->isVectorTy() || i.getType()->isPointerTy()) ok=false;
			else if (isa<BinaryOperator>(i)) { auto o=i.getOpcode(); if (o==Instruction::UDiv || o==Instruction::SDiv || o==Instruction::URem || o==Instruction::SRem) ok=false; }
			else if (!isa<CastInst>(i) && !isa<ICmpInst>(i) && !isa<SelectInst>(i)) ok=false; }
		if (!st || !ok || n>8) continue;
		for (auto& ph : F->phis()) if (ph.getIncomingValueForBlock(&B)!=ph.getIncomingValueForBlock(T)) ok=false;
		if (ok) return k+1;
	}
	return 0;
}
static void decodeFn(Fn* fn) { if (fn->decoded) return; fn->decoded=true; Decoder d; d.fn=fn; if (auto* sp=fn->f->getSubprogram()) { std::string p=sp->getFilename().startswith("/")?sp->getFilename().str():(sp->getDirectory()+"/"+sp->getFilename()).str(); fn->inRepo = p.compare(0,optRepo.size()+5,optRepo+"/src/")==0; } d.run(); }

static bool intrinsicName(StringRef n, const char* p) { return n.startswith(p); }
enum Intr { I_memcpy, I_memset, I_umin, I_umax, I_smin, I_smax, I_usubsat, I_uaddsat, I_ssubsat, I_saddsat, I_ctlz, I_cttz, I_ctpop, I_bswap, I_fshl, I_fshr, I_abs, I_uaddo, I_usubo, I_umulo, I_saddo, I_ssubo, I_smulo, I_nop, I_expect, I_fabs, I_trap, I_objsize, I_floor, I_ceil, I_fmuladd, I_stacksave, I_isconst, I_trunc, I_rint, I_fmin, I_fmax };

void Decoder::dec(Instruction& i, BasicBlock& b)
{
	DI d; d.k=DBad; d.inst=&i; d.loc=locOf(i); d.w=0;
	auto it=reg.find(&i); if (it!=reg.end()) { d.dst=it->second; d.nd=nLeaves(i.getType()); }
	d.w=i.getType()->isVoidTy()?0:width(&i);
	switch (i.getOpcode()) {
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
		static std::map<unsigned,EK> m={{Instruction::Add,EAdd},{Instruction::Sub,ESub},{Instruction::Mul,EMul},{Instruction::UDiv,EUDiv},{Instruction::SDiv,ESDiv},{Instruction::URem,EURem},{Instruction::SRem,ESRem},{Instruction::And,EAnd},{Instruction::Or,EOr},{Instruction::Xor,EXor},{Instruction::Shl,EShl},{Instruction::LShr,ELShr},{Instruction::AShr,EAShr},{Instruction::FAdd,EFAdd},{Instruction::FSub,EFSub},{Instruction::FMul,EFMul},{Instruction::FDiv,EFDiv},{Instruction::FRem,EFRem}};
		d.k=DBin; d.op=m[i.getOpcode()]; d.a=op(i.getOperand(0)); d.b=op(i.getOperand(1)); if (i.getType()->isVectorTy()) d.w=DL->getTypeSizeInBits(i.getType()->getScalarType()); break; }
	case Instruction::FNeg: d.k=DFNeg; d.a=op(i.getOperand(0)); if (i.getType()->isVectorTy()) d.w=DL->getTypeSizeInBits(i.getType()->getScalarType()); break;
	case Instruction::ICmp: case Instruction::FCmp: { d.k=DCmp; d.a=op(i.getOperand(0)); d.b=op(i.getOperand(1)); d.w2=width(i.getOperand(0)); d.w=1; d.imm=cast<CmpInst>(i).getPredicate(); d.isSigned=isa<FCmpInst>(i); if (i.getType()->isVectorTy()) { d.w2=DL->getTypeSizeInBits(i.getOperand(0)->getType()->getScalarType()); } break; }
	case Instruction::Select: d.k=DSelect; d.a=op(i.getOperand(0)); d.b=op(i.getOperand(1)); d.d=op(i.getOperand(2)); { std::vector<Leaf> l; flatten(i.getType(),0,l); d.leaves=l; } d.isPtr=i.getType()->isPointerTy(); break;
	case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP:
		d.k=DCast; d.op=0; d.imm=i.getOpcode(); d.a=op(i.getOperand(0)); d.w2=width(i.getOperand(0)); { std::vector<Leaf> l; flatten(i.getType(),0,l); d.leaves=l; std::vector<Leaf> l2; flatten(i.getOperand(0)->getType(),0,l2); for (auto& x : l2) d.opw.push_back(x.w); } break;
	case Instruction::Load: { d.k=DLoad; d.isPtr=i.getType()->isPointerTy(); d.a=op(i.getOperand(0)); flatten(i.getType(),0,d.leaves); break; }
	case Instruction::Store: { d.k=DStore; d.a=op(i.getOperand(0)); d.b=op(i.getOperand(1)); flatten(i.getOperand(0)->getType(),0,d.leaves); break; }
	case Instruction::Alloca: { auto& al=cast<AllocaInst>(i); d.k=DAlloca; d.imm=DL->getTypeAllocSize(al.getAllocatedType()); d.a=op(al.getArraySize()); d.w2=width(al.getArraySize()); break; }
	case Instruction::GetElementPtr: {
		d.k=DGep; auto& g=cast<GetElementPtrInst>(i); d.a=op(g.getPointerOperand()); d.imm=0;
		if (g.getType()->isVectorTy()) { d.k=DBad; break; }
		for (auto gi=gep_type_begin(g), ge=gep_type_end(g); gi!=ge; ++gi) {
			const Value* idx=gi.getOperand();
			if (StructType* st=gi.getStructTypeOrNull()) { d.imm+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
			uint64_t es=DL->getTypeAllocSize(gi.getIndexedType());
			if (auto* ci=dyn_cast<ConstantInt>(idx)) { d.imm+=ci->getSExtValue()*(int64_t)es; continue; }
			GepT t; t.o=op(idx); t.w=width(idx); t.scale=es; d.gep.push_back(t);
		}
		break; }
	case Instruction::Br: { auto& br=cast<BranchInst>(i); if (br.isConditional()) { d.k=DCondBr; d.a=op(br.getCondition()); d.imm=mergeable(b,br); d.e1=edge(&b,br.getSuccessor(0)); d.e2=edge(&b,br.getSuccessor(1)); } else { d.k=DBr; d.e1=edge(&b,br.getSuccessor(0)); } break; }
	case Instruction::Switch: { auto& sw=cast<SwitchInst>(i); d.k=DSwitch; d.a=op(sw.getCondition()); d.w2=width(sw.getCondition()); d.e1=edge(&b,sw.getDefaultDest()); for (auto& c : sw.cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(),edge(&b,c.getCaseSuccessor())}); break; }
	case Instruction::Ret: d.k=DRet; if (i.getNumOperands()) { d.a=op(i.getOperand(0)); d.nd=d.a.n; } else d.nd=0; break;
	case Instruction::Unreachable: d.k=DUnreach; break;
	case Instruction::Resume: d.k=DResume; d.a=op(i.getOperand(0)); break;
	case Instruction::LandingPad: { auto& lp=cast<LandingPadInst>(i); d.k=DLandingPad; d.cleanup=lp.isCleanup(); for (unsigned c=0;c<lp.getNumClauses();++c) { if (lp.isCatch(c)) d.clauses.push_back({0,constScalar(lp.getClause(c))}); else { std::vector<uint64_t> fl; constLeaves(lp.getClause(c),fl); d.filters.push_back(fl); d.clauses.push_back({1,d.filters.size()-1}); } } break; }
	case Instruction::ExtractValue: { auto& ev=cast<ExtractValueInst>(i); d.k=DExtract; d.a=op(ev.getAggregateOperand()); Type* t=ev.getAggregateOperand()->getType(); unsigned ofs=0; for (unsigned ix : ev.indices()) { for (unsigned j=0;j<ix;++j) ofs+=nLeaves(isa<StructType>(t)?t->getStructElementType(j):t->getArrayElementType()); t=isa<StructType>(t)?t->getStructElementType(ix):t->getArrayElementType(); } d.imm=ofs; break; }
	case Instruction::InsertValue: { auto& ev=cast<InsertValueInst>(i); d.k=DInsert; d.a=op(ev.getAggregateOperand()); d.b=op(ev.getInsertedValueOperand()); Type* t=ev.getAggregateOperand()->getType(); unsigned ofs=0; for (unsigned ix : ev.indices()) { for (unsigned j=0;j<ix;++j) ofs+=nLeaves(isa<StructType>(t)?t->getStructElementType(j):t->getArrayElementType()); t=isa<StructType>(t)?t->getStructElementType(ix):t->getArrayElementType(); } d.imm=ofs; break; }
	case Instruction::ExtractElement: if (auto* ci=dyn_cast<ConstantInt>(i.getOperand(1))) { d.k=DExtract; d.a=op(i.getOperand(0)); d.imm=ci->getZExtValue(); } break;
	case Instruction::InsertElement: if (auto* ci=dyn_cast<ConstantInt>(i.getOperand(2))) { d.k=DInsert; d.a=op(i.getOperand(0)); d.b=op(i.getOperand(1)); d.imm=ci->getZExtValue(); } break;
	case Instruction::ShuffleVector: { auto& sv=cast<ShuffleVectorInst>(i); d.k=DShuffle; d.a=op(sv.getOperand(0)); d.b=op(sv.getOperand(1)); for (int m : sv.getShuffleMask()) d.opw.push_back((uint16_t)(m<0?0xffff:m)); break; }
	case Instruction::Freeze: d.k=DFreeze; d.a=op(i.getOperand(0)); break;
	case Instruction::Fence: d.k=DNop; break;
	case Instruction::AtomicRMW: { auto& rm=cast<AtomicRMWInst>(i); d.k=DAtomicRMW; d.a=op(rm.getPointerOperand()); d.b=op(rm.getValOperand()); d.imm=rm.getOperation(); break; }
	case Instruction::AtomicCmpXchg: { d.k=DCmpXchg; d.a=op(i.getOperand(0)); d.b=op(i.getOperand(1)); d.d=op(i.getOperand(2)); d.w2=width(i.getOperand(1)); break; }
	case Instruction::Call: case Instruction::Invoke: {
		auto& cb=cast<CallBase>(i); d.k=isa<InvokeInst>(i)?DInvoke:DCall; d.fty=cb.getFunctionType();
		if (auto* inv=dyn_cast<InvokeInst>(&i)) { d.e1=edge(&b,inv->getNormalDest()); d.e2=edge(&b,inv->getUnwindDest()); }
		if (cb.isInlineAsm()) { auto* ia=cast<InlineAsm>(cb.getCalledOperand()); std::string as=ia->getAsmString(); if (as.find("bsr")!=std::string::npos) { d.k=DAsmBsr; d.a=op(cb.getArgOperand(0)); } else if (as.empty()) d.k=DNop; break; }
		const Function* cf=resolveCallee(cb.getCalledOperand());
		for (unsigned j=0;j<cb.arg_size();++j) { if (isa<MetadataAsValue>(cb.getArgOperand(j))) continue; d.ops.push_back(op(cb.getArgOperand(j))); d.opw.push_back(width(cb.getArgOperand(j))); d.byval.push_back(cb.isByValArgument(j)?(uint32_t)DL->getTypeAllocSize(cb.getParamByValType(j)):0); }
		if (cf && cf->isIntrinsic()) {
			StringRef n=cf->getName(); int x=-1;
			static const std::vector<std::pair<const char*,int>> tab={{"llvm.memcpy",I_memcpy},{"llvm.memmove",I_memcpy},{"llvm.memset",I_memset},{"llvm.umin",I_umin},{"llvm.umax",I_umax},{"llvm.smin",I_smin},{"llvm.smax",I_smax},{"llvm.usub.sat",I_usubsat},{"llvm.uadd.sat",I_uaddsat},{"llvm.ctlz",I_ctlz},{"llvm.cttz",I_cttz},{"llvm.ctpop",I_ctpop},{"llvm.bswap",I_bswap},{"llvm.fshl",I_fshl},{"llvm.fshr",I_fshr},{"llvm.abs",I_abs},{"llvm.uadd.with.overflow",I_uaddo},{"llvm.usub.with.overflow",I_usubo},{"llvm.umul.with.overflow",I_umulo},{"llvm.sadd.with.overflow",I_saddo},{"llvm.ssub.with.overflow",I_ssubo},{"llvm.smul.with.overflow",I_smulo},{"llvm.lifetime",I_nop},{"llvm.dbg",I_nop},{"llvm.assume",I_nop},{"llvm.experimental.noalias",I_nop},{"llvm.invariant",I_nop},{"llvm.expect",I_expect},{"llvm.fabs",I_fabs},{"llvm.trap",I_trap},{"llvm.objectsize",I_objsize},{"llvm.floor",I_floor},{"llvm.ceil",I_ceil},{"llvm.fmuladd",I_fmuladd},{"llvm.stacksave",I_stacksave},{"llvm.stackrestore",I_nop},{"llvm.is.constant",I_isconst},{"llvm.va_end",I_nop},{"llvm.prefetch",I_nop},{"llvm.trunc",I_trunc},{"llvm.minnum",I_fmin},{"llvm.maxnum",I_fmax}};
			if (n=="llvm.va_start"||n.startswith("llvm.va_start")) { d.native=N_vastart; }
			else if (n.startswith("llvm.va_copy")) { d.native=N_vacopy; }
			else if (n.startswith("llvm.eh.typeid.for")) { d.native=N_typeid; }
			else { for (auto& t : tab) if (intrinsicName(n,t.first)) { x=t.second; break; } if (x<0) { d.k=DBad; break; } d.k=(x==I_nop?DNop:DIntr); d.op=x; if (cb.arg_size()) d.w2=width(cb.getArgOperand(0)); { std::vector<Leaf> l; flatten(i.getType(),0,l); if (!l.empty()) d.w=l[0].w; } if (d.op==I_nop) d.dst=-1; }
			break;
		}
		if (cf) { auto nit=g_nat.find(cf->getName().str()); if (nit!=g_nat.end()) d.native=nit->second; else d.fn=getFn(cf); d.callee=const_cast<Function*>(cf); }
		else d.a=op(cb.getCalledOperand());
		break; }
	default: break;
	}
	fn->code.push_back(std::move(d));
}

// ------------------------------------------------------------------ execution
static inline Val getV(const Frame& f, const Opnd& o, unsigned leaf=0) { if (o.reg>=0) return f.r[o.reg+leaf]; if (o.agg) return Val((*o.agg)[leaf]); return Val(o.c); }

static void takeEdge(Frame& f, const Edge& e)
{
	if (!e.phis.empty()) {
		std::vector<Val> tmp; for (auto& p : e.phis) for (unsigned l=0;l<p.second.n;++l) tmp.push_back(getV(f,p.second,l));
		size_t k=0; for (auto& p : e.phis) for (unsigned l=0;l<p.second.n;++l) f.r[p.first+l]=tmp[k++];
	}
	f.pc=f.fn->blockStart[e.target];
}
static void popStackObjs(State& s, uint32_t mark) { for (uint32_t i=mark;i<s.stk.n;++i) s.stk.put(i,nullptr); s.stk.n=mark; }

static const GlobalVariable* g_tiByAddrGet(uint64_t a) { for (auto& p : g_gaddr) if (p.second==a) return dyn_cast<GlobalVariable>(p.first); return nullptr; }
static std::unordered_map<uint64_t,const GlobalVariable*> g_tiMemo;
static bool tiMatch(uint64_t thrown, uint64_t clause)
{
	if (!clause || thrown==clause) return true;
	auto it=g_tiMemo.find(thrown); const GlobalVariable* g; if (it!=g_tiMemo.end()) g=it->second; else g=g_tiMemo[thrown]=g_tiByAddrGet(thrown);
	if (!g || !g->hasInitializer()) return false;
	auto* cs=dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return false;
	for (unsigned i=2;i<cs->getNumOperands();++i) { auto* o=cs->getOperand(i); if (o->getType()->isPointerTy()) { if (tiMatch(constScalar(o),clause)) return true; } }
	return false;
}
static std::string tiName(uint64_t t) { auto* g=g_tiByAddrGet(t); return g?demangle(g->getName().str()):"?"; }

static void unwind(State& s, uint64_t obj, uint64_t ti)
{
	// phase 1: find a handler
	bool found=false;
	for (int i=(int)s.st.size()-1;i>=0&&!found;--i) {
		if (i+1<(int)s.st.size() && s.st[i+1]->tryMark) { violationHere(s,"uncaught","exception "+tiName(ti)+" leaves a function called by Lua"); return; }
		const Frame& f=*s.st[i]; const DI& d=f.fn->code[f.pc]; if (d.k!=DInvoke) continue;
		const DI& lp=f.fn->code[f.fn->blockStart[d.e2.target]]; if (lp.k!=DLandingPad) continue;
		for (auto& c : lp.clauses) { if (c.first==0 && tiMatch(ti,c.second)) found=true; if (c.first==1) { bool ok=false; for (uint64_t x : lp.filters[c.second]) if (tiMatch(ti,x)) ok=true; if (!ok) found=true; } }
	}
	if (!found) { violationHere(s,"uncaught","uncaught exception "+tiName(ti)); return; }
	for (;;) {
		Frame& f=top(s); const DI& d=f.fn->code[f.pc];
		if (d.k==DInvoke) {
			const DI& lp=f.fn->code[f.fn->blockStart[d.e2.target]];
			bool land=lp.cleanup; uint64_t sel=0;
			for (auto& c : lp.clauses) { if (c.first==0 && tiMatch(ti,c.second)) { land=true; sel=c.second; if (!sel) sel=1; break; } if (c.first==1) { bool ok=false; for (uint64_t x : lp.filters[c.second]) if (tiMatch(ti,x)) ok=true; if (!ok) { land=true; sel=(uint64_t)-1; break; } } }
			if (land) { takeEdge(f,d.e2); const DI& l2=f.fn->code[f.pc]; f.r[l2.dst]=Val(obj); f.r[l2.dst+1]=Val((sel>>12)&0xffffffffu); f.pc++; return; }
		}
		popStackObjs(s,f.stackMark); s.st.pop_back();
		if (s.st.empty()) { g_end=true; return; }
	}
}
static uint64_t tiOfExc(State& s, uint64_t obj) { for (auto it=s.live.rbegin();it!=s.live.rend();++it) if (it->obj==obj) return it->tinfo; return 0; }

static void pushFrame(State& s, Fn* fn, std::vector<Val>&& args, const std::vector<uint16_t>* leavesPer, const DI* call)
{
	decodeFn(fn); fn->executed=true; fn->calls++;
	if (s.st.size()>optMaxStack) { violationHere(s,"stackoverflow","recursion depth exceeds "+std::to_string(optMaxStack)+" frames"); return; }
	FrameP f=std::make_shared<Frame>(); f->fn=fn; f->pc=0; f->r.resize(fn->nregs); f->stackMark=s.stk.n;
	size_t k=0; size_t total=0; for (auto& a : fn->args) total+=a.second;
	for (; k<total && k<args.size(); ++k) f->r[k]=args[k];
	if (fn->vararg && call) {
		size_t leaf=0; for (size_t j=0;j<call->ops.size();++j) { for (unsigned l=0;l<call->ops[j].n;++l,++leaf) if (j>=fn->args.size()) f->va.push_back({args[leaf],call->opw[j]}); }
	}
	if (call) { size_t leaf=0; for (size_t j=0;j<call->ops.size();++j) { if (call->byval[j]) { // copy
			uint64_t src=args[leaf].c; uint32_t n=call->byval[j]; int64_t ofs; Obj* so=access(s,src,n,false,ofs); if (!so) return; ObjP no=std::make_shared<Obj>(n,OStack,ANone,0); memcpy(no->b,so->b+ofs,n); if (so->s) { no->needSym(); memcpy(no->s,so->s+ofs,n*sizeof(E)); }
			uint32_t id=s.stk.n; s.stk.put(id,no); if (leaf<f->r.size()) f->r[leaf]=Val(STACKBIT|((uint64_t)id<<SLOT)|BASEOFS); } leaf+=call->ops[j].n; } }
	s.st.push_back(f);
}
static void setRet(Frame& f, const DI& d, const Val& v) { if (d.dst>=0) f.r[d.dst]=v; }
static void advanceCall(Frame& f, const DI& d) { if (d.k==DInvoke) takeEdge(f,d.e1); else f.pc++; }

static std::string cstrAt(State& s, uint64_t a) { std::string r; for (int i=0;i<400;++i) { int64_t o; Space* sp; uint32_t id; if (!locate(s,a+i,sp,id,o)) break; const ObjP& ob=sp->get(id); if (o<0||o>=ob->size) break; if (ob->s&&ob->s[o]) { r+="?"; continue; } if (!ob->b[o]) break; r+=(char)ob->b[o]; } return r; }

static void copyMem(State& s, uint64_t dst, uint64_t src, uint64_t n)
{
	std::vector<uint8_t> tb(n); std::vector<E> ts;
	for (uint64_t i=0,m; i<n; i+=m)
	{
		m=contiguous(s,src+i,n-i); int64_t so; Obj* a=access(s,src+i,m,false,so); if (!a) return;
		memcpy(tb.data()+i,a->b+so,m); if (a->s) { ts.resize(n,nullptr); memcpy(ts.data()+i,a->s+so,m*sizeof(E)); }
	}
	bool any=false; for (E e : ts) if (e) { any=true; break; }
	for (uint64_t i=0,m; i<n; i+=m)
	{
		m=contiguous(s,dst+i,n-i); int64_t dof; Obj* b=access(s,dst+i,m,true,dof); if (!b) return;
		memcpy(b->b+dof,tb.data()+i,m);
		if (any) { b->needSym(); memcpy(b->s+dof,ts.data()+i,m*sizeof(E)); } else if (b->s) memset(b->s+dof,0,m*sizeof(E));
	}
}
static void doFree(State& s, uint64_t a, AllocKind k, const char* fn)
{
	if (!a) return; Space* sp; uint32_t id; int64_t ofs;
	if (!locate(s,a,sp,id,ofs) || sp->get(id)->kind!=OHeap || ofs!=0) { violationHere(s,"memory",std::string("invalid ")+fn+" of "+addrStr(s,a)); return; }
	if (sp->get(id)->freed) { violationHere(s,"memory",std::string("double free by ")+fn+": "+addrStr(s,a)); return; }
	if (sp->get(id)->ak!=k) { violationHere(s,"memory",std::string("allocation/deallocation mismatch in ")+fn); return; }
	if (uint32_t l=sp->get(id)->large) { uint32_t pg=sp->get(id)->pages, np=(l+PAGE-1)/PAGE; for (uint32_t i=0;i<np;++i) if (sp->get(pg+i)) sp->put(pg+i,nullptr); for (uint32_t i=id+1;i<pg;++i) sp->wr(i)->freed=true; }
	ObjP o=std::make_shared<Obj>(0,OHeap,k,0); o->size=sp->get(id)->size; o->freed=true; free(o->b); o->b=(uint8_t*)malloc(1);
	// freed objects keep only their size
	struct Tmp{}; o->size=0; sp->put(id,o);
}

static bool checkAssert(State& s, E c, const std::string& msg)
{
	g_asserts++;
	c=subst(c,s);
	if (c->k==EConst) { if (!c->c) { violationHere(s,"assert",msg); return false; } return true; }
	g_assertQ++;
	Model m;
	if (!evalExpr(c,s.model)) { report(s,s.model,"assert",msg); }
	else { SatRes r=query(s,mkNot(c),m); if (r==SatUnknown) { g_incomplete=true; g_incompleteWhy="solver returned unknown on assertion: "+msg; } else if (r==SatYes) { report(s,m,"assert",msg); } else { return true; } }
	// continue on the side where the assertion holds, if any
	SatRes r=query(s,c,m); if (r==SatYes) { s.model=m; addCons(s,c); return true; }
	endPath(s,false); return false;
}

static E bsrExpr(E x) { E r=mkConst(0,x->w); for (unsigned i=0;i<x->w;++i) r=mkIte(mkCmp(EEq,mkExtract(x,i,1),g_true),mkConst(i,x->w),r); return r; }

static void doNative(State& s, const DI& d, int nat)
{
	Frame& f=top(s);
	std::vector<Val> a; for (auto& o : d.ops) for (unsigned l=0;l<o.n;++l) a.push_back(getV(f,o,l));
	auto C=[&](int i, unsigned w=64)->uint64_t { return concretize(s,a[i],w,"native argument"); };
	Val rv; 
	switch (nat) {
	case N_malloc: case N_new: case N_newarr: { uint64_t n=C(0); if (g_end) return; uint64_t p=allocObj(s,n,OHeap,nat==N_malloc?AMalloc:nat==N_new?ANew:ANewArr,0xCD); if (g_end) return; rv=Val(p); break; }
	case N_calloc: { uint64_t n=C(0),m=C(1); if (g_end) return; rv=Val(allocObj(s,n*m,OHeap,AMalloc,0)); if (g_end) return; break; }
	case N_realloc: { uint64_t p=C(0),n=C(1); if (g_end) return; uint64_t q=allocObj(s,n,OHeap,AMalloc,0xCD); if (g_end) return; if (p) { Space* sp; uint32_t id; int64_t ofs; if (!locate(s,p,sp,id,ofs)||sp->get(id)->freed) { violationHere(s,"memory","realloc of invalid pointer"); return; } copyMem(s,q,p,std::min<uint64_t>(n,sp->get(id)->size)); if (g_end) return; doFree(s,p,AMalloc,"realloc"); if (g_end) return; } rv=Val(q); break; }
	case N_alalloc: { uint64_t n=C(1); if (g_end) return; uint64_t p=allocObj(s,n,OHeap,AMalloc,0xCD); if (g_end) return; rv=Val(p); break; }
	case N_free: doFree(s,C(0),AMalloc,"free"); if (g_end) return; break;
	case N_del: doFree(s,C(0),ANew,"operator delete"); if (g_end) return; break;
	case N_delarr: doFree(s,C(0),ANewArr,"operator delete[]"); if (g_end) return; break;
	case N_memcpy: case N_memmove: { uint64_t n=C(2),x=C(0),y=C(1); if (g_end) return; copyMem(s,x,y,n); if (g_end) return; rv=a[0]; break; }
	case N_memset: { uint64_t n=C(2),x=C(0); if (g_end) return; while (n) { uint64_t m=contiguous(s,x,n); int64_t ofs; Obj* o=access(s,x,m,true,ofs); if (!o) return; Val v=a[1]; if (v.e) v=Val(mkExtract(v.e,0,8)); for (uint64_t i=0;i<m;++i) writeObj(o,ofs+i,8,v); n-=m; x+=m; } rv=a[0]; break; }
	case N_memcmp: case N_bcmp: { uint64_t n=C(2),x=C(0),y=C(1); if (g_end) return; if (n) { int64_t o1,o2; Obj* p=access(s,x,n,false,o1); if (!p) return; Obj* q=access(s,y,n,false,o2); if (!q) return;
			if (!p->s && !q->s) { int r=memcmp(p->b+o1,q->b+o2,n); rv=Val((uint64_t)(uint32_t)(r<0?-1:r>0?1:0)); }
			else { E r=mkConst(0,32); for (int64_t i=(int64_t)n-1;i>=0;--i) { E u=toE(readObj(p,o1+i,8),8), v=toE(readObj(q,o2+i,8),8); E diff = nat==N_bcmp? mkConst(1,32) : mkIte(mkCmp(EUlt,u,v),mkConst(0xffffffffu,32),mkConst(1,32)); r=mkIte(mkCmp(EEq,u,v),r,diff); } rv=Val(r); } } break; }
	case N_strlen: { uint64_t x=C(0); if (g_end) return; for (uint64_t i=0;;++i) { int64_t ofs; Obj* o=access(s,x+i,1,false,ofs); if (!o) return; Val v=readObj(o,ofs,8); if (!v.e) { if (!v.c) { rv=Val(i); break; } } else { if (decide(s,mkCmp(EEq,v.e,mkConst(0,8)))) { rv=Val(i); break; } } } break; }
	case N_alloc_exc: rv=Val(allocObj(s,C(0),OHeap,ANone,0)); if (g_end) return; break;
	case N_free_exc: break;
	case N_throw: { uint64_t o=C(0),t=C(1); s.live.push_back({o,t}); unwind(s,o,t); return; }
	case N_begin_catch: { uint64_t o=C(0); s.caught.push_back({o,tiOfExc(s,o)}); rv=Val(o); break; }
	case N_end_catch: { if (!s.caught.empty()) s.caught.pop_back(); break; }
	case N_rethrow: { if (s.caught.empty()) { violationHere(s,"abort","rethrow without exception"); return; } Exc e=s.caught.back(); unwind(s,e.obj,e.tinfo); return; }
	case N_abort: violationHere(s,"abort","abort called"); return;
	case N_exit: endPath(s,true); return;
	case N_terminate: violationHere(s,"abort","std::terminate called"); return;
	case N_purevirt: violationHere(s,"abort","pure virtual call"); return;
	case N_assertfail: violationHere(s,"abort","assertion failed: "+cstrAt(s,a[0].c)); return;
	case N_dyncast: rv=a[0]; break;
	case N_nop: case N_ret0: break;
	case N_typeid: { uint64_t t=a[0].c; if (!t) t=1; rv=Val((t>>12)&0xffffffffu); break; }
	case N_vastart: {
		uint64_t n=f.va.size(); uint64_t area=0; { ObjP o=std::make_shared<Obj>((uint32_t)(8*n+8),OStack,ANone,0); uint32_t id=s.stk.n; s.stk.put(id,o); area=STACKBIT|((uint64_t)id<<SLOT)|BASEOFS; Obj* ob=s.stk.wr(id); for (uint64_t i=0;i<n;++i) { Val v=f.va[i].first; if (v.e&&v.e->w<64) v=Val(mkZExt(v.e,64)); writeObj(ob,8*i,64,v); } }
		uint64_t p=a[0].c; storeVal(s,Val(p),32,Val((uint64_t)48)); if (g_end) return; storeVal(s,Val(p+4),32,Val((uint64_t)176)); storeVal(s,Val(p+8),64,Val(area)); storeVal(s,Val(p+16),64,Val((uint64_t)0)); break; }
	case N_floor: case N_ceil: if (a[0].e) rv=Val(mkFUn(nat==N_floor?EFFloor:EFCeil,a[0].e,64)); else rv=Val(fromD(nat==N_floor?floor(asD(a[0].c)):ceil(asD(a[0].c)))); break;
	case N_sx_fmtd: { // (buffer, size, conversion, precision, value): prints a number as the C library does
		uint64_t bp=C(0),cap=C(1),cv=C(2); int pr=(int)C(3); uint64_t v=C(4); if (g_end) return; char f[8]={'%','.','*',(char)cv,0},t[512]; int n=snprintf(t,sizeof t,f,pr,asD(v)); if (n<0||(uint64_t)n>=sizeof t) { engineError(s,"sx_fmtd"); return; }
		for (int i=0;i<=n && (uint64_t)i<cap;++i) { storeVal(s,Val(bp+i),8,Val((uint64_t)(uint8_t)t[i])); if (g_end) return; } rv=Val((uint64_t)n); break; }
	case N_strtod: {
		uint64_t x=C(0),ep=C(1); if (g_end) return; std::string t; for (int i=0;i<400;++i) { Val v=loadVal(s,Val(x+i),8); if (g_end) return; uint64_t c=concretize(s,v,8,"strtod"); if (g_end) return; if (!c) break; t+=(char)c; }
		char* e=nullptr; double d=strtod(t.c_str(),&e); if (ep) { storeVal(s,Val(ep),64,Val(x+(uint64_t)(e-t.c_str()))); if (g_end) return; } rv=Val(fromD(d)); break; }
	case N_vacopy: copyMem(s,a[0].c,a[1].c,24); if (g_end) return; break;
	case N_sx_sym: { uint64_t p=C(0),n=C(1); std::string nm=cstrAt(s,C(2)); int k=s.symCount[nm]++; if (k) nm+="."+std::to_string(k); SymRec sr; sr.name=nm; sr.nbytes=n; int64_t ofs; if (!n) { s.syms.push_back(sr); break; } Obj* o=access(s,p,n,true,ofs); if (!o) return;
		if (n==1||n==2||n==4||n==8) { E v=mkVar(nm,8*n); sr.vars.push_back(v); writeObj(o,ofs,8*n,Val(v)); }
		else for (uint64_t i=0;i<n;++i) { E v=mkVar(nm+"["+std::to_string(i)+"]",8); sr.vars.push_back(v); writeObj(o,ofs+i,8,Val(v)); }
		if (g_varNames.size()>=250) { engineError(s,"too many symbolic variables"); return; }
		if (s.model.size()<g_varNames.size()) s.model.resize(g_varNames.size(),0);
		s.syms.push_back(sr); break; }
	case N_sx_assume: { Val v=a[0]; if (!v.e) { if (!v.c) { g_assumeDrop++; g_end=true; return; } break; }
		E c=v.e; if (c->w>1) c=mkNot(mkCmp(EEq,c,mkConst(0,c->w))); c=subst(c,s); if (c->k==EConst) { if (!c->c) { g_assumeDrop++; g_end=true; return; } break; }
		if (!evalExpr(c,s.model)) { Model m; SatRes r=query(s,c,m); if (r!=SatYes) { if (r==SatUnknown) { g_incomplete=true; g_incompleteWhy="unknown in assume"; } g_assumeDrop++; g_end=true; return; } s.model=m; }
		addCons(s,c); break; }
	case N_sx_assert: { std::string msg=cstrAt(s,C(1)); Val v=a[0]; E c=v.e? (v.e->w>1?mkNot(mkCmp(EEq,v.e,mkConst(0,v.e->w))):v.e) : mkConst(v.c!=0,1); if (!checkAssert(s,c,msg)) return; break; }
	case N_sx_reach: s.reached.insert(cstrAt(s,C(0))); break;
	case N_sx_expect: g_declared.insert(cstrAt(s,C(0))); break;
	case N_sx_arg: { uint64_t i=C(0,32); rv=Val((uint64_t)(int64_t)(i<optArgs.size()?optArgs[i]:0)); break; }
	case N_sx_conc: { uint64_t x=C(0); if (g_end) return; rv=Val(x); break; }
	case N_sx_print: { std::string t=cstrAt(s,C(0)); if (a[1].e) fprintf(stderr,"[sx] %s %s (e.g. %llu)\n",t.c_str(),exprStr(a[1].e,8).c_str(),(unsigned long long)evalExpr(a[1].e,s.model)); else fprintf(stderr,"[sx] %s %lld\n",t.c_str(),(long long)a[1].c); break; }
	case N_sx_issym: rv=Val((uint64_t)(a[0].e!=nullptr)); break;
	case N_sx_note: s.note=cstrAt(s,C(0)); break;
	case N_sx_trycall: { uint64_t p=C(0); if (g_end) return; auto it=g_faddr.find(p); if (it==g_faddr.end()) { violationHere(s,"memory","call through invalid function pointer: "+addrStr(s,p)); return; }
		std::vector<Val> v; v.push_back(a[1]); pushFrame(s,getFn(it->second),std::move(v),nullptr,nullptr); if (g_end) return; top(s).tryMark=true; top(s).caughtMark=(uint32_t)s.caught.size(); return; }
	case N_sx_longjmp: { Val code=a[0]; bool any=false; for (auto& p : s.st) if (p->tryMark) any=true; for (;;) { if (!any) { violationHere(s,"abort","error outside of a protected call"); return; } Frame& t=top(s); bool m=t.tryMark; if (m && s.caught.size()>t.caughtMark) s.caught.resize(t.caughtMark); popStackObjs(s,t.stackMark); s.st.pop_back(); if (m) break; }
		Frame& g=top(s); const DI& c=g.fn->code[g.pc]; setRet(g,c,code); advanceCall(g,c); return; }
	case N_sx_heaplive: { uint64_t n=0; for (uint32_t i=0;i<s.heap.n;++i) { auto& o=s.heap.get(i); if (o&&o->kind==OHeap&&!o->freed&&o->ak!=ANone) ++n; } rv=Val(n); break; }
	default: engineError(s,"native "+std::to_string(nat)); return;
	}
	if (g_end) return;
	if (rv.e && d.dst>=0 && d.w<64 && rv.e->w!=d.w) rv=Val(mkExtract(rv.e,0,d.w));
	if (!rv.e && d.w && d.w<64) rv.c&=maskw(d.w);
	Frame& f2=top(s); setRet(f2,d,rv); advanceCall(f2,d);
}

static Val binop(EK k, unsigned w, const Val& a, const Val& b)
{
	if (!a.e && !b.e) return Val(foldOp(k,w,w,a.c,b.c,0,0));
	return Val(mkBin(k,toE(a,w),toE(b,w)));
}
static Val cmpop(EK k, unsigned w, const Val& a, const Val& b)
{
	if (!a.e && !b.e) return Val(foldOp(k,1,w,a.c,b.c,0,0));
	return Val(mkCmp(k,toE(a,w),toE(b,w)));
}
static Val notv(const Val& v) { if (!v.e) return Val((uint64_t)!v.c); return Val(mkNot(v.e)); }
static Val andv(const Val& a, const Val& b) { return binop(EAnd,1,a,b); }
static Val orv(const Val& a, const Val& b) { return binop(EOr,1,a,b); }
static Val icmp(int p, unsigned w, const Val& a, const Val& b)
{
	switch (p) {
	case CmpInst::ICMP_EQ: return cmpop(EEq,w,a,b); case CmpInst::ICMP_NE: return notv(cmpop(EEq,w,a,b));
	case CmpInst::ICMP_ULT: return cmpop(EUlt,w,a,b); case CmpInst::ICMP_ULE: return cmpop(EUle,w,a,b);
	case CmpInst::ICMP_UGT: return cmpop(EUlt,w,b,a); case CmpInst::ICMP_UGE: return cmpop(EUle,w,b,a);
	case CmpInst::ICMP_SLT: return cmpop(ESlt,w,a,b); case CmpInst::ICMP_SLE: return cmpop(ESle,w,a,b);
	case CmpInst::ICMP_SGT: return cmpop(ESlt,w,b,a); case CmpInst::ICMP_SGE: return cmpop(ESle,w,b,a);
	}
	return Val();
}
static Val fcmp(int p, unsigned w, const Val& a, const Val& b)
{
	auto oeq=[&]{return cmpop(EFOeq,w,a,b);}; auto olt=[&]{return cmpop(EFOlt,w,a,b);}; auto ole=[&]{return cmpop(EFOle,w,a,b);}; auto ogt=[&]{return cmpop(EFOlt,w,b,a);}; auto oge=[&]{return cmpop(EFOle,w,b,a);}; auto uno=[&]{return cmpop(EFUno,w,a,b);};
	switch (p) {
	case CmpInst::FCMP_FALSE: return Val((uint64_t)0); case CmpInst::FCMP_TRUE: return Val((uint64_t)1);
	case CmpInst::FCMP_OEQ: return oeq(); case CmpInst::FCMP_OGT: return ogt(); case CmpInst::FCMP_OGE: return oge(); case CmpInst::FCMP_OLT: return olt(); case CmpInst::FCMP_OLE: return ole();
	case CmpInst::FCMP_ONE: return orv(olt(),ogt()); case CmpInst::FCMP_ORD: return notv(uno()); case CmpInst::FCMP_UNO: return uno();
	case CmpInst::FCMP_UEQ: return notv(orv(olt(),ogt())); case CmpInst::FCMP_UGT: return notv(ole()); case CmpInst::FCMP_UGE: return notv(olt()); case CmpInst::FCMP_ULT: return notv(oge()); case CmpInst::FCMP_ULE: return notv(ogt()); case CmpInst::FCMP_UNE: return notv(oeq());
	}
	return Val();
}
static Val castv(int opc, unsigned w, unsigned w2, const Val& a)
{
	switch (opc) {
	case Instruction::Trunc: return a.e?Val(mkExtract(a.e,0,w)):Val(a.c&maskw(w));
	case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
		if (!a.e) return Val(a.c&maskw(w)); if (w>w2) return Val(mkZExt(a.e,w)); if (w<w2) return Val(mkExtract(a.e,0,w)); return a;
	case Instruction::SExt: return a.e?Val(mkSExt(a.e,w)):Val((uint64_t)sx(a.c,w2)&maskw(w));
	case Instruction::FPTrunc: return a.e?Val(mkFUn(EFPTrunc,a.e,w)):Val(foldOp(EFPTrunc,w,w2,a.c,0,0,0));
	case Instruction::FPExt: return a.e?Val(mkFUn(EFPExt,a.e,w)):Val(foldOp(EFPExt,w,w2,a.c,0,0,0));
	case Instruction::FPToUI: return a.e?Val(mkFUn(EFPToUI,a.e,w)):Val(foldOp(EFPToUI,w,w2,a.c,0,0,0));
	case Instruction::FPToSI: return a.e?Val(mkFUn(EFPToSI,a.e,w)):Val(foldOp(EFPToSI,w,w2,a.c,0,0,0));
	case Instruction::UIToFP: return a.e?Val(mkFUn(EUIToFP,a.e,w)):Val(foldOp(EUIToFP,w,w2,a.c,0,0,0));
	case Instruction::SIToFP: return a.e?Val(mkFUn(ESIToFP,a.e,w)):Val(foldOp(ESIToFP,w,w2,a.c,0,0,0));
	}
	return Val();
}
static State* g_selState=nullptr;
static Val selv(const Val& c, const Val& a, const Val& b, unsigned w) { if (!c.e) return c.c?a:b; if (g_selState) { int k=known(*g_selState,c.e); if (k>=0) return k?a:b; } if (!a.e&&!b.e&&a.c==b.c) return a; return Val(mkIte(c.e,toE(a,w),toE(b,w))); }

static void doIntr(State& s, const DI& d)
{
	Frame& f=top(s); std::vector<Val> a; for (auto& o : d.ops) for (unsigned l=0;l<o.n;++l) a.push_back(getV(f,o,l));
	unsigned w=d.w2; Val r; bool two=false; Val r2;
	switch (d.op) {
	case I_memcpy: { uint64_t n=concretize(s,a[2],d.opw[2],"memcpy size"); if (g_end) return; uint64_t x=concretize(s,a[0],64,"memcpy dst"); if (g_end) return; uint64_t y=concretize(s,a[1],64,"memcpy src"); if (g_end) return; copyMem(s,x,y,n); if (g_end) return; break; }
	case I_memset: { uint64_t n=concretize(s,a[2],d.opw[2],"memset size"); if (g_end) return; uint64_t x=concretize(s,a[0],64,"memset dst"); if (g_end) return; while (n) { uint64_t m=contiguous(s,x,n); int64_t ofs; Obj* o=access(s,x,m,true,ofs); if (!o) return; if (!a[1].e && !o->s) memset(o->b+ofs,(int)a[1].c,m); else for (uint64_t i=0;i<m;++i) writeObj(o,ofs+i,8,a[1]); n-=m; x+=m; } break; }
	case I_umin: r=selv(cmpop(EUlt,w,a[0],a[1]),a[0],a[1],w); break; case I_umax: r=selv(cmpop(EUlt,w,a[0],a[1]),a[1],a[0],w); break;
	case I_smin: r=selv(cmpop(ESlt,w,a[0],a[1]),a[0],a[1],w); break; case I_smax: r=selv(cmpop(ESlt,w,a[0],a[1]),a[1],a[0],w); break;
	case I_usubsat: r=selv(cmpop(EUlt,w,a[0],a[1]),Val((uint64_t)0),binop(ESub,w,a[0],a[1]),w); break;
	case I_uaddsat: { Val t=binop(EAdd,w,a[0],a[1]); r=selv(cmpop(EUlt,w,t,a[0]),Val(maskw(w)),t,w); break; }
	case I_abs: r=selv(cmpop(ESlt,w,a[0],Val((uint64_t)0)),binop(ESub,w,Val((uint64_t)0),a[0]),a[0],w); break;
	case I_ctlz: if (!a[0].e) r=Val(a[0].c? (uint64_t)(__builtin_clzll(a[0].c)-(64-w)) : w); else { E x=a[0].e; E v=mkConst(w,w); for (unsigned i=0;i<w;++i) v=mkIte(mkExtract(x,i,1),mkConst(w-1-i,w),v); r=Val(v); } break;
	case I_cttz: if (!a[0].e) r=Val(a[0].c? (uint64_t)__builtin_ctzll(a[0].c) : w); else { E x=a[0].e; E v=mkConst(w,w); for (int i=w-1;i>=0;--i) v=mkIte(mkExtract(x,i,1),mkConst(i,w),v); r=Val(v); } break;
	case I_ctpop: if (!a[0].e) r=Val((uint64_t)__builtin_popcountll(a[0].c)); else { E x=a[0].e; E v=mkConst(0,w); for (unsigned i=0;i<w;++i) v=mkBin(EAdd,v,mkZExt(mkExtract(x,i,1),w)); r=Val(v); } break;
	case I_bswap: { Val v=a[0]; if (!v.e) { uint64_t x=0; for (unsigned i=0;i<w/8;++i) x|=((v.c>>(8*i))&0xff)<<(w-8-8*i); r=Val(x); } else { E x=mkExtract(v.e,0,8); for (unsigned i=1;i<w/8;++i) x=mkConcat(x,mkExtract(v.e,8*i,8)); r=Val(x); } break; }
	case I_fshl: case I_fshr: { Val sh=binop(EURem,w,a[2],Val((uint64_t)w)); Val inv=binop(ESub,w,Val((uint64_t)w),sh); Val z=cmpop(EEq,w,sh,Val((uint64_t)0));
		if (d.op==I_fshl) r=selv(z,a[0],binop(EOr,w,binop(EShl,w,a[0],sh),binop(ELShr,w,a[1],inv)),w); else r=selv(z,a[1],binop(EOr,w,binop(ELShr,w,a[1],sh),binop(EShl,w,a[0],inv)),w); break; }
	case I_uaddo: r=binop(EAdd,w,a[0],a[1]); r2=cmpop(EUlt,w,r,a[0]); two=true; break;
	case I_usubo: r=binop(ESub,w,a[0],a[1]); r2=cmpop(EUlt,w,a[0],a[1]); two=true; break;
	case I_umulo: { r=binop(EMul,w,a[0],a[1]); if (!a[0].e&&!a[1].e) { unsigned __int128 p=(unsigned __int128)a[0].c*a[1].c; r2=Val((uint64_t)((p>>w)!=0)); } else { Val q=binop(EUDiv,w,r,a[1]); r2=andv(notv(cmpop(EEq,w,a[1],Val((uint64_t)0))),notv(cmpop(EEq,w,q,a[0]))); } two=true; break; }
	case I_saddo: { r=binop(EAdd,w,a[0],a[1]); Val x=binop(EAnd,w,binop(EXor,w,a[0],r),binop(EXor,w,a[1],r)); r2=cmpop(ESlt,w,x,Val((uint64_t)0)); two=true; break; }
	case I_ssubo: { r=binop(ESub,w,a[0],a[1]); Val x=binop(EAnd,w,binop(EXor,w,a[0],a[1]),binop(EXor,w,a[0],r)); r2=cmpop(ESlt,w,x,Val((uint64_t)0)); two=true; break; }
	case I_smulo: { if (w<=32) { E x=mkSExt(toE(a[0],w),64),y=mkSExt(toE(a[1],w),64); E p=mkBin(EMul,x,y); r=Val(mkExtract(p,0,w)); r2=notv(Val(mkCmp(EEq,mkSExt(mkExtract(p,0,w),64),p))); } else { if (a[0].e||a[1].e) { engineError(s,"smul.with.overflow i64"); return; } __int128 p=(__int128)(int64_t)a[0].c*(int64_t)a[1].c; r=Val((uint64_t)p); r2=Val((uint64_t)((__int128)(int64_t)p!=p)); } two=true; break; }
	case I_expect: r=a[0]; break;
	case I_fabs: r=binop(EAnd,w,a[0],Val(maskw(w-1))); break;
	case I_fmuladd: r=binop(EFAdd,w,binop(EFMul,w,a[0],a[1]),a[2]); break;
	case I_floor: case I_ceil: case I_trunc: if (a[0].e) { r=Val(mkFUn(d.op==I_floor?EFFloor:d.op==I_ceil?EFCeil:EFTrunc,a[0].e,w)); break; } if (w==64) { double x=asD(a[0].c); r=Val(fromD(d.op==I_floor?floor(x):d.op==I_ceil?ceil(x):trunc(x))); } else { float x=asF(a[0].c); r=Val(fromF(d.op==I_floor?floorf(x):d.op==I_ceil?ceilf(x):truncf(x))); } break;
	case I_fmin: r=selv(cmpop(EFOlt,w,a[0],a[1]),a[0],a[1],w); break; case I_fmax: r=selv(cmpop(EFOlt,w,a[0],a[1]),a[1],a[0],w); break;
	case I_trap: violationHere(s,"abort","trap executed"); return;
	case I_objsize: r=Val(maskw(d.w)); break;
	case I_stacksave: r=Val((uint64_t)0); break;
	case I_isconst: r=Val((uint64_t)0); break;
	default: engineError(s,"intrinsic"); return;
	}
	Frame& f2=top(s); if (d.dst>=0) { f2.r[d.dst]=r; if (two) f2.r[d.dst+1]=r2; }
	if (d.inst && isa<InvokeInst>(d.inst)) takeEdge(f2,d.e1); else f2.pc++;
}

static void doCall(State& s, const DI& d)
{
	if (d.native>=0) { doNative(s,d,d.native); return; }
	Frame& f=top(s); Fn* fn=d.fn;
	if (!fn) { Val t=getV(f,d.a); uint64_t a=concretize(s,t,64,"function pointer"); if (g_end) return; auto it=g_faddr.find(a); if (it==g_faddr.end()) { violationHere(s,"memory","call through invalid function pointer: "+addrStr(s,a)); return; }
		auto nit=g_nat.find(it->second->getName().str()); if (nit!=g_nat.end()) { doNative(s,d,nit->second); return; } fn=getFn(it->second); }
	if (fn->f->isDeclaration()) { engineError(s,"call of external function "+demangle(fn->name)+" ("+fn->name+")"); return; }
	std::vector<Val> a; a.reserve(8); for (auto& o : d.ops) for (unsigned l=0;l<o.n;++l) a.push_back(getV(f,o,l));
	for (size_t j=0,leaf=0;j<d.ops.size();++j) { if (d.byval[j] && a[leaf].e) a[leaf]=Val(concretize(s,a[leaf],64,"byval")); leaf+=d.ops[j].n; if (g_end) return; }
	pushFrame(s,fn,std::move(a),nullptr,&d);
}

static void step(State& s);
// A conditional store of a byte without a fork: what is stored is an expression of the condition (only if the address is fixed and valid)
static bool mergeStore(State& s, const DI& d, const Val& c)
{
	int B=d.imm==1?d.e1.target:d.e2.target; Fn* fn=top(s).fn; int pc=fn->blockStart[B], sp=pc; while (fn->code[sp].k!=DStore) { if (fn->code[sp].k==DBr) return false; ++sp; }
	if (known(s,c.e)>=0) return false;
	Val a=getV(top(s),fn->code[sp].b); if (a.e) return false;
	Space* spc; uint32_t id; int64_t ofs; if (!locate(s,a.c,spc,id,ofs)) return false;
	{ const ObjP& o=spc->get(id); if (o->freed || o->large || o->alias || o->ro || ofs<0 || (uint64_t)ofs>=o->size) return false; }
	Frame& f=top(s); f.pc=pc;
	while (f.pc!=sp) { int at=f.pc; step(s); if (g_end || f.pc!=at+1) { engineError(s,"merge of a conditional store"); return true; } }
	const DI& st=fn->code[sp]; Obj* o=spc->wr(id); Val old=readObj(o,ofs,8), nv=getV(f,st.a); writeObj(o,ofs,8,d.imm==1?selv(c,nv,old,8):selv(c,old,nv,8)); f.pc=sp+1; g_merges++;
	while (fn->code[f.pc].k!=DBr) { int at=f.pc; step(s); if (g_end || f.pc!=at+1) { engineError(s,"merge of a conditional store"); return true; } }
	takeEdge(f,fn->code[f.pc].e1); return true;
}
static void step(State& s)
{ g_selState=&s;
	Frame& f=top(s); const DI& d=f.fn->code[f.pc];
	if (g_locRepo[d.loc]) { g_locHit[d.loc]=1; } if (optProfile) f.fn->steps++;
	if (optTrace) fprintf(stderr,"T %s:%u %s\n",g_locs[d.loc].first.c_str(),g_locs[d.loc].second,d.inst->getOpcodeName());
	switch (d.k) {
	case DBin: {
		EK k=(EK)d.op;
		for (unsigned l=0;l<d.nd;++l) {
		Val a=getV(f,d.a,l), b=getV(f,d.b,l);
		if ((k==EUDiv||k==ESDiv||k==EURem||k==ESRem)) { if (!b.e) { if (!b.c) { violationHere(s,"arith","division by zero"); return; } } else if (decide(s,mkCmp(EEq,b.e,mkConst(0,d.w)))) { violationHere(s,"arith","division by zero"); return; } }
		top(s).r[d.dst+l]=binop(k,d.w,a,b); }
		top(s).pc++; return; }
	case DFNeg: for (unsigned l=0;l<d.nd;++l) f.r[d.dst+l]=binop(EXor,d.w,getV(f,d.a,l),Val(1ull<<(d.w-1))); f.pc++; return;
	case DCmp: for (unsigned l=0;l<d.nd;++l) { Val a=getV(f,d.a,l), b=getV(f,d.b,l); f.r[d.dst+l]= d.isSigned? fcmp((int)d.imm,d.w2,a,b) : icmp((int)d.imm,d.w2,a,b); } f.pc++; return;
	case DSelect: { if (d.isPtr) { Val c=getV(f,d.a); if (c.e) { bool t=decide(s,c.e); if (g_end) return; Frame& g=top(s); g.r[d.dst]=getV(g,t?d.b:d.d); g.pc++; return; } } for (unsigned l=0;l<d.nd;++l) { Val c=getV(f,d.a,d.a.n>1?l:0); f.r[d.dst+l]=selv(c,getV(f,d.b,l),getV(f,d.d,l),d.leaves[l].w); } f.pc++; return; }
	case DCast: {
		if (d.nd==1 && d.a.n==1) f.r[d.dst]=castv((int)d.imm,d.leaves[0].w,d.opw[0],getV(f,d.a));
		else if (d.imm==Instruction::BitCast && d.nd==1) { E e=nullptr; for (unsigned l=0;l<d.a.n;++l) { E x=toE(getV(f,d.a,l),d.opw[l]); e=e?mkConcat(x,e):x; } f.r[d.dst]=Val(e); }
		else if (d.imm==Instruction::BitCast && d.a.n==1) { E x=toE(getV(f,d.a),d.opw[0]); unsigned lo=0; for (unsigned l=0;l<d.nd;++l) { f.r[d.dst+l]=Val(mkExtract(x,lo,d.leaves[l].w)); lo+=d.leaves[l].w; } }
		else if (d.nd==d.a.n) for (unsigned l=0;l<d.nd;++l) f.r[d.dst+l]=castv((int)d.imm,d.leaves[l].w,d.opw[l],getV(f,d.a,l));
		else { engineError(s,"vector cast"); return; }
		f.pc++; return; }
	case DLoad: { Val a=getV(f,d.a); if (a.e && d.leaves.size()>1) { a=Val(concretize(s,a,64,"aggregate load")); if (g_end) return; }
		for (size_t l=0;l<d.leaves.size();++l) { Val p=a; if (d.leaves[l].ofs) p.c+=d.leaves[l].ofs; Val v=loadVal(s,p,d.leaves[l].w); if (g_end) return; if (v.e && d.isPtr) { v=forkIte(s,v); if (g_end) return; } top(s).r[d.dst+l]=v; }
		top(s).pc++; return; }
	case DStore: { Val a=getV(f,d.b); if (a.e && d.leaves.size()>1) { a=Val(concretize(s,a,64,"aggregate store")); if (g_end) return; }
		for (size_t l=0;l<d.leaves.size();++l) { Val p=a; if (d.leaves[l].ofs) p.c+=d.leaves[l].ofs; storeVal(s,p,d.leaves[l].w,getV(top(s),d.a,l)); if (g_end) return; }
		top(s).pc++; return; }
	case DAlloca: { uint64_t n=concretize(s,getV(f,d.a),d.w2,"alloca"); if (g_end) return; uint64_t p=allocObj(s,(uint64_t)d.imm*n,OStack,ANone,0xCD); if (g_end) return; Frame& g=top(s); g.r[d.dst]=Val(p); g.pc++; return; }
	case DGep: { Val v=getV(f,d.a); bool sym=v.e; for (auto& t : d.gep) if (t.o.reg>=0&&f.r[t.o.reg].e) sym=true;
		if (!sym) { uint64_t p=v.c+d.imm; for (auto& t : d.gep) p+=(uint64_t)(sx(getV(f,t.o).c,t.w)*t.scale); f.r[d.dst]=Val(p); }
		else { E e=toE(v,64); for (auto& t : d.gep) { E i=toE(getV(f,t.o),t.w); i=t.w<64?mkSExt(i,64):i; e=mkBin(EAdd,e,mkBin(EMul,i,mkConst(t.scale,64))); } e=mkBin(EAdd,e,mkConst(d.imm,64)); f.r[d.dst]=Val(e); }
		f.pc++; return; }
	case DBr: takeEdge(f,d.e1); return;
	case DCondBr: { Val c=getV(f,d.a); if (c.e && d.imm && mergeStore(s,d,c)) return; bool t = c.e? decide(s,c.e) : (c.c&1); if (g_end) return; takeEdge(top(s), t?d.e1:d.e2); return; }
	case DSwitch: { Val v=getV(f,d.a);
		if (!v.e) { for (auto& c : d.cases) if (c.first==v.c) { takeEdge(f,c.second); return; } takeEdge(f,d.e1); return; }
		// group cases by target
		E e=subst(v.e,s);
		std::vector<int> seen; E any=g_false;
		for (auto& c : d.cases) { bool done=false; for (int t : seen) if (t==c.second.target) done=true; if (done) continue; bool phis=!c.second.phis.empty(); E g=g_false;
			if (phis) { g=mkCmp(EEq,e,mkConst(c.first,d.w2)); } else { seen.push_back(c.second.target); for (auto& c2 : d.cases) if (c2.second.target==c.second.target) g=mkBin(EOr,g,mkCmp(EEq,e,mkConst(c2.first,d.w2))); }
			if (decide(s,g)) { takeEdge(top(s),c.second); return; } }
		(void)any; takeEdge(top(s),d.e1); return; }
	case DRet: {
		std::vector<Val> rv; for (unsigned l=0;l<d.nd;++l) rv.push_back(getV(f,d.a,l));
		bool tm=f.tryMark; popStackObjs(s,f.stackMark); s.st.pop_back();
		if (s.st.empty()) { endPath(s,true); return; }
		Frame& g=top(s); const DI& c=g.fn->code[g.pc]; if (tm) setRet(g,c,Val((uint64_t)0)); else if (c.dst>=0) for (size_t l=0;l<rv.size()&&l<c.nd;++l) g.r[c.dst+l]=rv[l]; advanceCall(g,c); return; }
	case DCall: case DInvoke: doCall(s,d); return;
	case DIntr: doIntr(s,d); return;
	case DUnreach: violationHere(s,"unreachable","unreachable code executed"); return;
	case DResume: { Val v=getV(f,d.a); uint64_t obj=v.c; uint64_t ti=tiOfExc(s,obj); // pop this frame and continue
		popStackObjs(s,f.stackMark); s.st.pop_back(); if (s.st.empty()) { g_end=true; return; } unwind(s,obj,ti); return; }
	case DExtract: for (unsigned l=0;l<d.nd;++l) f.r[d.dst+l]=getV(f,d.a,(unsigned)d.imm+l); f.pc++; return;
	case DInsert: { std::vector<Val> t; for (unsigned l=0;l<d.a.n;++l) t.push_back(getV(f,d.a,l)); for (unsigned l=0;l<d.b.n;++l) t[d.imm+l]=getV(f,d.b,l); for (unsigned l=0;l<d.nd;++l) f.r[d.dst+l]=t[l]; f.pc++; return; }
	case DShuffle: { std::vector<Val> t; for (unsigned l=0;l<d.nd;++l) { uint16_t m=d.opw[l]; if (m==0xffff) t.push_back(Val()); else t.push_back(m<d.a.n?getV(f,d.a,m):getV(f,d.b,m-d.a.n)); } for (unsigned l=0;l<d.nd;++l) f.r[d.dst+l]=t[l]; f.pc++; return; }
	case DFreeze: for (unsigned l=0;l<d.nd;++l) f.r[d.dst+l]=getV(f,d.a,l); f.pc++; return;
	case DNop: if (d.inst && isa<InvokeInst>(d.inst)) takeEdge(f,d.e1); else f.pc++; return;
	case DAsmBsr: { Val v=getV(f,d.a); if (v.e) f.r[d.dst]=Val(bsrExpr(v.e)); else f.r[d.dst]=Val(v.c?(uint64_t)(31-__builtin_clz((unsigned)v.c)):0); f.pc++; return; }
	case DAtomicRMW: { Val p=getV(f,d.a), x=getV(f,d.b); Val old=loadVal(s,p,d.w); if (g_end) return; Val nv; switch (d.imm) { case AtomicRMWInst::Add: nv=binop(EAdd,d.w,old,x); break; case AtomicRMWInst::Sub: nv=binop(ESub,d.w,old,x); break; case AtomicRMWInst::Xchg: nv=x; break; default: engineError(s,"atomicrmw"); return; } storeVal(s,p,d.w,nv); if (g_end) return; Frame& g=top(s); g.r[d.dst]=old; g.pc++; return; }
	case DCmpXchg: { Val p=getV(f,d.a), x=getV(f,d.b), n=getV(f,d.d); Val old=loadVal(s,p,d.w2); if (g_end) return; Val eq=cmpop(EEq,d.w2,old,x); storeVal(s,p,d.w2,selv(eq,n,old,d.w2)); if (g_end) return; Frame& g=top(s); g.r[d.dst]=old; g.r[d.dst+1]=eq; g.pc++; return; }
	default: { std::string t; raw_string_ostream os(t); d.inst->print(os); engineError(s,"unsupported instruction: "+os.str()); return; }
	}
}
static void runState(State& s)
{
	g_end=false; unsigned cnt=0;
	while (!g_end) {
		if (s.st.empty()) { endPath(s,true); break; }
		step(s); s.steps++; g_instrs++;
		if (s.steps>optMaxSteps) { violationHere(s,"steps","no termination within "+std::to_string(optMaxSteps)+" instructions"); g_halt=true; break; }
		if (++cnt>20000) { cnt=0; if (elapsed()>optMaxTime) { g_incomplete=true; g_incompleteWhy="time budget exhausted"; break; } }
	}
}

// ------------------------------------------------------------------ results
static std::string js(const std::string& t) { std::string r="\""; for (unsigned char c : t) { if (c=='"'||c=='\\') { r+='\\'; r+=c; } else if (c<32||c>126) { char b[8]; snprintf(b,sizeof b,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }
struct SharedRes { std::string blob; };
static void serialize(FILE* o)
{
	fprintf(o,"S %llu %llu %llu %llu %llu %llu %llu %llu\n",(unsigned long long)g_paths,(unsigned long long)g_instrs,(unsigned long long)g_forks,(unsigned long long)g_asserts,(unsigned long long)g_assertQ,(unsigned long long)g_errors,(unsigned long long)g_assumeDrop,(unsigned long long)g_incomplete);
	fprintf(o,"Q %llu %llu %llu %llu %llu %f %f\n",(unsigned long long)g_sst.queries,(unsigned long long)g_sst.sat,(unsigned long long)g_sst.unsat,(unsigned long long)g_sst.unknown,(unsigned long long)g_sst.cacheHits,g_sst.time,g_sst.maxTime);
	if (g_incomplete) fprintf(o,"I %s\n",g_incompleteWhy.c_str());
	for (auto& r : g_reach) fprintf(o,"R %llu %s\n",(unsigned long long)r.second,r.first.c_str());
	for (auto& r : g_stats) fprintf(o,"T %llu %s\n",(unsigned long long)r.second,r.first.c_str());
	fprintf(o,"X %llu\n",(unsigned long long)g_maxPathSteps);
	for (auto& r : g_declared) fprintf(o,"D %s\n",r.c_str());
	for (auto& m : g_errmsgs) fprintf(o,"E %s\n",m.c_str());
	for (auto& m : g_samples) fprintf(o,"P %s\n",m.c_str());
	for (auto& v : g_viol) { fprintf(o,"V %s\nVM %s\nVL %s\n",v.kind.c_str(),v.msg.c_str(),v.loc.c_str()); for (auto& p : v.vars) fprintf(o,"VV %s %s\n",p.first.c_str(),p.second.c_str()); }
	for (size_t i=1;i<g_locs.size();++i) if (g_locRepo[i]&&g_locHit[i]) fprintf(o,"L %u %s\n",g_locs[i].second,g_locs[i].first.c_str());
	for (auto& p : g_fns) if (p.second->executed && p.second->inRepo) fprintf(o,"F %s\n",p.second->name.c_str());
	if (optProfile) for (auto& p : g_fns) if (p.second->steps>1000) fprintf(o,"T %llu steps in %s\n",(unsigned long long)p.second->steps,demangle(p.second->name).substr(0,100).c_str());
}
struct Res { uint64_t maxPath=0; uint64_t s[8]={0}; uint64_t q[5]={0}; double qt=0,qm=0; std::vector<std::string> inc; std::map<std::string,uint64_t> reach,stats; std::set<std::string> decl,errs,samples; std::vector<Violation> viol; std::set<std::string> violSeen; std::set<std::pair<std::string,unsigned>> lines; std::set<std::string> fns; };
static void parseRes(const std::string& file, Res& r)
{
	FILE* f=fopen(file.c_str(),"r"); if (!f) { r.inc.push_back("a worker process died"); return; } char* line=nullptr; size_t cap=0; ssize_t n; bool skip=false; bool got=false;
	while ((n=getline(&line,&cap,f))>0) { std::string l(line,line[n-1]=='\n'?n-1:n); size_t sp=l.find(' '); std::string t=l.substr(0,sp), v=sp==std::string::npos?"":l.substr(sp+1); unsigned long long a[8]={0};
		if (t=="S") { got=true; sscanf(v.c_str(),"%llu %llu %llu %llu %llu %llu %llu %llu",&a[0],&a[1],&a[2],&a[3],&a[4],&a[5],&a[6],&a[7]); for (int i=0;i<8;++i) r.s[i]+=a[i]; }
		else if (t=="Q") { double x,y; sscanf(v.c_str(),"%llu %llu %llu %llu %llu %lf %lf",&a[0],&a[1],&a[2],&a[3],&a[4],&x,&y); for (int i=0;i<5;++i) r.q[i]+=a[i]; r.qt+=x; r.qm=std::max(r.qm,y); }
		else if (t=="I") r.inc.push_back(v); else if (t=="R"||t=="T") { size_t p=v.find(' '); (t=="R"?r.reach:r.stats)[v.substr(p+1)]+=strtoull(v.c_str(),0,10); }
		else if (t=="D") r.decl.insert(v); else if (t=="E") r.errs.insert(v); else if (t=="P") r.samples.insert(v);
		else if (t=="X") r.maxPath=std::max<uint64_t>(r.maxPath,strtoull(v.c_str(),0,10));
		else if (t=="V") { Violation x; x.kind=v; r.viol.push_back(x); } else if (t=="VM") r.viol.back().msg=v;
		else if (t=="VL") { auto& x=r.viol.back(); x.loc=v; }
		else if (t=="VV") { size_t p=v.rfind(' '); r.viol.back().vars.push_back({v.substr(0,p),v.substr(p+1)}); }
		else if (t=="L") { size_t p=v.find(' '); r.lines.insert({v.substr(p+1),(unsigned)atoi(v.c_str())}); } else if (t=="F") r.fns.insert(v);
	}
	(void)skip; if (!got) r.inc.push_back("a worker process died"); free(line); fclose(f); unlink(file.c_str());
}

int main(int argc, char** argv)
{
	g_t0=std::chrono::steady_clock::now();
	std::vector<std::string> files;
	for (int i=1;i<argc;++i) { std::string a=argv[i]; auto val=[&]{ return std::string(argv[++i]); };
		if (a=="--entry") optEntry=val(); else if (a=="--out") optOut=val(); else if (a=="--arg") optArgs.push_back(atol(val().c_str())); else if (a=="--max-time") optMaxTime=atof(val().c_str()); else if (a=="--max-steps") optMaxSteps=strtoull(val().c_str(),0,10);
		else if (a=="--jobs") optJobs=atoi(val().c_str()); else if (a=="--repo") optRepo=val(); else if (a=="-v") optVerbose=true; else if (a=="--solver-timeout") optSolverTimeout=atoi(val().c_str()); else if (a=="--max-viol") optMaxViol=atoi(val().c_str()); else if (a=="--profile") optProfile=true; else if (a=="--trace") optTrace=true; else if (a=="--max-conc") optMaxConc=strtoull(val().c_str(),0,10);
		else files.push_back(a); }
	exprInit();
	LLVMContext ctx; g_ctx=&ctx; std::unique_ptr<Module> mod; std::unique_ptr<Linker> linker;
	for (auto& f : files) { SMDiagnostic err; auto m=parseIRFile(f,err,ctx); if (!m) { err.print("symex",errs()); return 3; } if (!mod) { mod=std::move(m); linker.reset(new Linker(*mod)); } else if (linker->linkInModule(std::move(m))) { fprintf(stderr,"link error %s\n",f.c_str()); return 3; } }
	M=mod.get(); DL=&M->getDataLayout();
	Function* entry=M->getFunction(optEntry); if (!entry) { fprintf(stderr,"no entry %s\n",optEntry.c_str()); return 3; }
	StateP s0(new State); g_init=s0.get(); initGlobals(*s0);
	// global constructors
	if (auto* gc=M->getGlobalVariable("llvm.global_ctors")) if (auto* ca=dyn_cast<ConstantArray>(gc->getInitializer())) {
		std::vector<std::pair<unsigned,Function*>> v; for (unsigned i=0;i<ca->getNumOperands();++i) { auto* cs=cast<ConstantStruct>(ca->getOperand(i)); v.push_back({(unsigned)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
		std::stable_sort(v.begin(),v.end(),[](auto& a, auto& b){return a.first<b.first;});
		for (auto& p : v) { pushFrame(*s0,getFn(p.second),{},nullptr,nullptr); g_end=false; while (!g_end && !s0->st.empty()) { step(*s0); if (g_end) break; } if (g_errors||g_viol.size()) { fprintf(stderr,"error in global constructors: %s\n",g_errmsgs.size()?g_errmsgs[0].c_str():g_viol[0].msg.c_str()); return 3; } s0->st.clear(); }
		g_paths=0; g_stats.clear(); g_samples.clear(); g_instrs=0;
	}
	pushFrame(*s0,getFn(entry),{},nullptr,nullptr);
	g_work.push_back(std::move(s0));
	bool parallel=false;
	uint64_t iter=0;
	auto stop=[&]{ return elapsed()>optMaxTime || g_halt || (int)g_viol.size()>=optMaxViol || g_errors>=8; };
	size_t target=optJobs>1?(size_t)optJobs*16:(size_t)-1;
	double bfsLimit = 12.0;
	while (!g_work.empty() && !stop()) {
		if (optJobs>1 && (g_work.size()>=target || (elapsed()>bfsLimit && g_work.size()>=(size_t)optJobs))) { parallel=true; break; }
		StateP s; if (optJobs>1) { s=std::move(g_work.front()); g_work.pop_front(); } else { s=std::move(g_work.back()); g_work.pop_back(); }
		runState(*s); ++iter;
		if (optVerbose && iter%2000==0) fprintf(stderr,"[%.1fs] paths %llu pending %zu instrs %llu queries %llu (%.1fs) exprs %zu\n",elapsed(),(unsigned long long)g_paths,g_work.size(),(unsigned long long)g_instrs,(unsigned long long)g_sst.queries,g_sst.time,exprCount());
	}
	Res res; std::string tmp=(optOut.empty()?std::string("/tmp/symex"):optOut)+"."+std::to_string(getpid());
	if (parallel) {
		std::vector<StateP> parts; for (auto& s : g_work) parts.push_back(std::move(s)); g_work.clear();
		struct Ctl { std::atomic<uint32_t> next; std::atomic<uint32_t> viol; }; Ctl* ctl=(Ctl*)mmap(nullptr,sizeof(Ctl),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); ctl->next=0; ctl->viol=g_viol.size();
		std::vector<pid_t> pids; fflush(stdout); fflush(stderr);
		for (int j=0;j<optJobs;++j) { pid_t p=fork(); if (p==0) {
				g_paths=g_instrs=g_forks=g_asserts=g_assertQ=g_errors=g_assumeDrop=0; g_reach.clear(); g_stats.clear(); g_viol.clear(); g_samples.clear(); g_errmsgs.clear(); g_sst=SolverStats(); g_incomplete=false;
				for (auto& pf : g_fns) { pf.second->steps=0; }
				for (;;) { uint32_t i=ctl->next++; if (i>=parts.size()) break; g_work.push_back(std::move(parts[i]));
					while (!g_work.empty()) { if (elapsed()>optMaxTime) { g_incomplete=true; g_incompleteWhy="time budget exhausted"; break; } if ((int)ctl->viol>=optMaxViol || g_errors>=8) break; StateP s=std::move(g_work.back()); g_work.pop_back(); size_t v0=g_viol.size(); runState(*s); if (g_viol.size()>v0) ctl->viol+=g_halt?1000000:g_viol.size()-v0; }
					if (!g_work.empty()) { g_work.clear(); break; } }
				FILE* o=fopen((tmp+"."+std::to_string(j)).c_str(),"w"); serialize(o); fclose(o); _exit(0); }
			pids.push_back(p); }
		for (pid_t p : pids) { int st; waitpid(p,&st,0); }
		FILE* o=fopen((tmp+".p").c_str(),"w"); serialize(o); fclose(o); parseRes(tmp+".p",res);
		for (int j=0;j<optJobs;++j) parseRes(tmp+"."+std::to_string(j),res);
	} else {
		if (!g_work.empty()) { if (elapsed()>optMaxTime) { g_incomplete=true; g_incompleteWhy="time budget exhausted"; } }
		FILE* o=fopen((tmp+".p").c_str(),"w"); serialize(o); fclose(o); parseRes(tmp+".p",res);
	}
	double el=elapsed();
	FILE* o=optOut.empty()?stdout:fopen(optOut.c_str(),"w");
	fprintf(o,"{\n \"entry\":%s, \"args\":[",js(optEntry).c_str()); for (size_t i=0;i<optArgs.size();++i) fprintf(o,"%s%ld",i?",":"",optArgs[i]); fprintf(o,"],\n \"wall_s\":%.2f, \"complete\":%s, \"why\":[",el,(res.inc.empty()&&res.errs.empty())?"true":"false"); for (size_t i=0;i<res.inc.size();++i) fprintf(o,"%s%s",i?",":"",js(res.inc[i]).c_str());
	fprintf(o,"],\n \"paths\":%llu, \"instructions\":%llu, \"forks\":%llu, \"asserts\":%llu, \"assert_queries\":%llu, \"engine_errors\":%llu, \"assume_dropped\":%llu,\n",(unsigned long long)res.s[0],(unsigned long long)res.s[1],(unsigned long long)res.s[2],(unsigned long long)res.s[3],(unsigned long long)res.s[4],(unsigned long long)res.s[5],(unsigned long long)res.s[6]);
	fprintf(o," \"solver\":{\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"time_s\":%.2f,\"max_s\":%.2f},\n",(unsigned long long)res.q[0],(unsigned long long)res.q[1],(unsigned long long)res.q[2],(unsigned long long)res.q[3],(unsigned long long)res.q[4],res.qt,res.qm);
	auto arr=[&](const char* k, const std::set<std::string>& v){ fprintf(o," %s:[",js(k).c_str()); bool f=true; for (auto& x : v) { fprintf(o,"%s%s",f?"":",\n  ",js(x).c_str()); f=false; } fprintf(o,"],\n"); };
	auto mp=[&](const char* k, const std::map<std::string,uint64_t>& v){ fprintf(o," %s:{",js(k).c_str()); bool f=true; for (auto& x : v) { fprintf(o,"%s%s:%llu",f?"":",\n  ",js(x.first).c_str(),(unsigned long long)x.second); f=false; } fprintf(o,"},\n"); };
	fprintf(o," \"longest_path\":%llu,\n",(unsigned long long)res.maxPath);
	mp("reach",res.reach); arr("declared",res.decl); mp("stats",res.stats); arr("errors",res.errs); arr("samples",res.samples);
	std::set<std::string> fns; for (auto& f : res.fns) { std::string d=demangle(f); fns.insert(d.substr(0,200)); } arr("functions",fns);
	std::map<std::string,uint64_t> lc; for (auto& l : res.lines) lc[l.first]++; mp("lines",lc);
	fprintf(o," \"violations\":["); for (size_t i=0;i<res.viol.size();++i) { auto& v=res.viol[i]; fprintf(o,"%s\n  {\"kind\":%s,\"msg\":%s,\"loc\":%s,\"vars\":[",i?",":"",js(v.kind).c_str(),js(v.msg).c_str(),js(v.loc).c_str()); for (size_t j=0;j<v.vars.size();++j) fprintf(o,"%s[%s,%s]",j?",":"",js(v.vars[j].first).c_str(),js(v.vars[j].second).c_str()); fprintf(o,"]}"); } fprintf(o,"]\n}\n");
	if (!optOut.empty()) fclose(o);
	fflush(stdout);
	_exit(res.viol.size()?1:(res.inc.empty()&&res.errs.empty()?0:2));
}
