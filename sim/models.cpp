// C19 (snapshots), C20 (no hidden inputs), C21 (own memory only): every class of the library under one uniform simulated history.
#define SIM_MAIN
#include "models.hpp"
#include <sys/time.h>
#include <ctime>
#include <clocale>
using namespace sim; using namespace models;
static RandSrc g_r; static int g_in; static uint64_t g_allocs, g_frees, g_ambient, g_cells; static uint64_t g_env; static bool g_dirty; static Rng g_amb(1);
extern "C" { void* __libc_malloc(size_t); }
double models::rnd(){ return g_r.next(); }
// scribbles over the stack that the next library call is going to use
__attribute__((noinline)) static void dirty(uint64_t pat){ volatile uint64_t b[6000]; for(size_t i = 0; i < 6000; ++i) b[i] = pat; asm volatile("" :: "r"(b) : "memory"); }
static void dirt(){ int k = (int)g_amb.below(5); uint64_t p = g_amb.u64(); if(k == 0) p = 0x3FF0000000000000ull; if(k == 1) p = 0xFFFFFFFFFFFFFFFFull; if(k == 2) p = 0x0101010101010101ull; dirty(p); }
void models::enter(){ if(g_dirty) dirt(); ++g_in; }
void models::leave(){ --g_in; }
void* models::cell_alloc(size_t n){ int s = g_in; g_in = 0; void* p = ::malloc(n); if(g_dirty) fill_garbage(p,n,g_amb.u64() | 4); else memset(p,0,n); ++g_cells; g_in = s; return p; }
void models::cell_free(void* p){ int s = g_in; g_in = 0; ::free(p); g_in = s; }
void* operator new(size_t n){ int s = g_in; if(s) ++g_allocs; g_in = 0; void* p = ::malloc(n ? n : 1); if(s){ if(g_dirty) fill_garbage(p,n,g_amb.u64() | 4); else memset(p,0,n); } g_in = s; if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n){ return operator new(n); }
void operator delete(void* p) noexcept { int s = g_in; if(s && p) ++g_frees; g_in = 0; ::free(p); g_in = s; }
void operator delete[](void* p) noexcept { operator delete(p); } void operator delete(void* p, size_t) noexcept { operator delete(p); } void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#ifndef __SANITIZE_ADDRESS__
extern "C" void* malloc(size_t n){ if(g_in) ++g_allocs; return __libc_malloc(n); }
#endif
// ambient sources that results must not depend on: constant in environment A, erratic in environment B
extern "C" {
int rand(){ if(g_in) ++g_ambient; return g_env ? (int)(g_amb.u64() >> 33) : 42; }
long random(){ if(g_in) ++g_ambient; return g_env ? (long)(g_amb.u64() >> 33) : 42; }
double drand48(){ if(g_in) ++g_ambient; return g_env ? g_amb.uni() : 0.5; }
time_t time(time_t* t){ if(g_in) ++g_ambient; time_t v = g_env ? (time_t)(g_amb.u64() >> 34) : 1; if(t) *t = v; return v; }
clock_t clock(){ if(g_in) ++g_ambient; return g_env ? (clock_t)(g_amb.u64() >> 40) : 1; }
int gettimeofday(struct timeval* tv, void*){ if(g_in) ++g_ambient; if(tv){ tv->tv_sec = g_env ? (time_t)(g_amb.u64() >> 34) : 1; tv->tv_usec = 0; } return 0; }
int clock_gettime(clockid_t, struct timespec* ts){ if(g_in) ++g_ambient; if(ts){ ts->tv_sec = g_env ? (time_t)(g_amb.u64() >> 34) : 1; ts->tv_nsec = 0; } return 0; }
}
enum Op { STEP, OBS, CKPT, CRASH, FORK, OTHER, MOVE, ENV };
struct Act { int op; uint64_t rs; int rm; };
static void act(IModel* m, Act const& a, bool closed, Log& o){ g_r.closed = closed; g_r.set(mix(a.rs,7),a.rm); if(a.op == STEP){ Rng r(mix(a.rs,3)); m->step(r,o); } else m->observe(o); }
static bool same(double a, double b){ return memcmp(&a,&b,8) == 0 || (a != a && b != b) || (a == b); }
static void compare(Ctx& c, Def const& d, Log const& a, Log const& b, char const* cls, char const* what, size_t at){
	if(a.v.size() != b.v.size()) c.fail(cls,"%s: %s: call %zu gives %zu results instead of %zu",d.name,what,at,b.v.size(),a.v.size());
	for(size_t i = 0; i < a.v.size(); ++i) if(!same(a.v[i],b.v[i])) c.fail(cls,"%s: %s: result %zu of call %zu is %.17g instead of %.17g",d.name,what,i,at,b.v[i],a.v[i]); }
static void logall(Ctx& c, uint64_t& st, Log const& l){ for(double v : l.v){ c.logd(v); double w = v == 0 ? 0 : v; uint64_t u; memcpy(&u,&w,8); st = mix(st,u); } }
static std::vector<Def> const& defs(){ static std::vector<Def> v = collect(); return v; }
static uint64_t garb(uint64_t x){ x = mix64(x); switch(x & 7){ case 0: return 0; case 1: return 1; default: return x | 4; } }

static IModel* build(Def const& d, int v, uint64_t pa, uint64_t g){ g_r.closed = d.closed; g_r.set(mix(pa,11),pa % 5 == 0 ? (int)(pa/5 % RM_COUNT) : 0); return d.make(v,pa,g); }
static void run19(Plan const& p, Ctx& c, Def const& d, int v, uint64_t pa){
	IModel* A = build(d,v,pa,0); IModel* D = build(d,v,pa,garb((uint64_t)p.c(3))); IModel* flash = nullptr; std::vector<Act> since; std::vector<Log> ref; int crashes = 0; size_t ncall = 0; uint64_t st = mix((uint64_t)p.c(0),(uint64_t)v);
	for(size_t si = 0; si < p.steps.size(); ++si){ Step const& s = p.steps[si]; c.step = (long)si; c.sim_time += 1; uint64_t g = garb(s.rs + 77);
		switch(s.op){
			case STEP: case OBS: { Act a{s.op,s.rs,s.rm}; Log la, ld; act(A,a,d.closed,la); act(D,a,d.closed,ld); compare(c,d,la,ld,"snapshot","the restored device",ncall); ++ncall; since.push_back(a); ref.push_back(la); logall(c,st,la); c.state(st); break; }
			case CKPT: { if(flash && (s.rs & 48) == 16){ IModel* n = D->assign_into(flash); if(n){ flash = n; since.clear(); ref.clear(); c.fault("checkpoint_by_assignment"); break; } } IModel* n = D->copy(g); if(flash){ if(s.rs & 1) flash->scribble(g); delete flash; } flash = n; since.clear(); ref.clear(); c.fault("checkpoint"); break; }
			case MOVE: if(flash){ IModel* n = flash->copy(g); if(s.rs & 1) flash->scribble(g | 4); delete flash; flash = n; c.fault("checkpoint_copied_again"); } break;
			case CRASH: { c.fault("crash"); D->scribble(mix64(s.rs) | 4); delete D; D = nullptr; if(flash && (s.rs & 3) == 1){ IModel* u = build(d,v,(s.rs & 4) ? pa : pa + s.rs % 5,g); Log junk; for(int i = 0; i < (int)(s.rs/8 % 9); ++i) act(u,Act{STEP,mix(s.rs,i),0},d.closed,junk); D = flash->assign_into(u); if(D) c.fault("restored_by_assignment"); else delete u; } if(D){} else if(flash) D = flash->copy(g); else D = build(d,v,pa,g); if(!since.empty()) c.fault("calls_replayed",since.size());
				for(size_t i = 0; i < since.size(); ++i){ Log l; act(D,since[i],d.closed,l); compare(c,d,ref[i],l,"restore","replay after a crash",i); } ++crashes; break; }
			case FORK: { IModel* x = D->copy(g); int k = 1 + (int)(s.rs % 6); Log junk; for(int i = 0; i < k; ++i) act(x,Act{STEP,mix(s.rs,i),s.rm},d.closed,junk); if(s.rs & 64) x->scribble(g | 4); delete x; c.fault("copy_used_and_destroyed"); break; }
			default: break; }
		if(!A->guards_ok() || !D->guards_ok() || (flash && !flash->guards_ok())) c.fail("guard","%s: memory outside the object was written",d.name); }
	Log la, ld; act(A,Act{OBS,1,0},d.closed,la); act(D,Act{OBS,1,0},d.closed,ld); compare(c,d,la,ld,"snapshot","the restored device at the end",ncall); logall(c,st,la); c.state(st);
	if(flash){ Log q; for(size_t i = 0; i < since.size(); ++i){ Log l; act(flash,since[i],d.closed,l); compare(c,d,ref[i],l,"restore","the checkpoint itself, used at the end",i); } act(flash,Act{OBS,1,0},d.closed,q); compare(c,d,la,q,"restore","the checkpoint itself, at the end",ncall); delete flash; }
	delete A; delete D; c.nontrivial = crashes > 0 && ncall > 4; }

static void run20(Plan const& p, Ctx& c, Def const& d, int v, uint64_t pa){
	std::vector<Log> ref; uint64_t st = mix((uint64_t)p.c(0),(uint64_t)v); int others = 0, calls = 0; uint64_t cells0 = 0;
	for(int env = 0; env < 2; ++env){ g_env = (uint64_t)env; g_dirty = env == 1; g_amb.reset((uint64_t)p.c(3) + 5);
		void* pad = nullptr; IModel* o1 = nullptr; if(env){ pad = ::malloc((size_t)(g_amb.below(3000) + 1)); srand((unsigned)p.c(3)); } else { dirty(0); srand(1); }
		IModel* m = build(d,v,pa,env ? garb((uint64_t)p.c(3)) : 0); size_t k = 0;
		for(size_t si = 0; si < p.steps.size(); ++si){ Step const& s = p.steps[si]; c.step = (long)si;
			if(s.op == STEP || s.op == OBS){ Log l; g_cells = 0; act(m,Act{s.op,s.rs,s.rm},d.closed,l); if(env == 0){ c.sim_time += 1; ref.push_back(l); logall(c,st,l); c.state(st); ++calls; } else { compare(c,d,ref[k],l,"hidden-input","same history in another environment",k); } ++k; }
			else if(env){ // things that must not matter
				if(s.op == OTHER){ if(o1 && s.rs % 7 == 0){ if(s.rs & 8){ delete o1; } o1 = nullptr; } Def const& d2 = (s.rs & 16) ? d : defs()[s.rs/32 % defs().size()]; IModel* x = o1 && (s.rs & 16) ? o1 : build((s.rs & 16) ? d : d2,(s.rs & 16) ? v : (int)(s.rs/1024 % (uint64_t)d2.variants),pa + s.rs % 9,garb(s.rs)); Log junk; for(int i = 0; i < 3; ++i) act(x,Act{STEP,mix(s.rs,i),0},(s.rs & 16) ? d.closed : d2.closed,junk); if(s.rs & 16) o1 = x; else delete x; c.fault("other_object_used_in_between"); ++others; }
				else if(s.op == ENV){ g_amb.reset(s.rs); srand((unsigned)s.rs); srandom((unsigned)s.rs); c.fault("ambient_random_and_clock_jump"); setlocale(LC_ALL,(s.rs & 1) ? "C.UTF-8" : "C"); } } }
		if(!m->guards_ok()) c.fail("guard","%s: memory outside the object was written",d.name);
		delete m; if(o1) delete o1; ::free(pad); g_dirty = false; }
	g_env = 0; (void)cells0; c.fault("dirty_object_memory"); c.fault("dirty_stack_frames",(uint64_t)calls); if(g_ambient) c.fault("probe_ambient_sources_read_inside_the_library",g_ambient); c.nontrivial = calls > 4 && others > 0; }

static void run21(Plan const& p, Ctx& c, Def const& d, int v, uint64_t pa){
	uint64_t st = mix((uint64_t)p.c(0),(uint64_t)v); g_allocs = g_frees = 0; g_dirty = true; g_amb.reset((uint64_t)p.c(3)); int calls = 0;
	IModel* m = build(d,v,pa,garb((uint64_t)p.c(3)));
	for(size_t si = 0; si < p.steps.size(); ++si){ Step const& s = p.steps[si]; c.step = (long)si; c.sim_time += 1;
		if(s.op == STEP || s.op == OBS){ Log l; act(m,Act{s.op,s.rs,s.rm},d.closed,l); logall(c,st,l); c.state(st); ++calls; }
		else if(s.op == MOVE && d.copyable){ IModel* n = m->copy(garb(s.rs)); if(s.rs & 1) m->scribble(s.rs | 4); delete m; m = n; c.fault("object_moved"); }
		if(!d.allocates && g_allocs) c.fail("allocation","%s allocates memory",d.name);
		if(!m->guards_ok()) c.fail("guard","%s: memory outside the object was written",d.name); }
	delete m; if(d.allocates) c.fault("probe_library_allocations",g_allocs);
	if(g_allocs != g_frees) c.fail("leak","%s made %llu allocations and released %llu",d.name,(unsigned long long)g_allocs,(unsigned long long)g_frees);
	g_dirty = false; c.nontrivial = calls > 4; }

HarnessDef sim::harness(){ HarnessDef h; h.name = "models"; h.ops = {"step","observe","ckpt","crash","fork","other","move","env"};
	h.gen = [](Rng& r, Plan& p, std::string const& prop, bool th){ std::vector<Def> const& ds = defs(); int64_t k; do k = r.below((int64_t)ds.size()); while(prop == "C19" && !ds[(size_t)k].copyable);
		p.cfg = { k, r.below(ds[(size_t)k].variants), (int64_t)(r.u64() >> 34), (int64_t)(r.u64() >> 40) };
		int n = (int)r.range(6, th ? 700 : prop == "C21" ? 240 : 160); if(r.chance(0.1)) n = 6 + n/8; double flt = r.chance(0.5) ? 0 : r.chance(0.5) ? 0.15 : 0.6; int md = 1 + (int)r.below(RM_COUNT-1); bool sticky = r.chance(0.3); double fr = 0.04 + 0.2*r.uni(), ck = 0.3 + 0.4*r.uni();
		for(int i = 0; i < n; ++i){ uint64_t rs = r.u64() >> 16; int rm = r.chance(flt) ? (sticky ? md : (int)r.below(RM_COUNT)) : 0;
			if(r.chance(fr)){ double d = r.uni(); if(prop == "C19") p.add(d < ck*0.6 ? CKPT : d < ck*0.75 ? MOVE : d < ck ? FORK : CRASH,{},rs,rm); else if(prop == "C20") p.add(d < 0.6 ? OTHER : ENV,{},rs,rm); else p.add(MOVE,{},rs,rm); }
			else p.add(r.chance(0.08) ? OBS : STEP,{},rs,rm); } };
	h.exec = [](Plan const& p, Ctx& c){ std::vector<Def> const& ds = defs(); Def const& d = ds[(size_t)(((p.c(0) % (int64_t)ds.size()) + (int64_t)ds.size()) % (int64_t)ds.size())]; int v = (int)(((p.c(1) % d.variants) + d.variants) % d.variants); uint64_t pa = (uint64_t)p.c(2);
		c.log(mix((uint64_t)p.c(0),(uint64_t)v)); if(p.prop == "C19"){ if(d.copyable) run19(p,c,d,v,pa); } else if(p.prop == "C20") run20(p,c,d,v,pa); else run21(p,c,d,v,pa); rand_faults(c,g_r); };
	return h; }
