// C18: preemptive tasks on one processor. The library is compiled with -fsanitize=thread, and this file is the runtime it calls:
// every memory access of the library is a preemption point of a cooperative scheduler (fibers), so that one seed is one interleaving.
#define SIM_MAIN
#include "models.hpp"
#include <ucontext.h>
#include <link.h>
using namespace sim; using namespace models;
namespace {
struct Todo { int op; uint64_t rs; int rm; int64_t kill; };
struct Segment { std::vector<Todo> done; std::vector<Log> logs; Log end; bool finished = false; };
struct Task { int id, def, variant; uint64_t params, garbage; std::vector<Todo> todo; size_t pos = 0; RandSrc rnd; int in = 0; uint64_t n = 0, rs = 0; int64_t kill = 0; bool over = false, killed = false, stalled = false; ucontext_t ctx; unsigned char* stack = nullptr; std::vector<unsigned char> tls; std::vector<Segment> seg; IModel* m = nullptr; };
RandSrc g_solo; Task* cur; // null: no preemption
ucontext_t mainctx; std::vector<Task*> tasks; uint64_t shift, statp, schedhash, nswitch, nstat, nkill, maxdepth; int nextid; char* tlsp; size_t tlsn; uint64_t budget;
std::vector<Def> const& defs(){ static std::vector<Def> v = collect(); return v; }
const size_t STACK = 4u << 20;
void yield_(){ Task* t = cur; cur = nullptr; swapcontext(&t->ctx,&mainctx); cur = t; }
extern "C" char __data_start, _end;
__attribute__((noinline)) void preempt(Task* t, uint64_t k){ if(budget == 0) return; cur = nullptr; --budget; ++nswitch; schedhash = mix(schedhash,mix(k,(uint64_t)t->id)); nextid = (int)(mix64(k + 99) % 64); cur = t; yield_(); }
inline void access(void* a){ Task* t = cur; if(!t || t->in <= 0) return; ++t->n; if(t->kill && (int64_t)t->n >= t->kill){ t->killed = true; t->kill = 0; ++nkill; preempt(t,t->n); return; }
	uint64_t h = mix64(t->rs + t->n); if((h >> shift) == 0){ preempt(t,t->n); return; }
	if((char*)a >= &__data_start && (char*)a < &_end && (h & 255) < statp){ ++nstat; preempt(t,t->n); } }
int tls_phdr(struct dl_phdr_info* i, size_t, void*){ if(i->dlpi_name && i->dlpi_name[0] == 0){ for(int k = 0; k < i->dlpi_phnum; ++k) if(i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data){ tlsp = (char*)i->dlpi_tls_data; tlsn = i->dlpi_phdr[k].p_memsz; } return 1; } return 0; }
}
double models::rnd(){ Task* t = cur; if(t){ int s = t->in; t->in = 0; double d = t->rnd.next(); t->in = s; return d; } return g_solo.next(); }
void models::enter(){ if(cur){ cur->in++; access(nullptr); } }
void models::leave(){ if(cur) cur->in--; }
void* models::cell_alloc(size_t n){ Task* t = cur; cur = nullptr; void* p = ::malloc(n); if(p) memset(p,0,n); cur = t; return p; }
void models::cell_free(void* p){ Task* t = cur; cur = nullptr; ::free(p); cur = t; }
void* operator new(size_t n){ Task* t = cur; cur = nullptr; void* p = ::malloc(n ? n : 1); cur = t; if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n){ return operator new(n); }
void operator delete(void* p) noexcept { ::free(p); } void operator delete[](void* p) noexcept { ::free(p); } void operator delete(void* p, size_t) noexcept { ::free(p); } void operator delete[](void* p, size_t) noexcept { ::free(p); }
// initialisation of function-local statics: a second task waits for the first
extern "C" int __cxa_guard_acquire(long long* g){ char* b = (char*)g; if(b[0]) return 0; while(b[1] && cur){ Task* t = cur; nextid = (int)(t->n++ % 64); yield_(); if(b[0]) return 0; } b[1] = 1; return 1; }
extern "C" void __cxa_guard_release(long long* g){ char* b = (char*)g; b[0] = 1; b[1] = 0; }
extern "C" void __cxa_guard_abort(long long* g){ ((char*)g)[1] = 0; }
extern "C" {
#define RW(N) void __tsan_read##N(void* a){ access(a); } void __tsan_write##N(void* a){ access(a); } void __tsan_unaligned_read##N(void* a){ access(a); } void __tsan_unaligned_write##N(void* a){ access(a); } void __tsan_volatile_read##N(void* a){ access(a); } void __tsan_volatile_write##N(void* a){ access(a); } void __tsan_unaligned_volatile_read##N(void* a){ access(a); } void __tsan_unaligned_volatile_write##N(void* a){ access(a); } void __tsan_read##N##_pc(void* a, void*){ access(a); } void __tsan_write##N##_pc(void* a, void*){ access(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long){ access(a); } void __tsan_write_range(void* a, unsigned long){ access(a); }
void __tsan_func_entry(void*){} void __tsan_func_exit(){} void __tsan_init(){} void __tsan_vptr_update(void** a, void*){ access(a); } void __tsan_vptr_read(void** a){ access(a); }
#define AT(N,T) T __tsan_atomic##N##_load(const volatile T* a, int){ access((void*)a); return *a; } void __tsan_atomic##N##_store(volatile T* a, T v, int){ access((void*)a); *a = v; } T __tsan_atomic##N##_exchange(volatile T* a, T v, int){ access((void*)a); T o = *a; *a = v; return o; } T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int){ access((void*)a); T o = *a; *a = (T)(o + v); return o; } T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int){ access((void*)a); T o = *a; *a = (T)(o - v); return o; } T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int){ access((void*)a); T o = *a; *a = (T)(o | v); return o; } T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int){ access((void*)a); T o = *a; *a = (T)(o & v); return o; } T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int){ access((void*)a); T o = *a; *a = (T)(o ^ v); return o; } \
	int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int, int){ access((void*)a); if(*a == *e){ *a = v; return 1; } *e = *a; return 0; } int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int, int){ access((void*)a); if(*a == *e){ *a = v; return 1; } *e = *a; return 0; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
}
namespace {
void one(IModel* m, Todo const& a, RandSrc& r, bool closed, Log& o){ r.closed = closed; r.set(mix(a.rs,7),a.rm); if(a.op == 0){ Rng q(mix(a.rs,3)); m->step(q,o); } else m->observe(o); }
IModel* build(Task& t, RandSrc& r, uint64_t g){ Def const& d = defs()[(size_t)t.def]; r.closed = d.closed; r.set(mix(t.params,11),0); return d.make(t.variant,t.params,g); }
void body(){ Task* t = cur; Def const& d = defs()[(size_t)t->def];
	t->seg.emplace_back(); t->rs = mix(t->params,t->seg.size()); t->n = 0; t->m = build(*t,t->rnd,t->garbage);
	while(t->pos < t->todo.size()){ Todo const& a = t->todo[t->pos++]; t->rs = mix(a.rs,5); t->n = 0; t->kill = a.kill; Log l; one(t->m,a,t->rnd,d.closed,l); t->kill = 0; t->seg.back().done.push_back(a); t->seg.back().logs.push_back(l); }
	t->rs = mix(t->params,77); t->n = 0; t->m->observe(t->seg.back().end); if(!t->m->guards_ok()) t->seg.back().end.add(-1e300); delete t->m; t->m = nullptr; t->seg.back().finished = true; t->over = true; for(;;) yield_(); }
void start(Task& t){ if(!t.stack) t.stack = (unsigned char*)mmap(0,STACK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); getcontext(&t.ctx); t.ctx.uc_stack.ss_sp = t.stack + 4096; t.ctx.uc_stack.ss_size = STACK - 4096; t.ctx.uc_link = nullptr; makecontext(&t.ctx,(void(*)())body,0); t.in = 0; t.killed = false; t.kill = 0; }
void exec(Plan const& p, Ctx& c){
	std::vector<Def> const& ds = defs(); int n = (int)(2 + ((uint64_t)p.c(0) % 3)); shift = 64 - (uint64_t)p.c(1) % 19; statp = (uint64_t)p.c(2) % 257; int64_t stall = p.c(3); if(shift > 63) shift = 63; dl_iterate_phdr(tls_phdr,nullptr); budget = 200000; schedhash = 5; nswitch = nstat = nkill = 0;
	std::vector<Task> ts((size_t)n); tasks.clear();
	for(int i = 0; i < n; ++i){ Task& t = ts[(size_t)i]; t.id = i; t.def = (int)((uint64_t)p.c(4 + 3*i) % ds.size()); t.variant = (int)((uint64_t)p.c(5 + 3*i) % (uint64_t)ds[(size_t)t.def].variants); t.params = (uint64_t)p.c(6 + 3*i); t.garbage = mix64(t.params) | 4; t.stalled = (stall >> i) & 1; if(tlsn) t.tls.assign(tlsp,tlsp + tlsn); tasks.push_back(&t); }
	for(Step const& s : p.steps){ Task& t = ts[(size_t)((uint64_t)s.arg(0) % (uint64_t)n)]; t.todo.push_back(Todo{s.op == 1,s.rs,s.rm,s.arg(1)}); }
	for(Task& t : ts) start(t);
	std::vector<unsigned char> own(tlsn); nextid = 0; uint64_t steps = 0;
	for(;;){ std::vector<Task*> r; bool urgent = false; for(Task* t : tasks) if(!t->over && !t->stalled) urgent = true; for(Task* t : tasks) if(!t->over && (!urgent || !t->stalled)) r.push_back(t); if(r.empty()) break;
		Task* t = r[(size_t)nextid % r.size()]; ++steps; nextid = (int)(mix64(steps + (uint64_t)p.c(1)) % 64); if(tlsn){ memcpy(own.data(),tlsp,tlsn); memcpy(tlsp,t->tls.data(),tlsn); }
		cur = t; swapcontext(&mainctx,&t->ctx); cur = nullptr;
		if(tlsn){ memcpy(t->tls.data(),tlsp,tlsn); memcpy(tlsp,own.data(),tlsn); }
		if(t->killed && !t->over){ t->m = nullptr; c.fault("task_killed_inside_a_call"); start(*t); if(tlsn){ t->tls.assign(own.begin(),own.end()); } } } // its memory is lost, it starts again with a new object and the calls it has not begun
	c.fault("preemptions",nswitch); c.fault("preemptions_at_static_data",nstat); if(stall & ((1 << n) - 1)) c.fault("stalled_task"); c.sim_time = (double)nswitch; uint64_t same = 0; int calls = 0;
	for(Task& t : ts){ for(Task& u : ts) if(u.id < t.id && u.def == t.def) same = 1; size_t k = 0;
		for(Segment& s : t.seg){ ++k; IModel* m = build(t,g_solo,0); auto cmp = [&](Log const& a, Log const& b, size_t i, char const* w){ bool bad = a.v.size() != b.v.size(); size_t j = 0; if(!bad) for(; j < a.v.size(); ++j) if(!(a.v[j] == b.v[j] || (a.v[j] != a.v[j] && b.v[j] != b.v[j]))){ bad = true; break; }
				if(bad) c.fail("interference","task %d of %d (%s, life %zu): %s %zu: result %zu is %.17g, alone it is %.17g",t.id,n,ds[(size_t)t.def].name,k,w,i,j,j < a.v.size() ? a.v[j] : -0.0,j < b.v.size() ? b.v[j] : -0.0); for(double v : a.v) c.logd(v); };
			for(size_t i = 0; i < s.done.size(); ++i){ Log l; one(m,s.done[i],g_solo,ds[(size_t)t.def].closed,l); cmp(s.logs[i],l,i,"call"); ++calls; }
			if(s.finished){ Log l; m->observe(l); cmp(s.end,l,s.done.size(),"final answer"); } delete m; } }
	if(same) c.fault("probe_two_tasks_of_the_same_class"); c.log(schedhash); c.state(schedhash); c.nontrivial = nswitch > 0 && calls > 3; }
}
HarnessDef sim::harness(){ HarnessDef h; h.name = "tasks"; h.ops = {"step","observe"};
	h.gen = [](Rng& r, Plan& p, std::string const&, bool th){ std::vector<Def> const& ds = defs(); p.cfg = { r.below(3), r.below(19), r.chance(0.3) ? 0 : r.range(20,256), r.chance(0.75) ? 0 : r.below(8) }; int64_t d = r.below((int64_t)ds.size()), v = r.below(5), pa = (int64_t)(r.u64() >> 34); double same = r.uni();
		for(int i = 0; i < 4; ++i){ bool s = i && r.chance(same); int64_t di = s || !i ? d : r.below((int64_t)ds.size()); p.cfg.push_back(di); p.cfg.push_back(s && r.chance(0.8) ? v : r.below(5)); p.cfg.push_back(s && r.chance(0.5) ? pa : (int64_t)(r.u64() >> 34)); }
		int n = (int)r.range(8, th ? 200 : 60); bool kills = r.chance(0.25); double flt = r.chance(0.7) ? 0 : 0.2;
		for(int i = 0; i < n; ++i){ uint64_t rs = r.u64() >> 16; p.add(r.chance(0.06) ? 1 : 0,{r.below(4), kills && r.chance(0.1) ? (int64_t)(1 + (r.u64() >> (44 + r.below(19)))) : 0},rs,r.chance(flt) ? (int)r.below(RM_COUNT) : 0); } };
	h.exec = [](Plan const& p, Ctx& c){ exec(p,c); };
	return h; }
