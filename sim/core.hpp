// Deterministic simulation core shared by all harnesses.
// One seed -> one Plan (text). execute(Plan) is a pure function of the plan and of the library sources.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <limits>
#include <new>
#include <exception>
#include <stdexcept>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <cerrno>
#include <malloc.h>

namespace sim {

// ---------------------------------------------------------------- PRNG
inline uint64_t mix64(uint64_t x){ x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
inline uint64_t mix(uint64_t a, uint64_t b){ return mix64(a * 0x9E3779B97F4A7C15ull ^ mix64(b)); }
struct Rng {
	uint64_t s[4];
	explicit Rng(uint64_t seed = 0){ reset(seed); }
	void reset(uint64_t seed){ for(int i = 0; i < 4; ++i){ seed = mix64(seed + i); s[i] = seed; } if(!(s[0]|s[1]|s[2]|s[3])) s[0] = 1; }
	static uint64_t rotl(uint64_t x, int k){ return (x << k) | (x >> (64 - k)); }
	uint64_t u64(){ uint64_t const r = rotl(s[1]*5,7)*9, t = s[1] << 17; s[2]^=s[0]; s[3]^=s[1]; s[1]^=s[2]; s[0]^=s[3]; s[2]^=t; s[3]=rotl(s[3],45); return r; }
	int64_t below(int64_t n){ return n <= 0 ? 0 : (int64_t)(u64() % (uint64_t)n); }
	int64_t range(int64_t a, int64_t b){ return a + below(b - a + 1); }
	double uni(){ return (u64() >> 11) * (1.0/9007199254740992.0); }
	bool chance(double p){ return uni() < p; }
	template<class T> T pick(std::initializer_list<T> l){ return *(l.begin() + below((int64_t)l.size())); }
	double gauss(){ double s = 0; for(int i = 0; i < 12; ++i) s += uni(); return s - 6; }
};

// ---------------------------------------------------------------- injected random source with fault modes
enum RandMode { RM_UNIFORM = 0, RM_ZERO, RM_MAX, RM_RAND31, RM_COARSE, RM_ALTERNATE, RM_BOUNDARY, RM_HALF, RM_COUNT };
inline char const* rand_mode_name(int m){ static char const* n[] = {"uniform","stuck_at_0","stuck_at_max","rand31","coarse_3bit","alternating_extremes","boundary_mix","stuck_at_half"}; return (m >= 0 && m < RM_COUNT) ? n[m] : "?"; }
struct RandSrc {
	Rng r; int mode = 0; bool closed = false; uint64_t n = 0;
	uint64_t used[RM_COUNT] = {0};
	void set(uint64_t seed, int m){ r.reset(seed); mode = m % RM_COUNT; n = 0; }
	double maxv() const { return closed ? 1.0 : 1.0 - 1.0/2147483648.0; }
	double next(){
		++n; used[mode] += 1;
		switch(mode){
			case RM_ZERO: return 0.0;
			case RM_MAX: return maxv();
			case RM_RAND31: { uint64_t k = r.u64() >> 33; return closed ? (double)k / 2147483647.0 : (double)k / 2147483648.0; }
			case RM_COARSE: { int64_t k = r.below(closed ? 9 : 8); return (double)k / 8.0; }
			case RM_ALTERNATE: return (n & 1) ? 0.0 : maxv();
			case RM_BOUNDARY: { int k = (int)r.below(8); if(k == 0) return 0.0; if(k == 1) return maxv(); if(k == 2) return 0.5; return (double)(r.u64() >> 33) / 2147483648.0; }
			case RM_HALF: return 0.5;
			default: return (double)(r.u64() >> 33) / 2147483648.0; // 31 bits: an embedded-grade uniform source
		}
	}
};

// ---------------------------------------------------------------- plans
struct Step { int op = 0; std::vector<int64_t> a; uint64_t rs = 0; int rm = 0;
	int64_t arg(size_t i) const { return i < a.size() ? a[i] : 0; } };
struct Plan { std::string prop; uint64_t seed = 0; std::vector<int64_t> cfg; std::vector<Step> steps;
	int64_t c(size_t i) const { return i < cfg.size() ? cfg[i] : 0; }
	Step& add(int op, std::initializer_list<int64_t> args, uint64_t rs = 0, int rm = 0){ Step s; s.op = op; s.a = args; s.rs = rs; s.rm = rm; steps.push_back(s); return steps.back(); }
};

struct CheckFail { std::string cls, msg; };

// ---------------------------------------------------------------- statistics shared by the forked runs of one worker
struct Shared {
	static const int NF = 96; static const uint64_t NS = 1u << 20;
	struct F { char name[56]; uint64_t n; } f[NF];
	uint64_t nstates, states[NS];
	// result of the current run
	int finished, ok, nontrivial; uint64_t h, events; double simt; long step; char cls[64], msg[1000];
};
// ---------------------------------------------------------------- run context: event log hash, counters, states
struct Ctx {
	uint64_t h = 0x1234567; uint64_t events = 0; double sim_time = 0; bool nontrivial = false; long step = -1;
	FILE* trace = nullptr;
	struct Shared* sh = nullptr;
	void log(uint64_t v){ h = mix(h, v); ++events; }
	void logd(double d){ if(d != d){ log(0x7ff8dead); return; } if(d == 0) d = 0; uint64_t u; memcpy(&u,&d,8); log(u); }
	void fault(char const* k, uint64_t n = 1);
	void state(uint64_t s);
	[[noreturn]] void fail(char const* cls, char const* fmt, ...) __attribute__((format(printf,3,4))){
		char b[1000]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
		throw CheckFail{cls,b}; }
	void note(char const* fmt, ...) __attribute__((format(printf,2,3))){ if(!trace) return; va_list ap; va_start(ap,fmt); vfprintf(trace,fmt,ap); va_end(ap); fputc('\n',trace); }
};

inline void Ctx::fault(char const* k, uint64_t n){ if(!sh || !n) return; for(int i = 0; i < Shared::NF; ++i){ if(sh->f[i].name[0] == 0) strncpy(sh->f[i].name,k,55); if(strncmp(sh->f[i].name,k,55) == 0){ sh->f[i].n += n; return; } } }
inline void Ctx::state(uint64_t s){ if(!sh) return; if(s == 0) s = 1; if(sh->nstates > Shared::NS/2) return;
	for(uint64_t i = mix64(s) & (Shared::NS-1);; i = (i+1) & (Shared::NS-1)){ if(sh->states[i] == s) return; if(sh->states[i] == 0){ sh->states[i] = s; sh->nstates++; return; } } }
inline void rand_faults(Ctx& c, RandSrc const& r){ static char const* n[] = {"rand_uniform31_draws","rand_stuck_at_0","rand_stuck_at_max","rand_rand31","rand_coarse_3bit","rand_alternating_extremes","rand_boundary_mix","rand_stuck_at_half"}; for(int i = 0; i < RM_COUNT; ++i) c.fault(n[i],r.used[i]); }
struct HarnessDef {
	char const* name;
	std::vector<std::string> ops;
	std::function<void(Rng&, Plan&, std::string const& prop, bool thorough)> gen;
	std::function<void(Plan const&, Ctx&)> exec;
};
HarnessDef harness(); // provided by each harness

// ---------------------------------------------------------------- fail-stop (assert) handling
extern thread_local bool g_failstop_armed; extern sigjmp_buf g_failstop_jmp;

// ---------------------------------------------------------------- guarded object placement with deterministic garbage
inline void fill_garbage(void* p, size_t n, uint64_t pat){
	unsigned char* c = (unsigned char*)p;
	if(pat == 0){ memset(c,0,n); return; }
	if(pat == 1){ memset(c,0xFF,n); return; }
	for(size_t i = 0; i < n; ++i) c[i] = (unsigned char)(mix64(pat + i/8) >> (8*(i%8)));
}
template<class T> struct Placed {
	static const size_t G = 256; // guard zone
	unsigned char* raw = nullptr; T* obj = nullptr; bool alive = false; size_t total;
	uint64_t gp;
	Placed(): gp(0x5151){ total = sizeof(T) + 2*G + alignof(T); raw = (unsigned char*)::malloc(total); }
	Placed(Placed const&) = delete; Placed& operator=(Placed const&) = delete;
	unsigned char* base(){ uintptr_t p = (uintptr_t)(raw + G); p = (p + 63) & ~(uintptr_t)63; if(p + sizeof(T) + G/2 > (uintptr_t)(raw + total)) p = ((uintptr_t)(raw+G) + alignof(T)-1) & ~(uintptr_t)(alignof(T)-1); return (unsigned char*)p; }
	template<class... A> T& make(uint64_t garbage, A&&... a){
		destroy(); fill_garbage(raw,total,gp); unsigned char* b = base(); fill_garbage(b,sizeof(T),garbage);
		obj = new (b) T(std::forward<A>(a)...); alive = true; return *obj; }
	T& copy_from(T const& o, uint64_t garbage){ // o must live elsewhere
		destroy(); fill_garbage(raw,total,gp); unsigned char* b = base(); fill_garbage(b,sizeof(T),garbage);
		obj = new (b) T(o); alive = true; return *obj; }
	bool guards_ok(){ unsigned char* b = base();
		std::vector<unsigned char> e(total); fill_garbage(e.data(),total,gp);
		for(unsigned char* p = raw; p < b; ++p) if(*p != e[p-raw]) return false;
		for(unsigned char* p = b + sizeof(T); p < raw+total; ++p) if(*p != e[p-raw]) return false;
		return true; }
	void swap(Placed& o){ std::swap(raw,o.raw); std::swap(obj,o.obj); std::swap(alive,o.alive); std::swap(gp,o.gp); }
	void destroy(){ if(alive){ obj->~T(); alive = false; } }
	void abandon(){ alive = false; }
	T& operator*(){ return *obj; } T* operator->(){ return obj; }
	~Placed(){ destroy(); ::free(raw); }
};
__attribute__((noinline)) inline void dirty_stack(uint64_t pat){ volatile unsigned char b[40000]; for(size_t i = 0; i < sizeof b; ++i) b[i] = pat == 0 ? 0 : (unsigned char)(mix64(pat + i/8) >> (8*(i%8))); asm volatile("" :: "r"(b) : "memory"); }

} // namespace sim

#ifdef SIM_MAIN
namespace sim {
thread_local bool g_failstop_armed = false; sigjmp_buf g_failstop_jmp;
static void on_prof(int){ static char const m[] = "HANG\n"; if(write(2,m,5)){} _exit(79); }
static void arm_watchdog(int sec){ struct itimerval t; memset(&t,0,sizeof t); t.it_value.tv_sec = sec; setitimer(ITIMER_PROF,&t,nullptr); }
static std::string plan_text(HarnessDef const& hd, Plan const& p){
	std::string o; char b[100];
	o += "harness "; o += hd.name; o += "\nprop " + p.prop + "\n"; snprintf(b,100,"seed %llu\n",(unsigned long long)p.seed); o += b;
	o += "cfg"; for(auto v : p.cfg){ snprintf(b,100," %lld",(long long)v); o += b; } o += "\n";
	for(auto const& s : p.steps){ o += "s "; o += hd.ops[s.op]; snprintf(b,100," %llu %d",(unsigned long long)s.rs,s.rm); o += b; for(auto v : s.a){ snprintf(b,100," %lld",(long long)v); o += b; } o += "\n"; }
	return o; }
static Plan plan_parse(HarnessDef const& hd, char const* file){
	FILE* f = fopen(file,"r"); if(!f){ perror(file); _exit(2); }
	Plan p; char* line = nullptr; size_t cap = 0; ssize_t n;
	while((n = getline(&line,&cap,f)) > 0){
		std::vector<std::string> w; char* save; for(char* t = strtok_r(line," \n",&save); t; t = strtok_r(nullptr," \n",&save)) w.push_back(t);
		if(w.empty() || w[0][0] == '#') continue;
		if(w[0] == "harness"){ if(w[1] != hd.name){ fprintf(stderr,"wrong harness %s\n",w[1].c_str()); _exit(2); } }
		else if(w[0] == "prop") p.prop = w[1];
		else if(w[0] == "seed") p.seed = strtoull(w[1].c_str(),nullptr,10);
		else if(w[0] == "cfg"){ for(size_t i = 1; i < w.size(); ++i) p.cfg.push_back(strtoll(w[i].c_str(),nullptr,10)); }
		else if(w[0] == "s"){ Step s; s.op = -1; for(size_t i = 0; i < hd.ops.size(); ++i) if(hd.ops[i] == w[1]) s.op = (int)i; if(s.op < 0){ fprintf(stderr,"unknown op %s\n",w[1].c_str()); _exit(2); }
			s.rs = strtoull(w[2].c_str(),nullptr,10); s.rm = atoi(w[3].c_str()); for(size_t i = 4; i < w.size(); ++i) s.a.push_back(strtoll(w[i].c_str(),nullptr,10)); p.steps.push_back(s); }
	}
	free(line); fclose(f); return p; }
static Plan gen_plan(HarnessDef const& hd, std::string const& prop, uint64_t base, uint64_t i, bool thorough){
	Plan p; p.prop = prop; p.seed = mix(mix(base, 0x0C0FFEE), i); Rng r(p.seed); hd.gen(r,p,prop,thorough); return p; }
// Runs one plan in a forked child: every run starts from the same pristine process state.
static void run_child(HarnessDef const& hd, Plan const& p, Shared* sh, bool trace){
	Ctx c; c.sh = sh; if(trace) c.trace = stdout;
	arm_watchdog(20); dirty_stack(p.seed | 4);
	std::string cls, msg; bool ok = true;
	try { hd.exec(p,c); }
	catch(CheckFail const& f){ ok = false; cls = f.cls; msg = f.msg; }
	catch(std::exception const& e){ ok = false; cls = "exception"; msg = e.what(); }
	arm_watchdog(0);
	sh->ok = ok; sh->h = c.h; sh->events = c.events; sh->simt = c.sim_time; sh->nontrivial = c.nontrivial; sh->step = c.step;
	snprintf(sh->cls,sizeof sh->cls,"%s",cls.c_str()); snprintf(sh->msg,sizeof sh->msg,"%s",msg.c_str()); for(char* q = sh->msg; *q; ++q) if(*q == '\n') *q = ' ';
	sh->finished = 1; fflush(stdout); _exit(0); }
static void run_plan(HarnessDef const& hd, Plan const& p, Shared* sh, bool quiet, bool trace = false){
	sh->finished = 0; sh->ok = 0; sh->cls[0] = sh->msg[0] = 0; sh->h = 0; sh->nontrivial = 0; sh->simt = 0; sh->events = 0; sh->step = -1;
	fflush(stdout); fflush(stderr);
	pid_t pid = fork(); if(pid < 0){ perror("fork"); _exit(2); }
	if(pid == 0){ if(quiet){ int n = open("/dev/null",O_WRONLY); dup2(n,2); } run_child(hd,p,sh,trace); }
	int stt = 0; while(waitpid(pid,&stt,0) < 0 && errno == EINTR){}
	if(!sh->finished){ char const* k = "crash"; if(WIFEXITED(stt)){ int e = WEXITSTATUS(stt); k = e == 77 ? "sanitizer" : e == 78 ? "assert" : e == 79 ? "hang" : "exit"; snprintf(sh->msg,sizeof sh->msg,"run ended with exit code %d",e); } else if(WIFSIGNALED(stt)) snprintf(sh->msg,sizeof sh->msg,"run ended with signal %d (%s)",WTERMSIG(stt),strsignal(WTERMSIG(stt)));
		snprintf(sh->cls,sizeof sh->cls,"%s",k); sh->ok = 0; } }
static Shared* new_shared(){ return (Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); }
}
#ifndef SIM_NO_ASSERT_OVERRIDE
extern "C" void __assert_fail(char const* e, char const* file, unsigned int line, char const* fn) noexcept {
	(void)fn; if(sim::g_failstop_armed){ sim::g_failstop_armed = false; siglongjmp(sim::g_failstop_jmp,1); }
	fprintf(stderr,"ASSERT %s (%s:%u)\n",e,file,line); fflush(stderr); _exit(78); }
#endif
extern "C" char const* __asan_default_options(){ return "detect_leaks=0:detect_odr_violation=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=5:handle_abort=0:max_malloc_fill_size=4096:malloc_fill_byte=165"; }
extern "C" char const* __ubsan_default_options(){ return "exitcode=77:halt_on_error=1:print_stacktrace=0"; }
int main(int argc, char** argv){
	using namespace sim;
	if(!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")){ int old = personality(0xffffffff); if(old != -1 && personality(old | ADDR_NO_RANDOMIZE) != -1){ setenv("SIM_REEXEC","1",1); execv("/proc/self/exe",argv); } }
	signal(SIGPROF,on_prof); mallopt(M_PERTURB,0x5A);
	HarnessDef hd = harness(); std::string mode = argc > 1 ? argv[1] : "";
	if(mode == "--gen" && argc == 6){ Plan p = gen_plan(hd,argv[2],strtoull(argv[3],0,10),strtoull(argv[4],0,10),std::string(argv[5])=="thorough"); fputs(plan_text(hd,p).c_str(),stdout); return 0; }
	if(mode == "--exec" && argc >= 3){
		setvbuf(stdout,nullptr,_IOLBF,1 << 16); Plan p = plan_parse(hd,argv[2]); Shared* sh = new_shared(); run_plan(hd,p,sh,false,argc > 3);
		if(sh->ok){ printf("OK hash=%016llx events=%llu\n",(unsigned long long)sh->h,(unsigned long long)sh->events); for(auto& k : sh->f) if(k.n) printf("  %s=%llu\n",k.name,(unsigned long long)k.n); return 0; }
		printf("FAIL class=%s hash=%016llx step=%ld msg=%s\n",sh->cls,(unsigned long long)sh->h,sh->step,sh->msg); return 1; }
	if(mode == "--batch" && argc == 10){ // prop base start stride count tier out deadline_s
		std::string prop = argv[2]; uint64_t base = strtoull(argv[3],0,10), start = strtoull(argv[4],0,10), stride = strtoull(argv[5],0,10), count = strtoull(argv[6],0,10);
		bool thorough = std::string(argv[7]) == "thorough"; std::string out = argv[8]; double deadline = atof(argv[9]);
		Shared* sh = new_shared();
		std::unordered_set<uint64_t> nontriv; std::vector<uint64_t> hashes; double simt = 0; uint64_t done = 0, events = 0, steps = 0; bool failed = false;
		struct timeval t0, t1; gettimeofday(&t0,0); std::string fcls, fmsg; uint64_t findex = 0;
		for(uint64_t k = 0; k < count; ++k){
			uint64_t i = start + k*stride;
			Plan p = gen_plan(hd,prop,base,i,thorough);
			run_plan(hd,p,sh,true);
			if(!sh->ok){ failed = true; fcls = sh->cls; fmsg = sh->msg; findex = i; break; }
			hashes.push_back(i); hashes.push_back(sh->h); simt += sh->simt; ++done; events += sh->events; steps += p.steps.size(); if(sh->nontrivial) nontriv.insert(sh->h);
			gettimeofday(&t1,0); if((t1.tv_sec - t0.tv_sec) + (t1.tv_usec - t0.tv_usec)*1e-6 > deadline) break;
		}
		auto dump = [](std::string const& f, std::vector<uint64_t> const& v){ FILE* o = fopen(f.c_str(),"wb"); if(o){ fwrite(v.data(),8,v.size(),o); fclose(o); } };
		std::vector<uint64_t> st; for(uint64_t i = 0; i < Shared::NS; ++i) if(sh->states[i]) st.push_back(sh->states[i]);
		dump(out + ".hashes",hashes); dump(out + ".states",st); dump(out + ".nontriv",std::vector<uint64_t>(nontriv.begin(),nontriv.end()));
		FILE* o = fopen((out + ".txt").c_str(),"w");
		fprintf(o,"done %llu\nevents %llu\nsteps %llu\nsimtime %.6f\n",(unsigned long long)done,(unsigned long long)events,(unsigned long long)steps,simt);
		for(auto& k : sh->f) if(k.n) fprintf(o,"fault %s %llu\n",k.name,(unsigned long long)k.n);
		if(failed) fprintf(o,"fail %llu %s %s\n",(unsigned long long)findex,fcls.c_str(),fmsg.c_str());
		fclose(o); fflush(stdout); return failed ? 1 : 0; }
	fprintf(stderr,"usage: --gen PROP BASE I TIER | --exec FILE [trace] | --batch PROP BASE START STRIDE COUNT TIER OUT DEADLINE\n"); return 2; }
#endif
