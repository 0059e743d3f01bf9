// Uniform driver interface over every class of the library: one object, random calls decided by a seed, all results logged.
// C18 (tasks), C19 (copies), C20 (determinism) and C21 (memory) run the same models.
#pragma once
#include "prelude.hpp"
#include "core.hpp"
namespace models {
double rnd(); // random source of the running task, provided by the driver
void enter(); void leave(); // around every call into the library
struct In { In(){ enter(); } ~In(){ leave(); } };
void* cell_alloc(size_t n); void cell_free(void* p);
struct Log { std::vector<double> v; void add(double x){ v.push_back(x); } };
struct IModel { virtual void step(sim::Rng& r, Log& o) = 0; /* one random call */ virtual void observe(Log& o) = 0; /* queries that change no later result */ virtual IModel* copy(uint64_t garbage) = 0; virtual IModel* assign_into(IModel*){ return nullptr; } /* overwrites a used object of the same class by assignment and returns its new owner; null when the class cannot be assigned */ virtual bool guards_ok() = 0; virtual void scribble(uint64_t){} virtual ~IModel(){} };
struct Def { char const* name; bool copyable, allocates, closed; int variants; IModel* (*make)(int variant, uint64_t params, uint64_t garbage); };
struct Math { static double exp(double x){ return std::exp(x); } static double log(double x){ return std::log(x); } static double log2(double x){ return std::log2(x); } static double sqrt(double x){ return std::sqrt(x); } static bool isnan(double x){ return std::isnan(x); } static double rand_uniform(){ return rnd(); } static double random(){ return rnd(); } static int floor(double d){ return (int)std::floor(d); }
	static double activation(double x){ return x/(1 + std::fabs(x)); } static double derivative(double y){ double a = 1 - std::fabs(y); return a*a; } static void* malloc(size_t n){ return cell_alloc(n); } static void free(void* p){ cell_free(p); } };
template<class M, class T> struct Base : IModel { sim::Placed<T> p; uint64_t cfg = 0; T& t(){ return *p.obj; } bool guards_ok() override { return p.guards_ok(); }
	template<class... A> void build(uint64_t params, uint64_t g, A&&... a){ cfg = params; In in; p.make(g,std::forward<A>(a)...); }
	IModel* copy(uint64_t g) override { M* m = new M(*static_cast<M*>(this),0); m->cfg = cfg; { In in; m->p.copy_from(*p.obj,g); } return m; }
	IModel* assign_into(IModel* used) override { if constexpr(std::is_copy_assignable<T>::value){ M* m = new M(*static_cast<M*>(this),0); m->cfg = cfg; m->p.swap(static_cast<M*>(used)->p); { In in; *m->p.obj = *p.obj; } delete used; return m; } else return nullptr; }
	void scribble(uint64_t pat) override { p.abandon(); sim::fill_garbage(p.base(),sizeof(T),pat); } // the memory of a crashed device
	~Base(){ if(p.alive){ In in; p.destroy(); } } };
std::vector<Def> const& all();
void add_cuckoo(std::vector<Def>&); void add_bloom(std::vector<Def>&); void add_reservoir(std::vector<Def>&); void add_chained(std::vector<Def>&); void add_ltc(std::vector<Def>&); void add_mcnn(std::vector<Def>&); void add_stats(std::vector<Def>&); void add_perceptron(std::vector<Def>&); void add_hoeffding(std::vector<Def>&); void add_bounded(std::vector<Def>&); void add_unbound(std::vector<Def>&); void add_coarse(std::vector<Def>&);
inline std::vector<Def> collect(){ std::vector<Def> v; add_cuckoo(v); add_bloom(v); add_reservoir(v); add_chained(v); add_ltc(v); add_mcnn(v); add_stats(v); add_perceptron(v); add_hoeffding(v); add_bounded(v); add_unbound(v); add_coarse(v); return v; }
}
