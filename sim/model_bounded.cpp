#include "model_forest.hpp"
#include "mondrian.hpp"
using namespace models; using namespace sim;
namespace {
template<class FT, int TC, int FC, int LC, int SZ> struct M : Base<M<FT,TC,FC,LC,SZ>,MondrianForest<FT,Math,TC,FC,LC,SZ>> {
	M(uint64_t pa, uint64_t g){ this->build(pa,g,0.2*(double)(pa % 50),(double)(1 + pa/50 % 10)/10,(double)(pa/500 % 20)/50); } M(M const&, int){}
	void step(Rng& r, Log& o) override { forest_step<FT,FC,LC>(*this,this->t(),r,o); }
	void observe(Log& o) override { forest_observe<FT,FC,LC>(*this,this->t(),o); } };
IModel* make(int v, uint64_t p, uint64_t g){ switch(v){ case 0: return new M<double,3,2,2,20000>(p,g); case 1: return new M<float,1,3,4,700>(p,g); case 2: return new M<int,5,2,3,3000>(p,g); default: return new M<double,4,1,2,200>(p,g); } }
}
void models::add_bounded(std::vector<Def>& v){ v.push_back(Def{"MondrianForest",true,false,false,4,make}); }
