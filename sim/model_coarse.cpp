#include "model_forest.hpp"
#include "mondrian_coarse.hpp"
using namespace models; using namespace sim;
namespace {
template<int FC, int LC, int SZ> struct M : Base<M<FC,LC,SZ>,CoarseMondrianForest<double,Math,ErrorMetrics<false>,FC,LC,SZ>> {
	M(uint64_t pa, uint64_t g){ this->build(pa,g,0.2*(double)(pa % 50),(double)(1 + pa/50 % 10)/10,(double)(pa/500 % 20)/50,(int)(1 + pa/10000 % 4),(int)(pa/40000 % 5),NODE_SIZE,(int)(pa/200000 % 3 == 0 ? 1 + pa/600000 % 7 : -1),0,false,(int)(pa/11 % 4),(int)(pa/13 % 4),1.0,true,true,pa % 5 ? 1.0 : 0.5,pa % 7 ? 1.0 : 0.99,(int)(pa/17 % 3),(int)(pa/4200000 % 6),(int)(pa/25200000 % 4),1.0); } M(M const&, int){}
	void step(Rng& r, Log& o) override { if(r.below(12) == 0){ In in; this->t().tree_trim(); } forest_step<double,FC,LC>(*this,this->t(),r,o); }
	void observe(Log& o) override { forest_observe<double,FC,LC>(*this,this->t(),o); for(int i = 0; i < (int)(1 + this->cfg/10000 % 4); ++i){ int n; { In in; n = this->t().count_data_point_tree(i); } o.add(n); } } };
IModel* make(int v, uint64_t p, uint64_t g){ switch(v){ case 0: return new M<2,2,16000>(p,g); case 1: return new M<3,4,1200>(p,g); case 2: return new M<1,3,3000>(p,g); case 3: return new M<2,3,777>(p,g); default: return new M<3,2,611>(p,g); } }
}
void models::add_coarse(std::vector<Def>& v){ v.push_back(Def{"CoarseMondrianForest",true,false,false,5,make}); }
