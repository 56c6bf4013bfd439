// runs every statically typed program linked in, for several sizes, inputs and seeds
#include "static.hpp"
using namespace sp;
int main(int argc, char** argv) {
    Shard sh = shard_args(argc, argv);
    Sweep sw; sw.sizes = {{1,1},{2,3},{3,2},{5,4}}; if (sh.tier) { sw.sizes.push_back({1,4}); sw.sizes.push_back({4,1}); sw.sizes.push_back({4,4}); }
    sw.large = {{17,9},{40,33}}; if (sh.tier) sw.large.push_back({64,101}); sw.nvals = 5; sw.o.cats = VALUE | GRAD;
#ifdef EMPTY      // vectors and matrices without elements
    if (EMPTY & 1) sw.sizes.push_back({2,0});
    if (EMPTY & 2) { sw.sizes.push_back({0,2}); sw.sizes.push_back({0,0}); }
#endif
#ifdef CATS
    sw.o.cats = CATS;
#endif
    run_registry(sh, sw);
    rep.finish();
}
