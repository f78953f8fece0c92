#ifdef WITHOUT_OLD // bin/common.py: the library does not compile as C++98
namespace sim { void define_old_vectors() {} }
#else
#include "old.h"
#include "vecs.h"
namespace sim
{
void define_old_vectors()
{
   VecObj<ttl::vector<Tracked>, Tracked, 0>::define("vector<tracked> in C++98");
   VecObj<ttl::fixed_vector<Tracked, 3>, Tracked, 3>::define("fixed_vector<tracked,3> in C++98");
   VecObj<ttl::fixed_vector<Wide, 5>, Wide, 5>::define("fixed_vector<wide,5> in C++98");
}
}
#endif
