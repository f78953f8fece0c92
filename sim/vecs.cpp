#include "vecs.h"
namespace sim
{
void define_vectors()
{
   VecObj<ttl::vector<Tracked>, Tracked, 0>::define("vector<tracked>");
   VecObj<ttl::vector<int>, int, 0>::define("vector<int>");
   VecObj<ttl::fixed_vector<Tracked, 4>, Tracked, 4>::define("fixed_vector<tracked,4>");
   VecObj<ttl::fixed_vector<Tracked, 9>, Tracked, 9>::define("fixed_vector<tracked,9>");
   VecObj<ttl::fixed_vector<int, 5>, int, 5>::define("fixed_vector<int,5>");
   VecObj<ttl::vector<Big>, Big, 0>::define("vector<big>");
   VecObj<ttl::fixed_vector<Big, 6>, Big, 6>::define("fixed_vector<big,6>");
   VecObj<ttl::vector<char>, char, 0>::define("vector<char>");
   VecObj<ttl::fixed_vector<char, 7>, char, 7>::define("fixed_vector<char,7>");
   VecObj<ttl::fixed_vector<Wide, 3>, Wide, 3>::define("fixed_vector<wide,3>");
   VecObj<ttl::fixed_vector<Tracked, 1>, Tracked, 1>::define("fixed_vector<tracked,1>");
   VecObj<ttl::vector<Wide>, Wide, 0>::define("vector<wide>");
}
}
