#include "flat.h"
namespace sim
{
void define_flat()
{
   FlatObj<ttl::sorted_vector_map<Tracked, Tracked>, Tracked, Tracked, true, Asc>::define("sorted_vector_map<tracked,tracked>");
   FlatObj<ttl::sorted_vector_map<Owning, Owning>, Owning, Owning, true, Asc>::define("sorted_vector_map<owning,owning>");
   FlatObj<ttl::sorted_vector_map<Picky, int>, Picky, int, true, Asc>::define("sorted_vector_map<picky,int>");
   FlatObj<ttl::sorted_vector_map<int, int>, int, int, true, Asc>::define("sorted_vector_map<int,int>");
   FlatObj<ttl::sorted_vector_map<Tracked, Big>, Tracked, Big, true, Asc>::define("sorted_vector_map<tracked,big>");
   FlatObj<ttl::sorted_vector_map<Tracked, Tracked, Back<Tracked> >, Tracked, Tracked, true, Desc>::define("sorted_vector_map<tracked,tracked,greater>");
   FlatObj<ttl::vector_map<Tracked, Tracked>, Tracked, Tracked, false, Asc>::define("vector_map<tracked,tracked>");
   FlatObj<ttl::vector_map<int, int>, int, int, false, Asc>::define("vector_map<int,int>");
   FlatObj<ttl::sorted_vector_map<Tracked, Tracked, Some<Tracked> >, Tracked, Tracked, true, Coarse>::define("sorted_vector_map<tracked,tracked,coarse>");
}
}
