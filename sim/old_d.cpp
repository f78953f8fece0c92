#ifdef WITHOUT_OLD // bin/common.py: the library does not compile as C++98
namespace sim { void define_old_flat() {} }
#else
#include "old.h"
#include "flat.h"
namespace sim
{
void define_old_flat()
{
   FlatObj<ttl::sorted_vector_map<Tracked, Tracked>, Tracked, Tracked, true, Asc>::define("sorted_vector_map<tracked,tracked> in C++98");
   FlatObj<ttl::vector_map<Tracked, Tracked>, Tracked, Tracked, false, Asc>::define("vector_map<tracked,tracked> in C++98");
}
}
#endif
