#ifdef WITHOUT_OLD // bin/common.py: the library does not compile as C++98
namespace sim { void define_old_trees() {} }
#else
#include "old.h"
#include "trees.h"
namespace sim
{
void define_old_trees()
{
   TreeObj<MapT<Tracked, Tracked, Less<Tracked> > >::define("map<tracked,tracked> in C++98");
}
}
#endif
