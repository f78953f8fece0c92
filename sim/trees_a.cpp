#include "trees.h"
namespace sim
{
void define_maps()
{
   TreeObj<MapT<Tracked, Tracked, Less<Tracked> > >::define("map<tracked,tracked>");
   TreeObj<MapT<Owning, Owning, Less<Owning> > >::define("map<owning,owning>");
   TreeObj<MapT<Picky, int, Less<Picky> > >::define("map<picky,int>");
   TreeObj<MapT<int, int, LessU<int> > >::define("map<int,int>");
   TreeObj<MapT<Tracked, Big, Less<Tracked> > >::define("map<tracked,big>");
   TreeObj<MapT<Tracked, Tracked, More<Tracked> > >::define("map<tracked,tracked,greater>");
   TreeObj<MapT<Tracked, Tracked, LessF<Tracked> > >::define("map<tracked,tracked,coarse>");
}
}
