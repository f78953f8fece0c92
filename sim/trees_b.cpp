#include "trees.h"
namespace sim
{
void define_sets()
{
   TreeObj<SetT<Tracked, Less<Tracked> > >::define("set<tracked>");
   TreeObj<SetT<Owning, Less<Owning> > >::define("set<owning>");
   TreeObj<SetT<Picky, Less<Picky> > >::define("set<picky>");
   TreeObj<SetT<int, LessU<int> > >::define("set<int>");
   TreeObj<SetT<Tracked, More<Tracked> > >::define("set<tracked,greater>");
   TreeObj<SetT<int, LessF<int> > >::define("set<int,coarse>");
}
void define_trees()
{
   TreeObj<TreeT<Tracked, Tracked> >::define("rbtree<tracked,tracked>");
   TreeObj<TreeT<Owning, int> >::define("rbtree<owning,int>");
   TreeObj<TreeT<Picky, int> >::define("rbtree<picky,int>");
   TreeObj<TreeT<Tracked, Tracked, LessF<Tracked> > >::define("rbtree<tracked,tracked,coarse>");
}
}
