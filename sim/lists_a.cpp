#include "lists.h"
namespace sim {
void define_lists()
{
   ListObj<ttl::list<Tracked>, Tracked, K_LIST>::define("list<tracked>", F_LIST);
   ListObj<ttl::list<Owning>, Owning, K_LIST>::define("list<owning>", F_LIST);
   ListObj<ttl::list<Big>, Big, K_LIST>::define("list<big>", F_LIST);
   ListObj<ttl::list<Picky>, Picky, K_LIST>::define("list<picky>", F_LIST);
   ListObj<ttl::list<int>, int, K_LIST>::define("list<int>", F_LIST);
}
}
