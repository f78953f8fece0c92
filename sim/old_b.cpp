#ifdef WITHOUT_OLD // bin/common.py: the library does not compile as C++98
namespace sim { void define_old_lists() {} }
#else
#include "old.h"
#include "lists.h"
namespace sim
{
void define_old_lists()
{
   ListObj<ttl::list<Tracked>, Tracked, K_LIST>::define("list<tracked> in C++98", F_LIST);
   ListObj<ttl::lazy_queue<Tracked>, Tracked, K_QUEUE>::define("lazy_queue<tracked> in C++98", F_QUEUE);
}
}
#endif
