#include "lists.h"
namespace sim {
void define_queues()
{
   ListObj<ttl::lazy_queue<Tracked>, Tracked, K_QUEUE>::define("lazy_queue<tracked>", F_QUEUE);
   ListObj<ttl::lazy_queue<Owning>, Owning, K_QUEUE>::define("lazy_queue<owning>", F_QUEUE);
   ListObj<ttl::lazy_queue<int>, int, K_QUEUE>::define("lazy_queue<int>", F_QUEUE);
   ListObj<ttl::lazy_queue<Big>, Big, K_QUEUE>::define("lazy_queue<big>", F_QUEUE);
}
}
