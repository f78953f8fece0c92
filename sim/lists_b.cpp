#include "lists.h"
namespace sim {
void define_slists()
{
   ListObj<ttl::forward_list<Tracked>, Tracked, K_FWD>::define("forward_list<tracked>", F_FWD);
   ListObj<ttl::forward_list<Owning>, Owning, K_FWD>::define("forward_list<owning>", F_FWD);
   ListObj<ttl::forward_list<Picky>, Picky, K_FWD>::define("forward_list<picky>", F_FWD);
   ListObj<ttl::forward_list<int>, int, K_FWD>::define("forward_list<int>", F_FWD);
   ListObj<ttl::backward_list<Tracked>, Tracked, K_BACK>::define("backward_list<tracked>", F_BACK);
   ListObj<ttl::backward_list<Owning>, Owning, K_BACK>::define("backward_list<owning>", F_BACK);
   ListObj<ttl::backward_list<Picky>, Picky, K_BACK>::define("backward_list<picky>", F_BACK);
}
}
