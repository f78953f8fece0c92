From bc07040f8da410dd832fbcb5d63836be312ee908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 01/42] fix: assigning a container to itself keeps its contents

---
 ttl/backward_list.hpp | 2 ++
 ttl/fixed_vector.hpp  | 2 ++
 ttl/forward_list.hpp  | 2 ++
 ttl/lazy_queue.hpp    | 2 ++
 ttl/list.hpp          | 2 ++
 ttl/map.hpp           | 2 ++
 ttl/rbtree.hpp        | 2 ++
 ttl/set.hpp           | 2 ++
 ttl/vector.hpp        | 2 ++
 9 files changed, 18 insertions(+)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index f46213f..d70acf2 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -120,6 +120,8 @@ namespace ttl
 
       backward_list &operator=(const backward_list &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 61099fe..aec20b4 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -167,6 +167,8 @@ namespace ttl
    template<typename T, const unsigned int N>
    fixed_vector<T,N> &fixed_vector<T,N>::operator=(const fixed_vector &other)
    {
+      if (this == &other)
+         return *this;
       clear();
       for (const_iterator i = other.cbegin(); i != other.cend(); ++i)
          ::new(last_++) T(*i);
diff --git a/ttl/forward_list.hpp b/ttl/forward_list.hpp
index df44e9a..86615ac 100644
--- a/ttl/forward_list.hpp
+++ b/ttl/forward_list.hpp
@@ -108,6 +108,8 @@ namespace ttl
 
       forward_list &operator=(const forward_list &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index 446ccec..b9712cb 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -144,6 +144,8 @@ namespace ttl
 
       lazy_queue &operator=(const lazy_queue &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
diff --git a/ttl/list.hpp b/ttl/list.hpp
index 565cdc5..7c91d5c 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -209,6 +209,8 @@ namespace ttl
 
       list &operator=(const list &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert(begin(), other.cbegin(), other.cend());
          return *this;
diff --git a/ttl/map.hpp b/ttl/map.hpp
index 1a52ced..ac1314c 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -181,6 +181,8 @@ namespace ttl
 
       map &operator=(const map &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          rbtree_.assign(other.rbtree_);
          return *this;
diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index addb86a..bc51f25 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -332,6 +332,8 @@ namespace ttl
    template <class K, class KV, class KeyOfValue, class Compare>
    void rbtree<K,KV,KeyOfValue,Compare>::assign(const rbtree &other)
    {
+      if (this == &other)
+         return;
       if (root_())
          clear();
       const node *otherroot = other.get_root();
diff --git a/ttl/set.hpp b/ttl/set.hpp
index a989355..7f41fc3 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -169,6 +169,8 @@ namespace ttl
 
       set &operator=(const set &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          rbtree_.assign(other.rbtree_);
          return *this;
diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index fc42799..69bcd16 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -208,6 +208,8 @@ namespace ttl
    template<typename T>
    vector<T> &vector<T>::operator=(const vector &other)
    {
+      if (this == &other)
+         return *this;
       clear();
       reserve(other.capacity());
       for (const_iterator i = other.cbegin(); i != other.cend(); ++i)
-- 
2.43.0


From 8f494c5da800773660ce2e7c6ae682379795b352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 02/42] fix: list::clear() left the back link of the list head
 dangling

---
 ttl/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 7c91d5c..0675ba9 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -403,7 +403,7 @@ namespace ttl
       while (head_.next != &head_)
       {
          node *p = static_cast<node *>(head_.next);
-         head_.next = head_.next->next;
+         p->unlink();
          delete p;
       }
    }
-- 
2.43.0


From 4cbf71406894f499a59953ad57131e80120f7a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 03/42] fix: splicing an empty range, or one already in place,
 corrupted the lists

---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 0675ba9..cb41a23 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -35,6 +35,8 @@ namespace ttl
 
       void splice(list_node *first, list_node *last)
       {
+         if (first == last || last == this)
+            return;
          last->prev->next = this;
          first->prev->next = last;
          this->prev->next = first;
-- 
2.43.0


From 5914222bf813775336bcb6a94089404296c58cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 04/42] fix: swapping two empty lists corrupted both

---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index cb41a23..abde9fd 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -78,6 +78,8 @@ namespace ttl
                t = a, a = b, b = t; // swap
             }
          }
+         else if (b == b->next)
+            return;
          a->prev = b->prev;
          a->next = b->next;
          b->prev->next = b->next->prev = a;
-- 
2.43.0


From de01f48dde63dec8a810f334be166e7cb5e1b2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 05/42] fix: list::resize() left new elements of scalar types
 uninitialized

---
 ttl/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index abde9fd..da6cba4 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -128,7 +128,7 @@ namespace ttl
       struct node: list_node
       {
          T value;
-         node() {}
+         node(): value() {}
          node(const T &v): value(v) {}
       };
       list_node head_;
-- 
2.43.0


From f0f4d33bf5f6699a4ec389f8781e70e6c36a94eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 06/42] fix: list::resize(0) kept all the elements

---
 ttl/list.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index da6cba4..6ca1471 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -366,6 +366,11 @@ namespace ttl
    template<typename T>
    void list<T>::resize(size_type newsize)
    {
+      if (!newsize)
+      {
+         clear();
+         return;
+      }
       size_type siz = 0;
       list_node *p;
       for (p = head_.next; p != &head_; p = p->next)
@@ -385,6 +390,11 @@ namespace ttl
    template<typename T>
    void list<T>::resize(size_type newsize, const T &value)
    {
+      if (!newsize)
+      {
+         clear();
+         return;
+      }
       size_type siz = 0;
       list_node *p;
       for (p = head_.next; p != &head_; p = p->next)
-- 
2.43.0


From d70b17d36b4c152db9e3728c5668a9ab7772082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 07/42] fix: list::remove() used its argument after destroying
 the element it refers to

---
 ttl/list.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 6ca1471..f508874 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -437,11 +437,12 @@ namespace ttl
    template<typename T>
    void list<T>::remove(const T &value)
    {
+      list removed; // value may refer to an element of this list
       for (list_node *p = head_.next, *n = p->next; p != &head_; p = n, n = n->next)
          if (static_cast<const node *>(p)->value == value)
          {
             p->unlink();
-            delete static_cast<node *>(p);
+            removed.head_.insert_before(p);
          }
    }
    template<typename T>
-- 
2.43.0


From c14a63c4de5f8f08ec332bcb7b5ad2e26914389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:27 +0000
Subject: [PATCH 08/42] fix: list::erase() of an empty range erased everything

---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index f508874..58c206b 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -425,6 +425,8 @@ namespace ttl
    typename list<T>::iterator list<T>::erase(const_iterator pos, const_iterator last)
    {
       list_node *p = const_cast<list_node *>(pos.head_);
+      if (p == last.head_)
+         return iterator(p);
       while (p->next != last.head_)
       {
          node *next = static_cast<node *>(p->next);
-- 
2.43.0


From 40bf0f95d4cc500cbd007cc8c86422c8d6c7e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 09/42] fix: forward_list::splice_after() of nothing, or of
 elements already in place, corrupted the lists

---
 ttl/slist_node.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/slist_node.hpp b/ttl/slist_node.hpp
index 1c9b74a..1ef03ec 100644
--- a/ttl/slist_node.hpp
+++ b/ttl/slist_node.hpp
@@ -30,12 +30,16 @@ namespace ttl
       void splice_after(slist_node *o)
       {
          slist_node *n = o->next;
+         if (n == this)
+            return;
          o->next = n->next;
          n->next = next;
          next = n;
       }
       void splice_after(slist_node *f, slist_node *l)
       {
+         if (f == this || f == l || f->next == l)
+            return;
          slist_node *n = next;
          next = f->next;
          slist_node *o = f;
-- 
2.43.0


From a125965618ebf9a3134031508a9d8ae7efbd0b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 10/42] fix: backward_list::insert_after() of a range at the
 end lost the tail

---
 ttl/backward_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index d70acf2..d308309 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -268,7 +268,7 @@ namespace ttl
       for ( ; first != last; ++first)
          p = p->insert_after(new node(*first));
       if (pn == tail_)
-         tail_ = pn;
+         tail_ = p;
    }
    template<typename T>
    void backward_list<T>::clear()
-- 
2.43.0


From 06df27f87986c681027ed11ffd95dbc59a2a2098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 11/42] fix: backward_list::pop_front() of the last element
 left the tail dangling

---
 ttl/backward_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index d308309..ba290f3 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -175,7 +175,7 @@ namespace ttl
       void pop_front()
       {
          delete static_cast<node *>(head_.unlink_next());
-         if (empty())
+         if (!head_.next)
             tail_ = &head_;
       }
 
-- 
2.43.0


From 24f3cc2028ca5154c81f9369854fb87784559a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 12/42] fix: swapping a backward_list or a lazy_queue with an
 empty one crossed their tails

---
 ttl/backward_list.hpp | 4 ++++
 ttl/lazy_queue.hpp    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index ba290f3..517ad34 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -221,6 +221,10 @@ namespace ttl
       {
          ttl::swap(head_.next, other.head_.next);
          ttl::swap(tail_, other.tail_);
+         if (!head_.next)
+            tail_ = &head_;
+         if (!other.head_.next)
+            other.tail_ = &other.head_;
       }
 
       void clear();
diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index b9712cb..a995462 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -209,6 +209,10 @@ namespace ttl
       {
          ttl::swap(head_.next, other.head_.next);
          ttl::swap(tail_, other.tail_);
+         if (!head_.next)
+            tail_ = &head_;
+         if (!other.head_.next)
+            other.tail_ = &other.head_;
       }
 
       void clear();
-- 
2.43.0


From 9901823c38af0c49a4d1fd4a1487a320e3231346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 13/42] fix: backward_list::reverse() of an empty list cleared
 the tail

---
 ttl/backward_list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index 517ad34..dd0c872 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -294,6 +294,8 @@ namespace ttl
    template<typename T>
    void backward_list<T>::reverse()
    {
+      if (!head_.next)
+         return;
       tail_ = head_.next;
       head_.reverse();
    }
-- 
2.43.0


From c186bac9a107864ebe91430510e908ea5f1616de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:11 +0000
Subject: [PATCH 14/42] fix: lazy_queue::cleanup() destroyed elements which
 were destroyed already

---
 ttl/lazy_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index a995462..ecbf7ff 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -139,7 +139,7 @@ namespace ttl
       void cleanup()
       {
          while (dead_.next)
-            ::delete(static_cast<node *>(dead_.unlink_next()));
+            ::operator delete(static_cast<node *>(dead_.unlink_next()));
       }
 
       lazy_queue &operator=(const lazy_queue &other)
-- 
2.43.0


From 7ace683a115ee64b0bb5c920eb31bb3b1d81cc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 15/42] fix: an insertion of many elements interrupted by an
 exception lost the tail

---
 ttl/backward_list.hpp | 24 ++++++++++++++----------
 ttl/lazy_queue.hpp    | 24 ++++++++++++++----------
 2 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index dd0c872..f145565 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -256,23 +256,27 @@ namespace ttl
    template<typename T>
    void backward_list<T>::insert_after(const_iterator pos, size_type n, const T &value)
    {
-      slist_node *pn = const_cast<slist_node *>(pos.head_);
-      slist_node *p = pn;
+      slist_node *p = const_cast<slist_node *>(pos.head_);
       while (n--)
-         p = p->insert_after(new node(value));
-      if (pn == tail_)
-         tail_ = p;
+      {
+         slist_node *i = p->insert_after(new node(value));
+         if (p == tail_)
+            tail_ = i;
+         p = i;
+      }
    }
    template<typename T>
    template<typename InputIterator>
    void backward_list<T>::insert_after(const_iterator pos, InputIterator first, InputIterator last)
    {
-      slist_node *pn = const_cast<slist_node *>(pos.head_);
-      slist_node *p = pn;
+      slist_node *p = const_cast<slist_node *>(pos.head_);
       for ( ; first != last; ++first)
-         p = p->insert_after(new node(*first));
-      if (pn == tail_)
-         tail_ = p;
+      {
+         slist_node *i = p->insert_after(new node(*first));
+         if (p == tail_)
+            tail_ = i;
+         p = i;
+      }
    }
    template<typename T>
    void backward_list<T>::clear()
diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index ecbf7ff..7ba0127 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -233,23 +233,27 @@ namespace ttl
    template<typename T>
    void lazy_queue<T>::insert_after(const_iterator pos, size_type n, const T &value)
    {
-      slist_node *pn = const_cast<slist_node *>(pos.head_);
-      slist_node *p = pn;
+      slist_node *p = const_cast<slist_node *>(pos.head_);
       while (n--)
-         p = p->insert_after(get_node(value));
-      if (pn == tail_)
-         tail_ = p;
+      {
+         slist_node *i = p->insert_after(get_node(value));
+         if (p == tail_)
+            tail_ = i;
+         p = i;
+      }
    }
    template<typename T>
    template<typename InputIterator>
    void lazy_queue<T>::insert_after(const_iterator pos, InputIterator first, InputIterator last)
    {
-      slist_node *pn = const_cast<slist_node *>(pos.head_);
-      slist_node *p = pn;
+      slist_node *p = const_cast<slist_node *>(pos.head_);
       for ( ; first != last; ++first)
-         p = p->insert_after(get_node(*first));
-      if (pn == tail_)
-         tail_ = p;
+      {
+         slist_node *i = p->insert_after(get_node(*first));
+         if (p == tail_)
+            tail_ = i;
+         p = i;
+      }
    }
    template<typename T>
    typename lazy_queue<T>::iterator lazy_queue<T>::erase_after(const_iterator pos)
-- 
2.43.0


From 17ff2621ae4d1a2576199037199f362de8385587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 16/42] fix: lazy_queue lost a node if copying the element
 threw

---
 ttl/lazy_queue.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index 7ba0127..8ab93b5 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -44,9 +44,11 @@ namespace ttl
 
       node *get_node(const T &v)
       {
-         node *n = static_cast<node *>(dead_.next ? dead_.unlink_next(): ::operator new(sizeof(node)));
-         ::new(&n->value) T(v);
-         return n;
+         // the node stays pooled until its element is complete
+         if (!dead_.next)
+            dead_.insert_after(static_cast<node *>(::operator new(sizeof(node))));
+         ::new(&static_cast<node *>(dead_.next)->value) T(v);
+         return static_cast<node *>(dead_.unlink_next());
       }
       void put_node(node *n)
       {
-- 
2.43.0


From 9d12ffd5ef843e2404e78afb4d72373551185344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 17/42] fix: an interrupted copy of a tree leaked the nodes
 copied so far

---
 ttl/rbtree.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index bc51f25..29de1f7 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -293,7 +293,7 @@ namespace ttl
       Compare is_less_;
 
       void postorder_destroy(node *n);
-      rbnode *preorder_copy(const node *n);
+      void preorder_copy(const node *n, rbnode **to, rbnode *parent);
    };
 
    template <class K, class KV, class KeyOfValue, class Compare>
@@ -310,23 +310,17 @@ namespace ttl
    }
 
    template <class K, class KV, class KeyOfValue, class Compare>
-   rbnode *rbtree<K,KV,KeyOfValue,Compare>::preorder_copy(const node *n)
+   void rbtree<K,KV,KeyOfValue,Compare>::preorder_copy(const node *n, rbnode **to, rbnode *parent)
    {
-      if (!n)
-         return 0;
       node *nc = new node(n->data);
       nc->color = n->color;
+      nc->left = nc->right = 0;
+      nc->parent = parent;
+      *to = nc;
       if (n->left)
-         nc->left = preorder_copy(static_cast<const node *>(n->left)),
-         nc->left->parent = nc;
-      else
-         nc->left = 0;
+         preorder_copy(static_cast<const node *>(n->left), &nc->left, nc);
       if (n->right)
-         nc->right = preorder_copy(static_cast<const node *>(n->right)),
-         nc->right->parent = nc;
-      else
-         nc->right = 0;
-      return nc;
+         preorder_copy(static_cast<const node *>(n->right), &nc->right, nc);
    }
 
    template <class K, class KV, class KeyOfValue, class Compare>
@@ -338,7 +332,13 @@ namespace ttl
          clear();
       const node *otherroot = other.get_root();
       if (otherroot)
-         (*root_edge() = preorder_copy(otherroot))->parent = &header_;
+      {
+         rbtree copy; // frees the nodes copied so far, should one of them fail
+         preorder_copy(otherroot, copy.root_edge(), &copy.header_);
+         *root_edge() = copy.root_();
+         *copy.root_edge() = 0;
+         root_()->parent = &header_;
+      }
    }
 
    template <class K, class KV, class KeyOfValue, class Compare>
-- 
2.43.0


From 46cb37ae7994728d7f1d2db15c2b6e013072dcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:36 +0000
Subject: [PATCH 18/42] fix: an interrupted construction of a list or queue
 leaked the elements made so far

---
 ttl/backward_list.hpp | 22 +++++++++++++++++++---
 ttl/forward_list.hpp  | 18 +++++++++++++++---
 ttl/lazy_queue.hpp    | 17 +++++++++++++++--
 ttl/list.hpp          | 12 +++++++++---
 4 files changed, 58 insertions(+), 11 deletions(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index f145565..f6f54f0 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -37,6 +37,16 @@ namespace ttl
       slist_node head_;
       slist_node *tail_;
 
+      void adopt(backward_list &other) // only for an empty list
+      {
+         if (other.empty())
+            return;
+         tail_ = other.tail_;
+         other.tail_ = &other.head_;
+         head_.next = other.head_.next;
+         other.head_.next = 0;
+      }
+
    public:
       class const_iterator;
 
@@ -101,20 +111,26 @@ namespace ttl
       {
          head_.next = 0;
          tail_ = &head_;
-         insert_after(cbefore_begin(), other.cbegin(), other.cend());
+         backward_list t; // frees the elements should copying be interrupted
+         t.insert_after(t.cbefore_begin(), other.cbegin(), other.cend());
+         adopt(t);
       }
       backward_list(size_type n, const T &value)
       {
          head_.next = 0;
          tail_ = &head_;
-         insert_after(cbefore_begin(), n, value);
+         backward_list t;
+         t.insert_after(t.cbefore_begin(), n, value);
+         adopt(t);
       }
       template<typename InputIterator>
       backward_list(InputIterator first, InputIterator last)
       {
          head_.next = 0;
          tail_ = &head_;
-         insert_after(cbefore_begin(), first, last);
+         backward_list t;
+         t.insert_after(t.cbefore_begin(), first, last);
+         adopt(t);
       }
       ~backward_list() { clear(); }
 
diff --git a/ttl/forward_list.hpp b/ttl/forward_list.hpp
index 86615ac..870abab 100644
--- a/ttl/forward_list.hpp
+++ b/ttl/forward_list.hpp
@@ -32,6 +32,12 @@ namespace ttl
       };
       slist_node head_;
 
+      void adopt(forward_list &other) // only for an empty list
+      {
+         head_.next = other.head_.next;
+         other.head_.next = 0;
+      }
+
    public:
       class const_iterator;
 
@@ -91,18 +97,24 @@ namespace ttl
       forward_list(const forward_list &other)
       {
          head_.next = 0;
-         insert_after(cbefore_begin(), other.cbegin(), other.cend());
+         forward_list t; // frees the elements should copying be interrupted
+         t.insert_after(t.cbefore_begin(), other.cbegin(), other.cend());
+         adopt(t);
       }
       forward_list(size_type n, const T &value)
       {
          head_.next = 0;
-         insert_after(cbefore_begin(), n, value);
+         forward_list t;
+         t.insert_after(t.cbefore_begin(), n, value);
+         adopt(t);
       }
       template<typename InputIterator>
       forward_list(InputIterator first, InputIterator last)
       {
          head_.next = 0;
-         insert_after(cbefore_begin(), first, last);
+         forward_list t;
+         t.insert_after(t.cbefore_begin(), first, last);
+         adopt(t);
       }
       ~forward_list() { clear(); }
 
diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index 8ab93b5..4dd5c12 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -42,6 +42,15 @@ namespace ttl
       slist_node *tail_;
       slist_node dead_;
 
+      void adopt(lazy_queue &other) // only for an empty queue
+      {
+         if (other.empty())
+            return;
+         head_.next = other.head_.next;
+         tail_ = other.tail_;
+         other.head_.next = 0;
+         other.tail_ = &other.head_;
+      }
       node *get_node(const T &v)
       {
          // the node stays pooled until its element is complete
@@ -122,14 +131,18 @@ namespace ttl
          head_.next = 0;
          tail_ = &head_;
          dead_.next = 0;
-         insert_after(cbefore_begin(), other.cbegin(), other.cend());
+         lazy_queue q; // frees the elements should copying be interrupted
+         q.insert_after(q.cbefore_begin(), other.cbegin(), other.cend());
+         adopt(q);
       }
       lazy_queue(size_type n, const T &value)
       {
          head_.next = 0;
          tail_ = &head_;
          dead_.next = 0;
-         insert_after(cbefore_begin(), n, value);
+         lazy_queue q;
+         q.insert_after(q.cbefore_begin(), n, value);
+         adopt(q);
       }
       ~lazy_queue()
       {
diff --git a/ttl/list.hpp b/ttl/list.hpp
index 58c206b..2633ab8 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -196,18 +196,24 @@ namespace ttl
       list(const list &other)
       {
          head_.init();
-         insert(cbegin(), other.cbegin(), other.cend());
+         list t; // frees the elements should copying be interrupted
+         t.insert(t.cbegin(), other.cbegin(), other.cend());
+         swap(t);
       }
       list(size_type n, const T &value)
       {
          head_.init();
-         insert(cend(), n, value);
+         list t;
+         t.insert(t.cend(), n, value);
+         swap(t);
       }
       template<typename InputIterator>
       list(InputIterator first, InputIterator last)
       {
          head_.init();
-         insert(end(), first, last);
+         list t;
+         t.insert(t.end(), first, last);
+         swap(t);
       }
       ~list() { clear(); }
 
-- 
2.43.0


From 056ae4d887ab3395e1372611739493834453ce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 19/42] fix: upper_bound() and equal_range() of absent keys in
 map and set were one element off

---
 ttl/map.hpp | 18 ++++--------------
 ttl/set.hpp | 18 ++++--------------
 2 files changed, 8 insertions(+), 28 deletions(-)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index ac1314c..32419cd 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -275,18 +275,12 @@ namespace ttl
    template<typename KT, typename T, typename Compare>
    typename map<KT,T,Compare>::iterator map<KT,T,Compare>::upper_bound(const KT &key)
    {
-      node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return iterator(static_cast<node_type *>(rbtree_base::next_node(lo)));
+      return iterator(rbtree_.upper_bound(key));
    }
    template<typename KT, typename T, typename Compare>
    typename map<KT,T,Compare>::const_iterator map<KT,T,Compare>::upper_bound(const KT &key) const
    {
-      const node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return const_iterator(static_cast<const node_type *>(rbtree_base::next_node(lo)));
+      return const_iterator(rbtree_.upper_bound(key));
    }
 
    template<typename KT, typename T, typename Compare>
@@ -294,9 +288,7 @@ namespace ttl
    map<KT,T,Compare>::equal_range(const KT &key)
    {
       node_type *lo = rbtree_.lower_bound(key);
-      node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<node_type *>(rbtree_base::next_node(lo));
+      node_type *up = rbtree_.upper_bound(key);
       return pair<iterator, iterator>(iterator(lo), iterator(up));
    }
    template<typename KT, typename T, typename Compare>
@@ -304,9 +296,7 @@ namespace ttl
    map<KT,T,Compare>::equal_range(const KT &key) const
    {
       const node_type *lo = rbtree_.lower_bound(key);
-      const node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<const node_type *>(rbtree_base::next_node(lo));
+      const node_type *up = rbtree_.upper_bound(key);
       return pair<const_iterator, const_iterator>(const_iterator(lo), const_iterator(up));
    }
 
diff --git a/ttl/set.hpp b/ttl/set.hpp
index 7f41fc3..1681ac2 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -252,18 +252,12 @@ namespace ttl
    template<typename KT, typename Compare>
    typename set<KT,Compare>::iterator set<KT,Compare>::upper_bound(const KT &key)
    {
-      node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return iterator(static_cast<node_type *>(rbtree_base::next_node(lo)));
+      return iterator(rbtree_.upper_bound(key));
    }
    template<typename KT, typename Compare>
    typename set<KT,Compare>::const_iterator set<KT,Compare>::upper_bound(const KT &key) const
    {
-      const node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return const_iterator(static_cast<const node_type *>(rbtree_base::next_node(lo)));
+      return const_iterator(rbtree_.upper_bound(key));
    }
 
    template<typename KT, typename Compare>
@@ -271,9 +265,7 @@ namespace ttl
    set<KT,Compare>::equal_range(const KT &key)
    {
       node_type *lo = rbtree_.lower_bound(key);
-      node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<node_type *>(rbtree_base::next_node(lo));
+      node_type *up = rbtree_.upper_bound(key);
       return pair<iterator, iterator>(iterator(lo), iterator(up));
    }
    template<typename KT, typename Compare>
@@ -281,9 +273,7 @@ namespace ttl
    set<KT,Compare>::equal_range(const KT &key) const
    {
       const node_type *lo = rbtree_.lower_bound(key);
-      const node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<const node_type *>(rbtree_base::next_node(lo));
+      const node_type *up = rbtree_.upper_bound(key);
       return pair<const_iterator, const_iterator>(const_iterator(lo), const_iterator(up));
    }
 
-- 
2.43.0


From 6a6b29c82477628b2ee6d41ee155aa8d9ff92fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:19 +0000
Subject: [PATCH 20/42] fix: rbtree::count() missed some of the equal keys

---
 ttl/rbtree.hpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index 29de1f7..4b844d7 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -352,20 +352,10 @@ namespace ttl
    template <class K, class KV, class KeyOfValue, class Compare>
    size_t rbtree<K,KV,KeyOfValue,Compare>::count(const K &key) const
    {
-      const rbnode *n = root_();
       size_t c = 0;
-      while (n)
-      {
-         const K &nkey = keyof_(static_cast<const node *>(n)->data);
-         if (is_less_(nkey, key))
-            n = n->right;
-         else
-         {
-            if (nkey == key)
-               ++c;
-            n = n->left;
-         }
-      }
+      const rbnode *last = upper_bound(key);
+      for (const rbnode *n = lower_bound(key); n != last; n = next_node(n))
+         ++c;
       return c;
    }
 
-- 
2.43.0


From 869a2eb82b636604e8dbbd35fd696076107b5266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:55 +0000
Subject: [PATCH 21/42] fix: sorted_vector_map::count() was inverted

---
 ttl/sorted_vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index 487b685..592a00a 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -158,7 +158,7 @@ namespace ttl
       iterator find(const KT &key);
       const_iterator find(const KT &key) const;
 
-      size_type count(const KT &key) const { return find(key) == cend(); }
+      size_type count(const KT &key) const { return find(key) != cend(); }
 
       ttl::pair<iterator,iterator> equal_range(const KT &key)
       {
-- 
2.43.0


From 3c1087b1d635bd68ee71fb77aecbec4250c8ad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 22/42] fix: a sorted_vector_map preallocated for one element
 never grew and wrote past its storage

---
 ttl/sorted_vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index 592a00a..eced061 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -280,7 +280,7 @@ namespace ttl
          value_type **i;
          size_type newcapacity = end_of_elements_ - elements_;
          newcapacity += newcapacity/2; // temporarily funny...
-         if (!newcapacity)
+         if (newcapacity < 2)
             newcapacity = 2;
          value_type **newelements = o = new value_type *[newcapacity];
          for (i = elements_; i != pos.ptr_;)
-- 
2.43.0


From 063ef1ccc8ab2bee4ffa0dbef2c4d75fcc5dd404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 23/42] fix: vector_map::count() of a present key never ended

---
 ttl/vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/vector_map.hpp b/ttl/vector_map.hpp
index 711b91d..6b692da 100644
--- a/ttl/vector_map.hpp
+++ b/ttl/vector_map.hpp
@@ -69,7 +69,7 @@ namespace ttl
       size_type count(const KT &key) const
       {
          size_type n = 0;
-         for (const_iterator i = begin(); (i = find_key(i, key)) != end();)
+         for (const_iterator i = begin(); (i = find_key(i, key)) != end(); ++i)
             ++n;
          return n;
       }
-- 
2.43.0


From 0e94da57d6fb7aaa59cc28481c59bbf007b61003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 24/42] fix: an interrupted copy of a sorted_vector_map leaked
 the elements copied so far

---
 ttl/sorted_vector_map.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index eced061..946ced1 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -224,11 +224,17 @@ namespace ttl
    template<typename KT, typename T, typename Compare>
    sorted_vector_map<KT,T,Compare>::sorted_vector_map(const sorted_vector_map& other)
    {
-      size_type prealloc = other.end_of_elements_ - other.elements_;
-      elements_ = last_ = new value_type*[prealloc];
-      end_of_elements_ = elements_ + prealloc;
+      // frees the elements should copying be interrupted
+      sorted_vector_map copy(static_cast<size_type>(other.end_of_elements_ - other.elements_));
       for (const value_type * const *i = other.elements_; i != other.last_; ++i)
-         *last_++ = new value_type(**i);
+      {
+         *copy.last_ = new value_type(**i);
+         ++copy.last_;
+      }
+      elements_ = copy.elements_;
+      last_ = copy.last_;
+      end_of_elements_ = copy.end_of_elements_;
+      copy.elements_ = copy.last_ = copy.end_of_elements_ = 0;
    }
 
    template<typename KT, typename T, typename Compare>
-- 
2.43.0


From 6882ed1afa61b05ef8ddb8466e21f09f015102be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 25/42] fix: an insertion interrupted by an exception left a
 sorted_vector_map broken

---
 ttl/sorted_vector_map.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index 946ced1..c6fcea4 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -289,11 +289,8 @@ namespace ttl
          if (newcapacity < 2)
             newcapacity = 2;
          value_type **newelements = o = new value_type *[newcapacity];
-         for (i = elements_; i != pos.ptr_;)
-            *o++ = *i++;
-         *o = new value_type(value);
-         pos = iterator(o++);
-         for (; i != last_;)
+         pos = iterator(newelements + (pos.ptr_ - elements_));
+         for (i = elements_; i != last_;)
             *o++ = *i++;
          delete [] elements_;
          elements_ = newelements;
@@ -301,13 +298,13 @@ namespace ttl
          last_ = o;
          while (o < end_of_elements_)
             *o++ = (value_type *)0;
-         return pos;
       }
+      value_type *added = new value_type(value); // can fail, nothing is moved yet
       value_type **i = last_++;
       value_type **o = last_;
       while (i != pos.ptr_)
          *--o = *--i;
-      *i = new value_type(value);
+      *i = added;
       return iterator(i);
    }
 }
-- 
2.43.0


From 9e57e1547e26592880f0c027eb94d625cc10fc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 26/42] fix: inserting an element of a vector into the same
 vector could insert something else

---
 ttl/fixed_vector.hpp | 3 ++-
 ttl/vector.hpp       | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index aec20b4..cde334c 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -206,6 +206,7 @@ namespace ttl
          T *o;
          if (pos < end())
          {
+            const T value(x); // x may refer to an element which is about to move
             T *p = elements() + dist, *i = last_;
             for (o = last_ + n; end_of_elements() < o && i != p; --o)
                (--i)->~T();
@@ -218,7 +219,7 @@ namespace ttl
                i->~T();
             }
             for (o = p; n-- && o < end_of_elements();)
-               ::new(o++) T(x);
+               ::new(o++) T(value);
          }
          else
          {
diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index 69bcd16..d343358 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -121,14 +121,14 @@ namespace ttl
 
       iterator insert(const_iterator pos, size_type n, const value_type &x)
       {
-         vc_counter_args args(x);
+         const value_type value(x); // x may refer to an element which is about to move
+         vc_counter_args args(value);
          return insert_values(pos, n, &ttl::vector<T>::vc_counter, args);
       }
 
       iterator insert(const_iterator pos, const value_type &x)
       {
-         vc_counter_args args(x);
-         return insert_values(pos, 1, &ttl::vector<T>::vc_counter, args);
+         return insert(pos, (size_type)1, x);
       }
 
       template<typename InputIterator>
-- 
2.43.0


From 6167fd8d7aa7e73a37fc9ab4ac78399485cabc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:22 +0000
Subject: [PATCH 27/42] fix: erasing an empty range copied the elements of a
 vector onto themselves and destroyed them

---
 ttl/fixed_vector.hpp | 2 ++
 ttl/vector.hpp       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index cde334c..c8aa428 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -267,6 +267,8 @@ namespace ttl
    {
       difference_type off = first - begin();
       difference_type lastoff = last - begin();
+      if (off == lastoff)
+         return begin() + off;
       for (T *f = elements() + off, *l = elements() + lastoff; f != l;)
          (--l)->~T();
       T *o = elements() + off;
diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index d343358..92c7379 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -307,6 +307,8 @@ namespace ttl
    {
       difference_type off = first - begin();
       difference_type lastoff = last - begin();
+      if (off == lastoff)
+         return begin() + off;
       for (T *f = elements_ + off, *l = elements_ + lastoff; f != l;)
          (--l)->~T();
       T *o = elements_ + off;
-- 
2.43.0


From eca718484cd902b79b8b51939e63ee323140596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 28/42] fix: fixed_vector::swap() with a smaller one lost the
 elements in excess

---
 ttl/fixed_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index c8aa428..33c3f6f 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -287,7 +287,7 @@ namespace ttl
       const bool this_a = this->size() < x.size();
       fixed_vector &a = this_a ? *this: x;
       fixed_vector &b = this_a ? x: *this;
-      size_type minsiz = this_a ? a.size(): b.size();
+      size_type minsiz = a.size();
       ttl::swap_ranges(a.elements(), a.elements() + minsiz, b.elements());
       T *e = b.elements() + minsiz;
       while (e < b.last_)
-- 
2.43.0


From bd7a3a98df2f8d9eb19820f92ec54355cebc6bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 29/42] fix: rbtree::remove() lost elements if the key was in
 the tree more than once

---
 ttl/rbtree.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index 4b844d7..f975bc2 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -482,12 +482,13 @@ namespace ttl
                *root = 0;
                break;
             }
+            rbnode *pivot = *root;
             if ((*root)->right && !is_red((*root)->right) && !is_red((*root)->right->left))
-            {
                *root = move_right(*root);
-               isless = is_less_(key, keyof_(static_cast<const node *>(*root)->data));
-            }
-            if (key == keyof_(static_cast<const node *>(*root)->data))
+            // if the pivot was moved to the right, look for the key there: an
+            // equal key on top of it must not be replaced before the right
+            // side is in order.
+            if (*root == pivot && key == keyof_(static_cast<const node *>(*root)->data))
             {
                rbnode *orphan = delete_min(&(*root)->right);
                orphan->color = (*root)->color;
-- 
2.43.0


From 62172f87c9665910851bfae063e5485d353cc3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 30/42] fix: merging a list with itself never returned

---
 ttl/list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 2633ab8..3c825f7 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -494,6 +494,8 @@ namespace ttl
    template<typename T>
    void list<T>::merge(list &other) // merge sorted lists
    {
+      if (this == &other)
+         return;
       list_node *o = other.head_.next;
       for (list_node *i = head_.next; o != &other.head_ && i != &head_;)
       {
@@ -515,6 +517,8 @@ namespace ttl
    template<typename Compare>
    void list<T>::merge(list &other, Compare cmp)
    {
+      if (this == &other)
+         return;
       list_node *o = other.head_.next;
       for (list_node *i = head_.next; o != &other.head_ && i != &head_;)
       {
-- 
2.43.0


From ff64a79c4277a70795e7123041fe689227f9876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 31/42] fix: sorted_vector_map::equal_range() of an absent key
 was always at the end

---
 ttl/sorted_vector_map.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index c6fcea4..c986e87 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -162,19 +162,11 @@ namespace ttl
 
       ttl::pair<iterator,iterator> equal_range(const KT &key)
       {
-         iterator i1 = find(key);
-         iterator i2 = i1;
-         if (i2 != end())
-            ++i2;
-         return ttl::make_pair(i1, i2);
+         return ttl::make_pair(lower_bound(key), upper_bound(key));
       }
       ttl::pair<const_iterator,const_iterator> equal_range(const KT &key) const
       {
-         const_iterator i1 = find(key);
-         const_iterator i2 = i1;
-         if (i2 != cend())
-            ++i2;
-         return ttl::make_pair(i1, i2);
+         return ttl::make_pair(lower_bound(key), upper_bound(key));
       }
 
       iterator lower_bound(const KT &key) { return find_insert_pos(key); }
-- 
2.43.0


From c894ef1fccb1e56bdeca1b1652977f5ae352f31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 32/42] fix: vector::reserve of nearly the whole address space
 reported success without reserving

---
 ttl/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index 92c7379..8f298ce 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -236,7 +236,7 @@ namespace ttl
    template<typename T>
    void vector<T>::reserve(size_type n)
    {
-      if (elements_ + n < end_of_elements_)
+      if (n < capacity())
          return;
       T *newelements = static_cast<T *>(::operator new(n * sizeof(T)));
       T *o = newelements, *i = elements_;
-- 
2.43.0


From 7c816832c88162cebb2de91865d966b6b1a69695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 33/42] fix: fixed_vector insertion of very many copies lost
 the elements behind it instead of filling up

---
 ttl/fixed_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 33c3f6f..9fc6678 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -208,7 +208,7 @@ namespace ttl
          {
             const T value(x); // x may refer to an element which is about to move
             T *p = elements() + dist, *i = last_;
-            for (o = last_ + n; end_of_elements() < o && i != p; --o)
+            for (o = last_ + (n < N ? n : N); end_of_elements() < o && i != p; --o)
                (--i)->~T();
             if (end_of_elements() < o)
                o = end_of_elements();
-- 
2.43.0


From f6765cd6a779e46a405b7749c102aeab2c82e745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 34/42] fix: fixed_vector put elements with strict alignment at
 misaligned addresses

---
 ttl/fixed_vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 9fc6678..a2e52c2 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -34,6 +34,9 @@ namespace ttl
       typedef ttl::ptrdiff_t difference_type;
 
    private:
+#if __cplusplus >= 201103L // C++11
+      alignas(T)
+#endif
       union { char b[sizeof(T)]; } bytes_[N];
       T *last_;
       T *elements() const { return (T *)bytes_; }
-- 
2.43.0


From c825b5011aad59defe716b0ccf18cea12e67c46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 35/42] fix: bitset made from a text longer than itself wrote
 past its end

---
 ttl/bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 9f95580..9dd8476 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -198,6 +198,8 @@ namespace ttl
    bitset<N>::bitset(const char *bits, ttl::size_t n, char zero, char one)
    {
       ttl::size_t i;
+      if (n > N) // there is no place for more
+         n = N;
       for (i = 0; i < n; ++i)
          if (!(bits[i] == zero || bits[i] == one))
             break;
-- 
2.43.0


From 539dcb930870637ff026545bc87f43ec63527d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:38 +0000
Subject: [PATCH 36/42] fix: bitset<0> made from a number wrote past its end

---
 ttl/bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 9dd8476..b1a0be9 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -373,6 +373,8 @@ namespace ttl
       return bitset<N>(a) ^= b;
    }
 
+   template<> inline bitset<0>::bitset(unsigned long) {}
+   template<> inline bitset<0>::bitset(unsigned long long) {}
    template<> inline bitset<0>::slot_type *bitset<0>::bits_slot(ttl::size_t) { return bits_; }
    template<> inline bool bitset<0>::test(ttl::size_t) const { return false; }
    template<> inline bitset<0> &bitset<0>::set() { return *this; }
-- 
2.43.0


From 1eff12930b2dba7f1d6cf35d29f6c246f755fd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:34 +0000
Subject: [PATCH 37/42] fix: vector growth by a count whose size in bytes wraps
 around reported success

---
 ttl/vector.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index 8f298ce..3250591 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -32,6 +32,12 @@ namespace ttl
    private:
       T *elements_, *last_, *end_of_elements_;
 
+      static T *allocate(size_type n)
+      {
+         // a size which cannot be expressed in bytes is one which cannot be allocated
+         return static_cast<T *>(::operator new(n < (size_type)-1 / sizeof(T) ? n * sizeof(T) : (size_type)-1));
+      }
+
       // value constructors (VCs) used to pass new elements to the insertion
       // routine, insert_values
       struct vc_args { };
@@ -57,7 +63,7 @@ namespace ttl
          ::new(p) T(*i);
          ++i;
       }
-      iterator insert_values(const_iterator pos, difference_type n, void (ttl::vector<T>::*)(T *, vc_args &) const, vc_args &);
+      iterator insert_values(const_iterator pos, size_type n, void (ttl::vector<T>::*)(T *, vc_args &) const, vc_args &);
 
    public:
       vector(): elements_(0), last_(0), end_of_elements_(0) {}
@@ -175,7 +181,7 @@ namespace ttl
    template<typename T>
    vector<T>::vector(size_type n)
    {
-      last_ = elements_ = static_cast<T *>(::operator new(n * sizeof(T)));
+      last_ = elements_ = allocate(n);
       end_of_elements_ = elements_ + n;
       while (n--)
          ::new(last_++) T();
@@ -183,7 +189,7 @@ namespace ttl
    template<typename T>
    vector<T>::vector(size_type n, const value_type &value)
    {
-      last_ = elements_ = static_cast<T *>(::operator new(n * sizeof(T)));
+      last_ = elements_ = allocate(n);
       end_of_elements_ = elements_ + n;
       while (n--)
          ::new(last_++) T(value);
@@ -238,7 +244,7 @@ namespace ttl
    {
       if (n < capacity())
          return;
-      T *newelements = static_cast<T *>(::operator new(n * sizeof(T)));
+      T *newelements = allocate(n);
       T *o = newelements, *i = elements_;
       for (; i != last_; ++i)
          ::new(o++) T(*i);
@@ -252,7 +258,7 @@ namespace ttl
 
    template<typename T>
    typename vector<T>::iterator vector<T>::insert_values(const_iterator pos,
-                                                         difference_type n,
+                                                         size_type n,
                                                          void (ttl::vector<T>::* vc)(T *, vc_args &) const,
                                                          vc_args &args)
    {
@@ -261,9 +267,9 @@ namespace ttl
       {
          T *o;
          const T *i;
-         if (end_of_elements_ - last_ < n)
+         if ((size_type)(end_of_elements_ - last_) < n)
          {
-            size_type newcapacity = size() + n;
+            size_type newcapacity = n < max_size() - size() ? size() + n : max_size();
             T *newelements = o = static_cast<T *>(::operator new(newcapacity * sizeof(T)));
             for (i = elements_; i != pos; ++i)
                ::new(o++) T(*i);
-- 
2.43.0


From ddff68230c27b8112fdc55ce3ca657e06f0cd263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:38 +0000
Subject: [PATCH 38/42] fix: bitset element reference beyond the end wrote
 outside the bit set

---
 ttl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index b1a0be9..c0a58af 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -85,7 +85,7 @@ namespace ttl
       }
       reference operator[](ttl::size_t pos)
       {
-         return reference(bits_slot(pos), (pos < N) * 1ul << bits_bit(pos));
+         return reference(bits_slot(pos < N ? pos: 0), (pos < N) * 1ul << bits_bit(pos));
       }
 
       bool test(ttl::size_t pos) const
-- 
2.43.0


From 1c6133d971eba0ba7f83fdecaaa2f8079aac0ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:53 +0000
Subject: [PATCH 39/42] fix: red-black tree told equal keys apart by their
 operator== against the given comparison

---
 ttl/rbtree.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index f975bc2..47c3944 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -369,7 +369,7 @@ namespace ttl
          const K &nkey = keyof_(static_cast<const node *>(n)->data);
          if (is_less_(key, nkey))
             n = n->left;
-         else if (key == nkey)
+         else if (!is_less_(nkey, key))
             break;
          else
             n = n->right;
@@ -440,7 +440,7 @@ namespace ttl
          const K &ekey = keyof_(static_cast<const node *>(*edge)->data);
          if (is_less_(key, ekey))
             parent = *edge, edge = &(*edge)->left;
-         else if (key == ekey)
+         else if (!is_less_(ekey, key))
             return pair<node *, bool>(static_cast<node *>(*edge), false);
          else
             parent = *edge, edge = &(*edge)->right;
@@ -475,8 +475,8 @@ namespace ttl
                isless = is_less_(key, keyof_(static_cast<const node *>(*root)->data));
             }
             if (!isless &&
-                key == keyof_(static_cast<const node *>(*root)->data) &&
-                !(*root)->right)
+                !(*root)->right &&
+                !is_less_(keyof_(static_cast<const node *>(*root)->data), key))
             {
                deleted = *root;
                *root = 0;
@@ -488,7 +488,7 @@ namespace ttl
             // if the pivot was moved to the right, look for the key there: an
             // equal key on top of it must not be replaced before the right
             // side is in order.
-            if (*root == pivot && key == keyof_(static_cast<const node *>(*root)->data))
+            if (*root == pivot && !isless && !is_less_(keyof_(static_cast<const node *>(*root)->data), key))
             {
                rbnode *orphan = delete_min(&(*root)->right);
                orphan->color = (*root)->color;
-- 
2.43.0


From 028069476a40d87fe51e3a6bec413a91246c5e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 40/42] fix: sorted_vector_map told equal keys apart by their
 operator== against the given comparison

---
 ttl/sorted_vector_map.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index c986e87..8bc225c 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -112,7 +112,7 @@ namespace ttl
       T &operator[](const KT &key)
       {
          iterator i = find_insert_pos(key);
-         if (i != end() && i->first == key)
+         if (i != end() && !key_comp()(key, i->first))
             return i->second;
          return insert_before(i, ttl::make_pair(key, T()))->second;
       }
@@ -140,7 +140,7 @@ namespace ttl
       ttl::pair<iterator,bool> insert(const value_type &value)
       {
          iterator i = find_insert_pos(value.first);
-         if (i != end() && i->first == value.first)
+         if (i != end() && !key_comp()(value.first, i->first))
             return ttl::pair<iterator, bool>(i, false);
          return ttl::pair<iterator, bool>(insert_before(i, value), true);
       }
@@ -175,14 +175,14 @@ namespace ttl
       iterator upper_bound(const KT &key)
       {
          iterator i = find_insert_pos(key);
-         while (i != end() && i->first == key)
+         while (i != end() && !key_comp()(key, i->first))
             ++i;
          return i;
       }
       const_iterator upper_bound(const KT &key) const
       {
          const_iterator i = find_insert_pos(key);
-         while (i != cend() && i->first == key)
+         while (i != cend() && !key_comp()(key, i->first))
             ++i;
          return i;
       }
@@ -237,14 +237,12 @@ namespace ttl
       unsigned L = 0, H = size();
       while (L < H) {
          unsigned m = L + (H - L) / 2;
-         if (elements_[m]->first == key)
-            return pair<unsigned, bool>(m, true);
          if (comp(elements_[m]->first, key))
             L = m + 1;
          else
             H = m;
       }
-      return pair<unsigned, bool>(L, false);
+      return pair<unsigned, bool>(L, L < size() && !comp(key, elements_[L]->first));
    }
 
    template<typename KT, typename T, typename Compare>
-- 
2.43.0


From d59e70ea368b6117d00589a3a150d09170afc9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:18 +0000
Subject: [PATCH 41/42] fix: red-black tree was left out of balance by a
 removal whose comparison was interrupted, and later lost elements

---
 ttl/rbtree.hpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index 47c3944..3df3bcb 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -457,6 +457,27 @@ namespace ttl
    rbtree<K,KV,KeyOfValue,Compare>::remove(const K &key)
    {
       rbnode **root = root_edge(), *parent = &header_, *deleted = 0;
+      // the way back up, also taken if a comparison does not return
+      struct ascent
+      {
+         rbtree &tree;
+         rbnode **&root, *&parent;
+         bool interrupted;
+         ascent(rbtree &t, rbnode **&r, rbnode *&p): tree(t), root(r), parent(p), interrupted(true) {}
+         ~ascent()
+         {
+            if (interrupted)
+               *root = fixup(*root);
+            while (parent != &tree.header_)
+            {
+               root = tree.edge(parent);
+               parent = parent->parent;
+               *root = fixup(*root);
+            }
+            if (tree.root_())
+               tree.root_()->color = rbnode::BLACK;
+         }
+      } up(*this, root, parent);
       while (*root)
       {
          parent = (*root)->parent;
@@ -508,14 +529,7 @@ namespace ttl
                root = &(*root)->right;
          }
       }
-      while (parent != &header_)
-      {
-         root = edge(parent);
-         parent = parent->parent;
-         *root = fixup(*root);
-      }
-      if (root_())
-         root_()->color = rbnode::BLACK;
+      up.interrupted = false;
       return static_cast<node *>(deleted);
    }
 }
-- 
2.43.0


From f90c936d6aeb51545308d8597417ddd70a63401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:45 +0000
Subject: [PATCH 42/42] fix: fixed_vector put elements with strict alignment at
 misaligned addresses before C++11

---
 ttl/fixed_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index a2e52c2..0694179 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -36,6 +36,8 @@ namespace ttl
    private:
 #if __cplusplus >= 201103L // C++11
       alignas(T)
+#elif defined(__GNUC__)
+      __attribute__((aligned(__alignof__(T))))
 #endif
       union { char b[sizeof(T)]; } bytes_[N];
       T *last_;
-- 
2.43.0

