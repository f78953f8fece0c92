// Adapters for list, forward_list, backward_list and lazy_queue.
#pragma once
#include "seq.h"
#include "ttl/ttl.hpp"
#include "ttl/list.hpp"

namespace sim
{
enum { K_LIST, K_FWD, K_BACK, K_QUEUE };
enum LOp
{
   L_PUSH_FRONT, L_PUSH_BACK, L_POP_FRONT, L_POP_BACK, L_INSERT, L_INSERT_N, L_INSERT_RANGE, L_INSERT_OTHER, L_ERASE,
   L_ERASE_RANGE, L_SPLICE_ALL, L_SPLICE_ONE, L_SPLICE_RANGE, L_SPLICE_ONE_SELF, L_SPLICE_RANGE_SELF, L_SWAP, L_RESIZE,
   L_RESIZE_V, L_CLEAR, L_REMOVE, L_REMOVE_IF, L_UNIQUE, L_UNIQUE_PRED, L_MERGE, L_MERGE_CMP, L_REVERSE, L_ASSIGN_RANGE,
   L_ASSIGN_N, L_ASSIGN_SORTED, L_COPY_ASSIGN, L_REBUILD, L_COPY_CTOR, L_HOLD, L_ROLL, L_CLEANUP, L_READ, L_EQUAL, L_TRAVERSE,
   L_WRITE
};
struct LDef { LOp op; const char *name; u32 flags; u32 weight; u32 kinds; };
static const LDef ldefs[] =
{
   { L_PUSH_FRONT, "push_front", OF_CONST, 8, 15 },
   { L_PUSH_BACK, "push_back", OF_CONST, 10, 13 },
   { L_POP_FRONT, "pop_front", OF_CONST | OF_NOALLOC, 8, 15 },
   { L_POP_BACK, "pop_back", OF_CONST | OF_NOALLOC, 6, 1 },
   { L_INSERT, "insert", OF_CONST, 8, 15 },
   { L_INSERT_N, "insert_n", 0, 5, 15 },
   { L_INSERT_RANGE, "insert_range", 0, 6, 15 },
   { L_INSERT_OTHER, "insert_other", OF_SEC, 3, 15 },
   { L_ERASE, "erase", OF_CONST | OF_NOALLOC, 7, 15 },
   { L_ERASE_RANGE, "erase_range", OF_NOALLOC, 4, 15 },
   { L_SPLICE_ALL, "splice_all", OF_SECW | OF_NOALLOC, 5, 3 },
   { L_SPLICE_ONE, "splice_one", OF_SECW | OF_NOALLOC, 5, 3 },
   { L_SPLICE_RANGE, "splice_range", OF_SECW | OF_NOALLOC, 5, 3 },
   { L_SPLICE_ONE_SELF, "splice_one_self", OF_NOALLOC, 4, 3 },
   { L_SPLICE_RANGE_SELF, "splice_range_self", OF_NOALLOC, 4, 3 },
   { L_SWAP, "swap", OF_SECW | OF_NOALLOC | OF_CONST, 5, 15 },
   { L_RESIZE, "resize", 0, 3, 1 },
   { L_RESIZE_V, "resize_value", 0, 3, 1 },
   { L_CLEAR, "clear", OF_NOALLOC, 3, 15 },
   { L_REMOVE, "remove", OF_NOALLOC, 4, 1 },
   { L_REMOVE_IF, "remove_if", OF_NOALLOC, 3, 1 },
   { L_UNIQUE, "unique", OF_NOALLOC, 3, 1 },
   { L_UNIQUE_PRED, "unique_pred", OF_NOALLOC, 3, 1 },
   { L_MERGE, "merge", OF_SECW | OF_NOALLOC, 5, 1 },
   { L_MERGE_CMP, "merge_cmp", OF_SECW | OF_NOALLOC, 4, 1 },
   { L_REVERSE, "reverse", OF_NOALLOC, 4, 7 },
   { L_ASSIGN_RANGE, "assign_range", 0, 3, 7 },
   { L_ASSIGN_N, "assign_n", 0, 2, 7 },
   { L_ASSIGN_SORTED, "assign_sorted", 0, 4, 1 },
   { L_COPY_ASSIGN, "copy_assign", OF_SEC | OF_COPY, 4, 15 },
   { L_REBUILD, "rebuild", 0, 3, 15 },
   { L_COPY_CTOR, "copy_construct", OF_SEC | OF_COPY, 3, 15 },
   { L_HOLD, "hold_iterator", OF_READ | OF_NOALLOC, 5, 15 },
   { L_ROLL, "roll_head", OF_NOALLOC | OF_CONST, 5, 8 },
   { L_CLEANUP, "cleanup", OF_NOALLOC, 4, 8 },
   { L_READ, "read_access", OF_READ | OF_NOALLOC, 4, 15 },
   { L_EQUAL, "read_equal", OF_READ | OF_SEC | OF_NOALLOC, 3, 7 },
   { L_TRAVERSE, "read_traverse", OF_READ | OF_NOALLOC, 4, 15 },
   { L_WRITE, "write_element", OF_NOALLOC, 2, 15 },
};

template<class E> struct IsOdd { bool operator()(const E &e) const { yield_point(); pick<E>(); return ET<E>::get(e).k & 1; } };
template<class E> struct SameParity { bool operator()(const E &a, const E &b) const { yield_point(); pick<E>(); return !((ET<E>::get(a).k ^ ET<E>::get(b).k) & 1); } };
template<class E> struct ByKey { bool operator()(const E &a, const E &b) const { count_cmp(); yield_point(); pick<E>(); return ET<E>::get(a).k < ET<E>::get(b).k; } };

template<class C, class E, int KIND> struct ListObj: SeqObj
{
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   C *c;
   static std::vector<std::pair<u64, It> > &held() { static std::vector<std::pair<u64, It> > v; return v; }
   static void reset() { held().clear(); }

   ListObj(int i, const ClassDef *d): SeqObj(i, d, false, true), c(0) { on_reset(reset); }
   ~ListObj() {}
   u32 per_elem() const override { return ET<E>::ledger ? 1 : 0; }
   u32 elem_blocks() const override { return model.size() * (ET<E>::owning ? 1 : 0) + (ET<E>::ledger ? 0 : 0) + 0; }

   Need need() const override
   {
      Need r;
      const u32 n = model.size(), own = ET<E>::owning ? n : 0;
      r.lo = 1 + n + own;
      r.hi = 1 + (KIND == K_QUEUE ? std::max(peak, n) : n) + own;
      r.bytes = sizeof(C) + (r.hi - 1 - own) * (sizeof(E) + 32) + own * sizeof(int);
      return r;
   }
   void slot() { c = static_cast<C *>(heap_alloc(sizeof(C), false, false)); }
   void construct() override
   {
      slot();
      attempt([&] { ::new((void *)c) C(); });
      model.clear();
      pool = 0;
   }
   void destroy() override
   {
      attempt([&] { c->~C(); });
      heap_free(c, false);
      c = 0;
      std::set<u64> gone;
      for (size_t i = 0; i < model.size(); ++i) gone.insert(model[i].id);
      drop(gone);
      model.clear();
      pool = peak = 0;
   }
   void drop(const std::set<u64> &ids)
   {
      std::vector<std::pair<u64, It> > &h = held();
      for (size_t i = 0; i < h.size();)
         if (ids.count(h[i].first)) { h[i] = h.back(); h.pop_back(); }
         else ++i;
   }
   bool walk(Seq &out) override
   {
      size_t cap = model.size() + (1 << 18);
      const C &k = *c;
      for (CIt i = k.begin(), e = k.end(); i != e; ++i)
      {
         if (!cap--) return false;
         Ent x = ent(ET<E>::get(*i));
         x.addr = &*i;
         out.push_back(x);
      }
      return true;
   }
   void extra(u32 cat, const char *when) override
   {
      const C &k = *c;
      size_t n = model.size();
      EXPECTC(cat, k.max_size() >= n && k.max_size() <= (size_t)-1 / sizeof(E), "max_size() is %zu (%s)", (size_t)k.max_size(), when);
      EXPECTC(cat, k.empty() == (n == 0), "empty() is %d with %zu elements (%s)", (int)k.empty(), n, when);
      if (n)
      {
         EXPECTC(cat, &k.front() == model[0].addr, "front() is not the first element (%s)", when);
         EXPECTC(cat, &c->front() == model[0].addr, "front() is not the first element (%s)", when);
      }
      if constexpr (KIND == K_LIST)
      {
         EXPECTC(cat, k.size() == n, "size() is %zu with %zu elements (%s)", (size_t)k.size(), n, when);
         if (n)
         {
            EXPECTC(cat, &k.back() == model[n - 1].addr, "back() is not the last element (%s)", when);
            EXPECTC(cat, &c->back() == model[n - 1].addr, "back() is not the last element (%s)", when);
         }
         CIt i = k.end();
         for (size_t j = n; j-- > 0;)
         {
            --i;
            if (&*i != model[j].addr)
            {
               report(cat, "backward traversal reaches another element at %zu of %zu (%s)", j, n, when);
               return;
            }
         }
         EXPECTC(cat, i == k.begin(), "backward traversal does not end at the first element (%s)", when);
      }
      if constexpr (KIND != K_LIST)
      {
         CIt i = k.before_begin();
         EXPECTC(cat, ++i == k.begin() && i == k.cbegin() && k.cbefore_begin() == c->before_begin(), "before_begin() does not precede begin() (%s)", when);
      }
      if constexpr (KIND == K_BACK || KIND == K_QUEUE)
      {
         if (n)
         {
            EXPECTC(cat, &c->back() == model[n - 1].addr, "back() is not the last element (%s)", when);
            EXPECTC(cat, &k.back() == model[n - 1].addr, "back() is not the last element (%s)", when);
            EXPECTC(cat, &*k.before_end() == model[n - 1].addr, "before_end() is not the last element (%s)", when);
            EXPECTC(cat, &*c->before_end() == model[n - 1].addr, "before_end() is not the last element (%s)", when);
            EXPECTC(cat, k.cbefore_end() == k.before_end(), "cbefore_end() differs (%s)", when);
         }
         else
            EXPECTC(cat, k.before_end() == k.before_begin(), "before_end() of an empty container is not before_begin() (%s)", when);
      }
      std::vector<std::pair<u64, It> > &h = held();
      for (size_t a = 0; a < h.size(); ++a)
         for (size_t j = 0; j < n; ++j)
            if (model[j].id == h[a].first)
            {
               PROBE("held iterator checked");
               It i = h[a].second;
               if (&*i != model[j].addr) { report(IDENTITY, "held iterator no longer denotes its element (%s)", when); continue; }
               ++i;
               bool ok = j + 1 < n ? i != c->end() && &*i == model[j + 1].addr : i == c->end();
               EXPECTC(IDENTITY, ok, "advancing a held iterator does not reach the next element (%s)", when);
            }
   }

   // harness-side position lookup
   It at(size_t i, bool use_held)
   {
      Quiet q;
      if (use_held && i < model.size())
         for (auto &h: held())
            if (h.first == model[i].id) { PROBE("held iterator used as a position"); return h.second; }
      It it = c->begin();
      while (i--) ++it;
      return it;
   }
   // the position at which index i is inserted or starts
   It pos(size_t i, u32 how)
   {
      Quiet q;
      if constexpr (KIND == K_LIST)
         return i == model.size() ? c->end() : at(i, how & 1);
      else
      {
         if (i == 0) return c->before_begin();
         if constexpr (KIND == K_BACK || KIND == K_QUEUE)
            if (i == model.size() && (how & 2)) return c->before_end();
         return at(i - 1, how & 1);
      }
   }
   It end_pos(size_t i, u32 how) // the iterator denoting index i, or the end
   {
      Quiet q;
      return i == model.size() ? c->end() : at(i, how & 1);
   }
   static void ins1(C &c, It p, const E &v, It *r)
   {
      if constexpr (KIND == K_LIST) *r = c.insert(p, v);
      else *r = c.insert_after(p, v);
   }
   static void insn(C &c, It p, size_t n, const E &v)
   {
      if constexpr (KIND == K_LIST) c.insert(p, n, v);
      else c.insert_after(p, n, v);
   }
   static bool single(const Op &op) { return mix2(op.d, 17) % 3 == 0; }
   template<class I> static void insr(C &c, It p, I a, I b)
   {
      if constexpr (KIND == K_LIST) c.insert(p, a, b);
      else c.insert_after(p, a, b);
   }
   u32 small(u32 c) const
   {
      u32 x = c & 0xff;
      if (plan->opts & 1) if (u32 n = big(c)) return n;
      return x < 90 ? x % 3 : x < 200 ? x % 6 : (c >> 8) % 12;
   }
   int key(u32 b) const { return 1 + b % plan->keyrange; }
   Item val(const Op &op, u32 j = 0) const { Item i = { key(op.b + j * (1 + (op.d >> 12) % 3)), (int)(op.id * 1024 + j) }; return ET<E>::norm(i); }

   // pool accounting for lazy_queue
   u32 pool_take(u32 n) { u32 t = std::min(pool, n); pool -= t; return n - t; }
   void pool_gone(u32 n) { pool += n; }

   // what a removal ended early may leave: its full result and any of the others, in order
   Seq between(const Seq &old, const Seq &full)
   {
      PROBE("removal ended by a refused comparison");
      Seq got, w;
      { Quiet q; if (!walk(got)) got.clear(); }
      std::set<const void *> in;
      for (auto &e: got) in.insert(e.addr);
      for (auto &e: full) in.insert(e.addr);
      for (auto &e: old) if (in.count(e.addr)) w.push_back(e);
      return w;
   }
   void removed(const Seq &before)
   {
      std::set<u64> ids;
      for (size_t i = 0; i < before.size(); ++i) ids.insert(before[i].id);
      for (size_t i = 0; i < model.size(); ++i) ids.erase(model[i].id);
      if (!ids.empty()) drop(ids);
   }
   void check_leak_of_ctor(const Op &op, u32 allowed)
   {
      u32 n = heap_blocks_of_op(op.id);
      EXPECTC(LEAK, n <= allowed, "a refused construction left %u blocks behind", n - allowed);
   }
   // in a queue, insertions served by the pool must not ask for storage
   void pooled(u32 n)
   {
      if constexpr (KIND == K_QUEUE && !ET<E>::owning)
         if (n <= pool && n)
         {
            cur->noalloc_now = true;
            PROBE("queue insertion served from the pool");
         }
   }
   void settle_insert(bool ok, const Seq &old, size_t p, const Seq &x)
   {
      want(old.size() + x.size());
      if (ok) settle(spliced(old, p, x));
      else
      {
         int j = settle_prefix_inserted(old, p, x);
         if (j > 0) PROBE("refused insertion kept a leading part");
         if (j >= 0) pool_take(j);
      }
      if (ok) pool_take(x.size());
   }
   void settle_assign(bool ok, const Seq &old, const Seq &x)
   {
      want(old.size() + x.size());
      if (ok) settle(x);
      else settle_prefix_assigned(old, x);
      pool = pool + old.size() > model.size() ? (u32)(pool + old.size() - model.size()) : 0;
      if (!ok) pool = 0;
      removed(old);
   }

   void exec(const Op &op, Obj *so) override
   {
      ListObj *s = static_cast<ListObj *>(so);
      const Seq old = model;
      const size_t n = old.size();
      const LOp lop = (LOp)(*codes())[op.code];
      switch (lop)
      {
      case L_PUSH_FRONT:
      case L_PUSH_BACK:
      {
         Item it = val(op);
         bool alias = n && (op.d & 7) == 0;
         E v = ET<E>::make(it);
         const E *src = &v;
         if (alias) { size_t j = op.a % n; Quiet q; src = &*at(j, op.d & 8); it = old[j].k; PROBE("list: pushed value refers into the list"); }
         pooled(1);
         bool ok = attempt([&] {
            if (lop == L_PUSH_FRONT) c->push_front(*src);
            else if constexpr (KIND != K_FWD) c->push_back(*src);
         });
         settle_insert(ok, old, lop == L_PUSH_FRONT ? 0 : n, Seq(1, ent(it)));
         break;
      }
      case L_POP_FRONT:
         if (!n) break;
         attempt([&] { c->pop_front(); });
         settle(without(old, 0, 1));
         pool_gone(1);
         removed(old);
         if (n == 1) PROBE("popped the last element");
         break;
      case L_POP_BACK:
         if (!n) break;
         if constexpr (KIND == K_LIST) attempt([&] { c->pop_back(); });
         settle(without(old, n - 1, n));
         removed(old);
         break;
      case L_INSERT:
      {
         size_t p = op.a % (n + 1);
         Item it = val(op);
         bool alias = n && (op.d & 7) == 0;
         E v = ET<E>::make(it);
         const E *src = &v;
         if (alias) { size_t j = op.c % n; Quiet q; src = &*at(j, false); it = old[j].k; }
         It ip = pos(p, op.d >> 8);
         It r = ip;
         pooled(1);
         bool ok = attempt([&] { ins1(*c, ip, *src, &r); });
         settle_insert(ok, old, p, Seq(1, ent(it)));
         if (ok && model.size() == n + 1)
         {
            Quiet q;
            EXPECT(&*r == model[p].addr, "insertion returned another position");
         }
         break;
      }
      case L_INSERT_N:
      {
         size_t p = op.a % (n + 1), cnt = small(op.c);
         Item it = val(op);
         bool alias = n && (op.d & 7) == 0;
         E v = ET<E>::make(it);
         const E *src = &v;
         if (alias) { size_t j = (op.c >> 8) % n; Quiet q; src = &*at(j, false); it = old[j].k; PROBE("list: repeated insertion of an own element"); }
         It ip = pos(p, op.d >> 8);
         pooled(cnt);
         bool ok = attempt([&] { insn(*c, ip, cnt, *src); });
         settle_insert(ok, old, p, Seq(cnt, ent(it)));
         break;
      }
      case L_INSERT_RANGE:
      {
         size_t p = op.a % (n + 1), cnt = small(op.c);
         Src<E> x;
         for (u32 j = 0; j < cnt; ++j) x.add(val(op, j));
         It ip = pos(p, op.d >> 8);
         pooled(cnt);
         const E *a = x.begin(), *b = x.end();
         bool ok = single(op) ? once(a, b, [&](Once<E> i, Once<E> e) { insr(*c, ip, i, e); }) : attempt([&] { insr(*c, ip, a, b); });
         settle_insert(ok, old, p, x.model);
         break;
      }
      case L_INSERT_OTHER:
      {
         if (s == this) break;
         size_t p = op.a % (n + 1), m = s->model.size();
         size_t f = m ? op.b % (m + 1) : 0, l = f + (m - f ? op.c % (m - f + 1) : 0);
         It ip = pos(p, op.d >> 8);
         CIt a = s->end_pos(f, 0), b = s->end_pos(l, 0);
         Seq x = fresh(Seq(s->model.begin() + f, s->model.begin() + l));
         bool ok = attempt([&] { insr(*c, ip, a, b); });
         settle_insert(ok, old, p, x);
         break;
      }
      case L_ERASE:
      {
         if (!n) break;
         size_t i = op.a % n;
         It r = c->end();
         if constexpr (KIND == K_LIST)
         {
            It ip = at(i, op.d & 1);
            attempt([&] { r = c->erase(ip); });
         }
         else
         {
            It ip = pos(i, op.d >> 8);
            attempt([&] { r = c->erase_after(ip); });
         }
         settle(without(old, i, i + 1));
         pool_gone(1);
         removed(old);
         Quiet q;
         EXPECT(i + 1 == n ? r == c->end() : r != c->end() && &*r == old[i + 1].addr, "erase returned another position");
         break;
      }
      case L_ERASE_RANGE:
      {
         size_t f = op.a % (n + 1), l = f + op.b % (n - f + 1);
         It r = c->end();
         if constexpr (KIND == K_LIST)
         {
            It a = pos(f, op.d >> 8), b = pos(l, op.d >> 9);
            attempt([&] { r = c->erase(a, b); });
            std::vector<Seq> v(1, without(old, f, l));
            if (l > f && known_list_erase_range) v.push_back(without(old, f, l - 1)); // known finding: the last one of the range stays
            int k = settle(v);
            if (k == 1) { ++stats.known; PROBE("known finding: list erase(first, last) keeps the last element"); }
         }
         else
         {
            It a = pos(f, op.d >> 8);
            It b = end_pos(l, op.d >> 9);
            attempt([&] { r = c->erase_after(a, b); });
            settle(without(old, f, l));
         }
         pool_gone(n - model.size());
         removed(old);
         Quiet q;
         if (KIND != K_LIST || l > f || n)
            EXPECT(l == n ? r == c->end() : r != c->end() && &*r == old[l].addr, "range erase returned another position");
         break;
      }
      case L_SPLICE_ALL:
      if constexpr (KIND == K_LIST || KIND == K_FWD)
      {
         if (s == this) break;
         size_t p = op.a % (n + 1);
         It ip = pos(p, op.d >> 8);
         Seq so = s->model;
         if (so.empty()) PROBE("spliced an empty list");
         attempt([&] {
            if constexpr (KIND == K_LIST) c->splice(ip, *s->c);
            else c->splice_after(ip, *s->c);
         });
         s->settle(Seq());
         settle(spliced(old, p, so));
      }
      break;
      case L_SPLICE_ONE:
      case L_SPLICE_ONE_SELF:
      if constexpr (KIND == K_LIST || KIND == K_FWD)
      {
         if (lop == L_SPLICE_ONE_SELF) s = this;
         size_t m = s->model.size();
         if (!m) break;
         size_t p = op.a % (n + 1), i = op.b % m;
         It ip = pos(p, op.d >> 8);
         if (s == this && (p == i || p == i + 1)) PROBE("spliced an element to where it is");
         Seq x(1, s->model[i]);
         if constexpr (KIND == K_LIST)
         {
            It e = s->at(i, op.d & 64);
            attempt([&] { c->splice(ip, *s->c, e); });
         }
         else
         {
            It e = s->pos(i, op.d >> 9);
            attempt([&] { c->splice_after(ip, *s->c, e); });
         }
         if (s == this)
         {
            Seq w = without(old, i, i + 1);
            settle(spliced(w, p > i ? p - 1 : p, x));
         }
         else
         {
            s->settle(without(s->model, i, i + 1));
            settle(spliced(old, p, x));
         }
      }
      break;
      case L_SPLICE_RANGE:
      case L_SPLICE_RANGE_SELF:
      if constexpr (KIND == K_LIST || KIND == K_FWD)
      {
         if (lop == L_SPLICE_RANGE_SELF) s = this;
         size_t m = s->model.size();
         size_t f = op.b % (m + 1), l = f + op.c % (m - f + 1);
         size_t p = op.a % (n + 1);
         if (s == this && p > f && p < l + (KIND == K_FWD)) p = f;
         if (KIND == K_LIST && s == this && p == f) p = l; // a position within the range is not allowed
         It ip = pos(p, op.d >> 8);
         Seq x(s->model.begin() + f, s->model.begin() + l);
         if (f == l) PROBE("spliced an empty range");
         if constexpr (KIND == K_LIST)
         {
            It a = s->end_pos(f, op.d & 64), b = s->end_pos(l, op.d & 64);
            attempt([&] { c->splice(ip, *s->c, a, b); });
         }
         else
         {
            It a = s->pos(f, op.d >> 9);
            It b = s->end_pos(l, op.d & 64);
            if (f == l && op.d & 128) { PROBE("spliced from a position to itself"); if (op.d & 64) b = a; else a = b; }
            attempt([&] { c->splice_after(ip, *s->c, a, b); });
         }
         if (s == this)
         {
            Seq w = without(old, f, l);
            settle(spliced(w, p >= l ? p - (l - f) : p, x));
         }
         else
         {
            s->settle(without(s->model, f, l));
            settle(spliced(old, p, x));
         }
      }
      break;
      case L_SWAP:
      {
         Seq so = s->model;
         if (so.empty() != old.empty()) PROBE("swapped with an empty one");
         if (so.empty() && old.empty()) PROBE("swapped two empty ones");
         if (s == this) PROBE("swapped with itself");
         attempt([&] { c->swap(*s->c); });
         if (s == this) { settle(old); break; }
         s->settle(old);
         settle(so);
         pool = s->pool = std::min(pool, s->pool);
         break;
      }
      case L_RESIZE:
      case L_RESIZE_V:
      if constexpr (KIND == K_LIST)
      {
         size_t ns = (op.d & 7) == 0 ? 0 : (op.d & 7) == 1 ? n : op.a % (n + 1 + small(op.c));
         Item it = { 0, 0 };
         E v = ET<E>::make(val(op));
         if (lop == L_RESIZE_V) it = val(op);
         if (ns == 0 && n) PROBE("resized to nothing");
         bool ok = attempt([&] { if (lop == L_RESIZE) c->resize(ns); else c->resize(ns, v); });
         if (ns <= n)
         {
            EXPECTC(NOALLOC, ok && !cur->allocs, "shrinking asked for storage");
            settle(without(old, ns, n));
         }
         else if (ok) settle(spliced(old, n, Seq(ns - n, ent(it))));
         else settle_prefix_inserted(old, n, Seq(ns - n, ent(it)));
         removed(old);
      }
      break;
      case L_CLEAR:
         attempt([&] { c->clear(); });
         settle(Seq());
         pool_gone(n);
         removed(old);
         break;
      case L_REMOVE:
      if constexpr (KIND == K_LIST)
      {
         Item it = val(op);
         E v = ET<E>::make(it);
         const E *src = &v;
         if (n && (op.d & 3) == 0) { size_t j = op.a % n; Quiet q; src = &*at(j, false); it = old[j].k; PROBE("removed a value that refers into the list"); }
         const bool ok = attempt([&] { c->remove(*src); });
         Seq w;
         for (size_t i = 0; i < n; ++i) if (!item_eq(old[i].k, it)) w.push_back(old[i]);
         settle(ok ? w : between(old, w));
         removed(old);
      }
      break;
      case L_REMOVE_IF:
      if constexpr (KIND == K_LIST)
      {
         const bool ok = attempt([&] { c->remove_if(IsOdd<E>()); });
         Seq w;
         for (size_t i = 0; i < n; ++i) if (!(old[i].k.k & 1)) w.push_back(old[i]);
         settle(ok ? w : between(old, w));
         removed(old);
      }
      break;
      case L_UNIQUE:
      case L_UNIQUE_PRED:
      if constexpr (KIND == K_LIST)
      {
         bool pr = lop == L_UNIQUE_PRED;
         if (!n) PROBE("unique on an empty list");
         const bool ok = attempt([&] { if (pr) c->unique(SameParity<E>()); else c->unique(); });
         Seq w;
         for (size_t i = 0; i < n; ++i)
            if (w.empty() || (pr ? ((w.back().k.k ^ old[i].k.k) & 1) != 0 : !item_eq(w.back().k, old[i].k))) w.push_back(old[i]);
         settle(ok ? w : between(old, w));
         removed(old);
      }
      break;
      case L_MERGE:
      case L_MERGE_CMP:
      if constexpr (KIND == K_LIST)
      {
         if (!sorted(model)) arrange();
         if (!sorted(s->model)) s->arrange();
         const Seq so = s->model, old = model;
         if (!so.empty() && n) PROBE("merged two non-empty lists");
         const bool ok = attempt([&] { if (lop == L_MERGE) c->merge(*s->c); else c->merge(*s->c, ByKey<E>()); });
         if (s == this) { settle(old); break; }
         Seq w;
         if (!ok) // some of the other's elements have come over, in their order, to where they belong
         {
            PROBE("merging ended by a refused comparison");
            Seq got;
            { Quiet q; if (!walk(got)) got.clear(); }
            std::set<const void *> here;
            for (auto &e: got) here.insert(e.addr);
            Seq over, left;
            for (auto &e: so) (here.count(e.addr) ? over : left).push_back(e);
            size_t i = 0, j = 0;
            while (i < n || j < over.size())
               if (j == over.size() || (i < n && !item_lt(over[j].k, old[i].k))) w.push_back(old[i++]);
               else w.push_back(over[j++]);
            s->settle(left);
            settle(w);
            break;
         }
         size_t i = 0, j = 0;
         while (i < n || j < so.size())
            if (j == so.size() || (i < n && !item_lt(so[j].k, old[i].k))) w.push_back(old[i++]);
            else w.push_back(so[j++]);
         s->settle(Seq());
         settle(w);
      }
      break;
      case L_REVERSE:
      if constexpr (KIND != K_QUEUE)
      {
         if (!n) PROBE("reversed an empty list");
         attempt([&] { c->reverse(); });
         Seq w(old.rbegin(), old.rend());
         settle(w);
      }
      break;
      case L_ASSIGN_RANGE:
      case L_ASSIGN_SORTED:
      if constexpr (KIND != K_QUEUE)
      {
         u32 cnt = lop == L_ASSIGN_SORTED ? 1 + small(op.c) : small(op.c);
         Src<E> x;
         std::vector<Item> items;
         for (u32 j = 0; j < cnt; ++j) { Item i = { key(op.b + (u32)mix(op.b + j)), (int)(op.id * 1024 + j) }; items.push_back(ET<E>::norm(i)); }
         if (lop == L_ASSIGN_SORTED) std::stable_sort(items.begin(), items.end(), item_lt);
         for (u32 j = 0; j < cnt; ++j) x.add(items[j]);
         const E *a = x.begin(), *b = x.end();
         bool ok = single(op) ? once(a, b, [&](Once<E> i, Once<E> e) { c->assign(i, e); }) : attempt([&] { c->assign(a, b); });
         settle_assign(ok, old, x.model);
      }
      break;
      case L_ASSIGN_N:
      if constexpr (KIND != K_QUEUE)
      {
         size_t cnt = small(op.c);
         E v = ET<E>::make(val(op));
         bool ok = attempt([&] { c->assign(cnt, v); });
         settle_assign(ok, old, Seq(cnt, ent(val(op))));
      }
      break;
      case L_COPY_ASSIGN:
      {
         if (s == this)
         {
            PROBE("self-assignment");
            C &r = *c;
            bool ok = attempt([&] { r = *c; });
            if (ok)
            {
               Seq x = old;
               for (auto &e: x) e.addr = 0; // elements may be replaced, values may not
               settle(x, CONTENT | COPY);
               std::set<u64> ids; // positions of elements that were replaced are no longer valid
               for (size_t i = 0; i < n && i < model.size(); ++i) if (old[i].addr != model[i].addr) ids.insert(old[i].id);
               drop(ids);
            }
            else settle_assign(false, old, fresh(old));
            break;
         }
         Seq x = fresh(s->model);
         bool ok = attempt([&] { *c = *s->c; });
         settle_assign(ok, old, x);
         s->settle(s->model);
         distinct(s);
         break;
      }
      case L_COPY_CTOR:
      {
         if (s == this) break;
         destroy();
         slot();
         bool ok = attempt([&] { ::new((void *)c) C(*s->c); });
         rebuilt(op, ok, fresh(s->model));
         s->settle(s->model);
         distinct(s);
         break;
      }
      case L_REBUILD:
      {
         destroy();
         slot();
         u32 cnt = small(op.c);
         Src<E> x;
         for (u32 j = 0; j < cnt; ++j) x.add(val(op, j));
         E v = ET<E>::make(val(op));
         bool ok = true;
         Seq want;
         if ((op.d & 3) == 0)
         {
            want = Seq(cnt, ent(val(op)));
            ok = attempt([&] { ::new((void *)c) C((typename C::size_type)cnt, v); });
         }
         else if ((op.d & 3) == 1 && KIND != K_QUEUE)
         {
            want = x.model;
            const E *a = x.begin(), *b = x.end();
            if constexpr (KIND != K_QUEUE)
               ok = single(op) ? once(a, b, [&](Once<E> i, Once<E> e) { ::new((void *)c) C(i, e); }) : attempt([&] { ::new((void *)c) C(a, b); });
         }
         else
            ok = attempt([&] { ::new((void *)c) C(); });
         rebuilt(op, ok, want);
         break;
      }
      case L_HOLD:
      {
         if (!n) break;
         size_t i = op.a % n;
         It it = at(i, false);
         auto &h = held();
         bool have = false;
         for (auto &x: h) if (x.first == model[i].id) have = true;
         if (!have)
         {
            if (h.size() >= 12) { h[op.b % h.size()] = std::make_pair(model[i].id, it); }
            else h.push_back(std::make_pair(model[i].id, it));
         }
         break;
      }
      case L_ROLL:
      if constexpr (KIND == K_QUEUE)
      {
         attempt([&] { c->roll_head(); });
         Seq w = old;
         if (n > 1) std::rotate(w.begin(), w.begin() + 1, w.end());
         settle(w);
      }
      break;
      case L_CLEANUP:
      if constexpr (KIND == K_QUEUE)
      {
         u32 before = heap_live_blocks();
         attempt([&] { c->cleanup(); });
         bool alone = cur->yc == 0 || stats.switches_mid == 0;
         (void)alone;
         settle(old);
         if (pool && heap_live_blocks() == before && op.id == cur->op.id && only_task()) report(LEAK, "cleanup returned none of the pooled storage");
         pool = 0;
         peak = n;
      }
      break;
      case L_READ:
      {
         bool em = true;
         const void *f = 0, *b = 0;
         size_t sz = n;
         Item fi = { 0, 0 };
         const C &k = *c;
         attempt([&] {
            em = k.empty();
            if (n) { const E &r = k.front(); f = &r; fi = ET<E>::get(r); }
            if constexpr (KIND == K_LIST) { sz = k.size(); }
            if constexpr (KIND != K_FWD) if (n) b = &k.back();
         });
         EXPECT(em == (n == 0), "read: empty() is %d with %zu elements", (int)em, n);
         EXPECT(sz == n, "read: size() is %zu with %zu elements", sz, n);
         if (n) EXPECT(f == old[0].addr && fi == old[0].k, "read: front() is not the first element");
         if (n && KIND != K_FWD) EXPECT(b == old[n - 1].addr, "read: back() is not the last element");
         break;
      }
      case L_EQUAL:
      if constexpr (KIND != K_QUEUE)
      {
         bool eq = false, ne = false;
         const C &x = *c, &y = *s->c;
         if (!attempt([&] { eq = x == y; ne = x != y; })) break;
         bool want = n == s->model.size();
         for (size_t i = 0; want && i < n; ++i) want = item_eq(old[i].k, s->model[i].k);
         EXPECT(eq == want && ne == !want, "comparison of %s and %s gave == %d, != %d", show(old, false).c_str(), show(s->model, false).c_str(), eq, ne);
      }
      break;
      case L_TRAVERSE:
      {
         if ((op.d >> 4 & 3) == 0)
         {
            const char *wrong = 0;
            attempt([&] { wrong = lockstep<KIND == K_LIST, It, CIt>(*c, old, [](const E &e) { return (const void *)&e; }); });
            PROBE("both kinds of iterators walked together");
            EXPECT(!wrong, "%s in %s", wrong, show(old, false).c_str());
            break;
         }
         Seq got;
         got.reserve(n + 64);
         const C &k = *c;
         const bool back = KIND == K_LIST && (op.d & 1);
         attempt([&] {
            size_t cap = n + 16;
            if (!back)
               for (CIt i = k.cbegin(); i != k.cend() && cap--;)
               {
                  Item x = ET<E>::get(*i);
                  got.push_back(ent(x));
                  if (op.d & 2) i++; else ++i;
               }
            else if constexpr (KIND == K_LIST)
               for (CIt i = k.cend(); i != k.cbegin() && cap--;)
               {
                  if (op.d & 2) i--; else --i;
                  Item x = ET<E>::get(*i);
                  got.push_back(ent(x));
               }
         });
         if (back) std::reverse(got.begin(), got.end());
         bool same = got.size() == n;
         for (size_t i = 0; same && i < n; ++i) same = got[i].k == old[i].k;
         EXPECT(same, "traversal saw %s, expected %s", show(got, false).c_str(), show(old, false).c_str());
         break;
      }
      case L_WRITE:
      {
         if (!n) break;
         size_t i = op.a % n;
         It it = at(i, op.d & 1);
         Item v = val(op);
         E x = ET<E>::make(v);
         attempt([&] { *it = x; });
         Seq w = old;
         w[i].k = v;
         settle(w);
         break;
      }
      }
   }
   // put the values in order, each element staying where it is
   void arrange()
   {
      Seq w = model;
      std::vector<Item> v;
      for (auto &e: w) v.push_back(e.k);
      std::stable_sort(v.begin(), v.end(), item_lt);
      ++cur->quiet;
      const bool ok = attempt([&] { It it = c->begin(); for (auto &x: v) { *it = ET<E>::make(x); ++it; } });
      --cur->quiet;
      if (!ok) aborted_quietly();
      for (size_t i = 0; i < v.size(); ++i) w[i].k = v[i];
      PROBE("put in order for merging");
      settle(w);
   }
   static bool only_task() { return plan->ntasks <= 1; }
   void distinct(ListObj *s)
   {
      std::set<const void *> of;
      for (const Ent &e: s->model) of.insert(e.addr);
      for (size_t i = 0; i < model.size(); ++i)
         if (of.count(model[i].addr)) { report(COPY, "copy shares element %zu with its source", i); return; }
   }
   void rebuilt(const Op &op, bool ok, const Seq &want)
   {
      if (!ok)
      {
         PROBE("construction refused");
         check_leak_of_ctor(op, 1);
         attempt([&] { ::new((void *)c) C(); });
         settle(Seq());
         return;
      }
      settle(want);
   }
   bool reclaim() override
   {
      if constexpr (KIND == K_QUEUE)
      {
         u32 before = heap_live_blocks();
         c->cleanup();
         bool any = heap_live_blocks() < before;
         if (pool && !any) report(LEAK | NOALLOC, "cleanup returned none of the pooled storage (%u elements pooled)", pool);
         pool = 0;
         peak = model.size();
         return any;
      }
      return false;
   }
   static bool sorted(const Seq &s)
   {
      for (size_t i = 1; i < s.size(); ++i) if (item_lt(s[i].k, s[i - 1].k)) return false;
      return true;
   }
   static std::vector<int> *codes() { static std::vector<int> v; return &v; }
   static Obj *make(int i, const ClassDef *d) { return new ListObj(i, d); }
   static void define(const char *name, u32 family)
   {
      static ClassDef d;
      d.name = name;
      d.family = family;
      d.elem = ET<E>::name();
      d.owning = ET<E>::owning;
      d.bulk = 0;
      d.make = make;
      for (auto &l: ldefs)
         if (l.kinds & (1u << KIND))
         {
            OpDef o = { l.name, l.flags, l.weight };
            d.ops.push_back(o);
            codes()->push_back(l.op);
         }
      add_class(&d);
   }
};
}
