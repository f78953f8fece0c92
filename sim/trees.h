// Adapters for map, set and the red-black tree used directly.
#pragma once
#include "seq.h"
#include "ttl/ttl.hpp"

namespace sim
{
enum TOp
{
   T_INSERT, T_INSERT_RANGE, T_INSERT_OTHER, T_BULK, T_SUBSCRIPT, T_ERASE, T_BULK_ERASE, T_CLEAR, T_COPY_ASSIGN, T_COPY_CTOR,
   T_REBUILD, T_HOLD, T_FIND, T_BOUNDS, T_READ, T_EQUAL, T_TRAVERSE, T_WRITE, T_INSERT_EQUAL
};
struct TDef { TOp op; const char *name; u32 flags; u32 weight; u32 kinds; }; // 1 map, 2 set, 4 tree
static const TDef tdefs[] =
{
   { T_INSERT, "insert", OF_LOG, 12, 7 },
   { T_INSERT_EQUAL, "insert_equal", OF_LOG, 12, 4 },
   { T_INSERT_RANGE, "insert_range", 0, 5, 3 },
   { T_INSERT_OTHER, "insert_other", OF_SEC, 3, 3 },
   { T_BULK, "insert_many", 0, 4, 7 },
   { T_SUBSCRIPT, "subscript", OF_LOG, 7, 1 },
   { T_ERASE, "erase", OF_LOG | OF_NOALLOC, 12, 7 },
   { T_BULK_ERASE, "erase_many", OF_NOALLOC, 3, 7 },
   { T_CLEAR, "clear", OF_NOALLOC, 2, 7 },
   { T_COPY_ASSIGN, "copy_assign", OF_SEC | OF_COPY, 4, 7 },
   { T_COPY_CTOR, "copy_construct", OF_SEC | OF_COPY, 3, 7 },
   { T_REBUILD, "rebuild", 0, 3, 7 },
   { T_HOLD, "hold_iterator", OF_READ | OF_NOALLOC, 5, 7 },
   { T_FIND, "read_find", OF_READ | OF_NOALLOC | OF_LOG, 6, 7 },
   { T_BOUNDS, "read_bounds", OF_READ | OF_NOALLOC, 6, 7 },
   { T_READ, "read_access", OF_READ | OF_NOALLOC, 3, 7 },
   { T_EQUAL, "read_equal", OF_READ | OF_SEC | OF_NOALLOC, 3, 3 },
   { T_TRAVERSE, "read_traverse", OF_READ | OF_NOALLOC, 4, 7 },
   { T_WRITE, "write_value", OF_NOALLOC, 3, 1 },
};
enum { K_MAP, K_SET, K_TREE };

template<class K> struct Rev
{
   bool operator()(const K &a, const K &b) const { return b < a; }
};
template<class K> struct Up
{
   bool operator()(const K &a, const K &b) const { return a < b; }
};
template<> struct Up<int>
{
   bool operator()(const int &a, const int &b) const { count_cmp(); yield_point(); return a < b; }
};

// The comparison of the user's own: four keys at a time are one key to it.
inline int coarse(int k) { return k >> 2; }
template<class K> struct Few
{
   bool operator()(const K &a, const K &b) const { return Up<K>()(a, b) && coarse(ET<K>::get(a).k) != coarse(ET<K>::get(b).k); }
};
// What differs between the three.
template<class KE, class VE, class CMP> struct MapT
{
   enum { KIND = K_MAP, REV = CMP::rev, DEFCMP = CMP::def };
   static bool lt(int a, int b) { return CMP::lt(a, b); }
   typedef KE Key; typedef VE Val;
   typedef ttl::map<KE, VE, typename CMP::type> C;
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   typedef ttl::pair<KE, VE> Src; // element of an input range
   static Src src(Item k, Item v) { return Src(ET<KE>::make(k), ET<VE>::make(v)); }
   static Ent get(const typename C::value_type &x) { Ent e = ent(ET<KE>::get(x.first), ET<VE>::get(x.second)); e.addr = &x; return e; }
   static const KE &key(const typename C::value_type &x) { return x.first; }
   static u32 per_elem() { return (ET<KE>::ledger ? 1 : 0) + (ET<VE>::ledger ? 1 : 0); }
};
template<class KE, class CMP> struct SetT
{
   enum { KIND = K_SET, REV = CMP::rev, DEFCMP = CMP::def };
   static bool lt(int a, int b) { return CMP::lt(a, b); }
   typedef KE Key; typedef int Val;
   typedef ttl::set<KE, typename CMP::type> C;
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   typedef KE Src;
   static Src src(Item k, Item) { return ET<KE>::make(k); }
   static Ent get(const KE &x) { Ent e = ent(ET<KE>::get(x)); e.addr = &x; return e; }
   static const KE &key(const KE &x) { return x; }
   static u32 per_elem() { return ET<KE>::ledger ? 1 : 0; }
};
template<class KE> struct Less { enum { rev = 0, def = 1 }; static bool lt(int a, int b) { return a < b; } typedef ttl::less<KE> type; };
template<class KE> struct LessU { enum { rev = 0, def = 0 }; static bool lt(int a, int b) { return a < b; } typedef Up<KE> type; };
template<class KE> struct More { enum { rev = 1, def = 0 }; static bool lt(int a, int b) { return b < a; } typedef Rev<KE> type; };
template<class KE> struct LessF { enum { rev = 0, def = 0 }; static bool lt(int a, int b) { return coarse(a) < coarse(b); } typedef Few<KE> type; };

// The tree with the interface the adapter needs; every call leads straight to rbtree.
template<class KE, class VE, class CMP> struct Tree
{
   typedef ttl::pair<const KE, VE> value_type;
   typedef ttl::rbtree<KE, value_type, ttl::select_first<value_type>, typename CMP::type> T;
   typedef typename T::node node;
   T t;
   struct iterator
   {
      node *n;
      value_type &operator*() const { return n->data; }
      value_type *operator->() const { return &n->data; }
      iterator &operator++() { n = static_cast<node *>(ttl::rbtree_base::next_node(n)); return *this; }
      iterator operator++(int) { iterator r = *this; ++*this; return r; }
      iterator &operator--() { n = static_cast<node *>(ttl::rbtree_base::prev_node(n)); return *this; }
      iterator operator--(int) { iterator r = *this; --*this; return r; }
      bool operator==(const iterator &o) const { return n == o.n; }
      bool operator!=(const iterator &o) const { return n != o.n; }
   };
   typedef iterator const_iterator;
   static iterator mk(const node *n) { iterator i = { const_cast<node *>(n) }; return i; }
   iterator begin() const { return t.get_root() ? mk(static_cast<const node *>(ttl::rbtree_base::min_node(t.get_root()))) : end(); }
   iterator end() const { return mk(t.end()); }
   iterator cbegin() const { return begin(); }
   iterator cend() const { return end(); }
   bool empty() const { return !t.get_croot(); }
   void clear() { t.clear(); }
   iterator find(const KE &k) const { return mk(t.find(k)); }
   iterator find(const KE &k) { return mk(t.find(k)); }
   iterator lower_bound(const KE &k) const { return mk(t.lower_bound(k)); }
   iterator lower_bound(const KE &k) { return mk(t.lower_bound(k)); }
   iterator upper_bound(const KE &k) const { return mk(t.upper_bound(k)); }
   iterator upper_bound(const KE &k) { return mk(t.upper_bound(k)); }
   ttl::pair<iterator, iterator> equal_range(const KE &k) const
   {
      ttl::pair<const node *, const node *> p = t.equal_range(k);
      return ttl::pair<iterator, iterator>(mk(p.first), mk(p.second));
   }
   ttl::pair<iterator, iterator> equal_range(const KE &k)
   {
      ttl::pair<node *, node *> p = t.equal_range(k);
      return ttl::pair<iterator, iterator>(mk(p.first), mk(p.second));
   }
   size_t count(const KE &k) const { return t.count(k); }
   ttl::pair<iterator, bool> insert(const value_type &v)
   {
      ttl::pair<node *, bool> p = t.insert_unique(v);
      return ttl::pair<iterator, bool>(mk(p.first), p.second);
   }
   iterator insert_equal(const value_type &v) { return mk(t.insert_equal(v)); }
   Tree() {}
   Tree(const Tree &o) { t.assign(o.t); }
   Tree &operator=(const Tree &o) { t.assign(o.t); return *this; }
};
template<class KE, class VE, class CMP = LessU<KE> > struct TreeT
{
   enum { KIND = K_TREE, REV = 0, DEFCMP = 0 };
   static bool lt(int a, int b) { return CMP::lt(a, b); }
   typedef KE Key; typedef VE Val;
   typedef Tree<KE, VE, CMP> C;
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   typedef ttl::pair<KE, VE> Src;
   static Src src(Item k, Item v) { return Src(ET<KE>::make(k), ET<VE>::make(v)); }
   static Ent get(const typename C::value_type &x) { Ent e = ent(ET<KE>::get(x.first), ET<VE>::get(x.second)); e.addr = &x; return e; }
   static const KE &key(const typename C::value_type &x) { return x.first; }
   static u32 per_elem() { return (ET<KE>::ledger ? 1 : 0) + (ET<VE>::ledger ? 1 : 0); }
};

template<class P> struct TreeObj: SeqObj
{
   enum { KIND = P::KIND };
   typedef typename P::C C;
   typedef typename P::It It;
   typedef typename P::CIt CIt;
   typedef typename P::Key Key;
   typedef typename P::Val Val;
   C *c;
   struct Held { u64 id; It it; };
   static std::vector<Held> &held() { static std::vector<Held> v; return v; }
   static void reset() { held().clear(); }

   TreeObj(int i, const ClassDef *d): SeqObj(i, d, KIND != K_SET, true), c(0) { on_reset(reset); }
   u32 per_elem() const override { return P::per_elem(); }
   Need need() const override
   {
      Need r;
      const u32 n = model.size(), own = (ET<Key>::owning ? n : 0) + (KIND != K_SET && ET<Val>::owning ? n : 0);
      r.lo = r.hi = 1 + n + own;
      r.bytes = sizeof(C) + n * (sizeof(typename C::value_type) + 48) + own * sizeof(int);
      return r;
   }
   void slot() { c = static_cast<C *>(heap_alloc(sizeof(C), false, false)); }
   void construct() override
   {
      slot();
      attempt([&] { ::new((void *)c) C(); });
      model.clear();
   }
   void destroy() override
   {
      attempt([&] { c->~C(); });
      heap_free(c, false);
      c = 0;
      std::set<u64> gone;
      for (size_t i = 0; i < model.size(); ++i) gone.insert(model[i].id);
      drop(gone);
      model.clear();
   }
   void drop(const std::set<u64> &ids)
   {
      std::vector<Held> &h = held();
      for (size_t i = 0; i < h.size();)
         if (ids.count(h[i].id)) { h[i] = h.back(); h.pop_back(); }
         else ++i;
   }
   void removed(const Seq &before)
   {
      std::set<u64> ids;
      for (size_t i = 0; i < before.size(); ++i) ids.insert(before[i].id);
      for (size_t i = 0; i < model.size(); ++i) ids.erase(model[i].id);
      if (!ids.empty()) drop(ids);
   }
   bool walk(Seq &out) override
   {
      size_t cap = model.size() + (1 << 18);
      const C &k = *c;
      CIt e = k.end();
      for (CIt i = k.begin(); i != e; ++i)
      {
         if (!cap--) return false;
         out.push_back(P::get(*i));
      }
      return true;
   }
   void extra(u32 cat, const char *when) override
   {
      const C &k = *c;
      const size_t n = model.size();
      EXPECTC(cat, k.empty() == (n == 0), "empty() is %d with %zu elements (%s)", (int)k.empty(), n, when);
      if (n)
      {
         CIt i = k.end();
         for (size_t j = n; j-- > 0;)
         {
            if (KIND == K_TREE && j == n - 1)
               i = C_last(k);
            else
               --i;
            if (i == k.end() || P::get(*i).addr != model[j].addr)
            {
               report(cat, "backward traversal reaches another element at %zu of %zu (%s)", j, n, when);
               return;
            }
         }
         EXPECTC(cat, i == k.begin(), "backward traversal does not end at the first element (%s)", when);
      }
      std::vector<Held> &h = held();
      for (size_t a = 0; a < h.size(); ++a)
         for (size_t j = 0; j < n; ++j)
            if (model[j].id == h[a].id)
            {
               PROBE("held iterator checked");
               It i = h[a].it;
               if (P::get(*i).addr != model[j].addr) { report(IDENTITY, "held iterator no longer denotes its element (%s)", when); continue; }
               It b = i;
               ++i;
               bool ok = j + 1 < n ? i != c->end() && P::get(*i).addr == model[j + 1].addr : i == c->end();
               EXPECTC(IDENTITY, ok, "advancing a held iterator does not reach the next element (%s)", when);
               if (j)
               {
                  --b;
                  EXPECTC(IDENTITY, P::get(*b).addr == model[j - 1].addr, "stepping a held iterator back does not reach the element before (%s)", when);
               }
            }
   }
   static CIt C_last(const C &k)
   {
      if constexpr (KIND == K_TREE)
         return C::mk(static_cast<const typename C::node *>(ttl::rbtree_base::max_node(k.t.get_root())));
      else
         return k.end();
   }
   static bool lt(const Item &a, const Item &b) { return P::lt(a.k, b.k); }
   static size_t lower(const Seq &s, const Item &k)
   {
      return std::lower_bound(s.begin(), s.end(), k, [](const Ent &a, const Item &b) { return lt(a.k, b); }) - s.begin();
   }
   static size_t upper(const Seq &s, const Item &k)
   {
      return std::upper_bound(s.begin(), s.end(), k, [](const Item &a, const Ent &b) { return lt(a, b.k); }) - s.begin();
   }
   static bool has(const Seq &s, const Item &k) { return lower(s, k) != upper(s, k); }
   // with the first n of x, which is in order, that are not there yet
   static Seq united(const Seq &s, const Seq &x, size_t n)
   {
      Seq r;
      size_t at = 0;
      for (size_t i = 0; i < n; ++i)
      {
         const size_t p = std::max(at, lower(s, x[i].k));
         r.insert(r.end(), s.begin() + at, s.begin() + p);
         at = p;
         if (has(s, x[i].k) || (!r.empty() && !lt(r.back().k, x[i].k))) continue;
         r.push_back(x[i]);
         r.back().addr = 0; r.back().id = 0;
      }
      r.insert(r.end(), s.begin() + at, s.end());
      return r;
   }
   static void put_unique(Seq &s, Ent e) { if (!has(s, e.k)) s.insert(s.begin() + upper(s, e.k), e); }

   u32 small(u32 c) const
   {
      u32 x = c & 0xff;
      return x < 90 ? x % 3 : x < 200 ? x % 6 : (c >> 8) % 12;
   }
   int key(u32 b) const { return 1 + b % plan->keyrange; }
   Item kval(const Op &op, u32 j = 0) const { Item i = { key(op.b + j * (1 + (op.d >> 12) % 3)), (int)(op.id * 1024 + j) }; return ET<Key>::norm(i); }
   Item vval(const Op &op, u32 j = 0) const
   {
      Item i = { 0, 0 };
      if (KIND == K_SET) return i;
      i.k = (int)((op.c >> 4) + j) % 1000;
      i.t = op.id * 1024 + j;
      return ET<Val>::norm(i);
   }
   Ent eval(const Op &op, u32 j = 0) const { return ent(kval(op, j), vval(op, j)); }
   It at(size_t i)
   {
      Quiet q;
      for (auto &h: held()) if (i < model.size() && h.id == model[i].id) return h.it;
      It it = c->begin();
      while (i--) ++it;
      return it;
   }
   // refused whole-contents assignment: old contents or part of the new ones
   void settle_assign(bool ok, const Seq &old, const Seq &x)
   {
      if (ok) settle(x);
      else
      {
         std::vector<Seq> cands(1, old);
         Seq got;
         {
            Quiet q;
            if (!walk(got)) got.clear();
         }
         size_t j = 0;
         Seq part;
         for (size_t i = 0; i < x.size() && j < got.size(); ++i)
            if (x[i].k == got[j].k && x[i].v == got[j].v) { part.push_back(x[i]); ++j; }
         cands.push_back(part);
         settle(cands);
      }
      removed(old);
   }
   static bool single(const Op &op) { return mix2(op.d, 17) % 3 == 0; }
   struct Range
   {
      std::vector<typename P::Src> v;
      void add(Item k, Item val) { v.push_back(P::src(k, val)); }
      const typename P::Src *begin() const { return v.data(); }
      const typename P::Src *end() const { return v.data() + v.size(); }
   };

   void exec(const Op &op, Obj *so) override
   {
      TreeObj *s = static_cast<TreeObj *>(so);
      const Seq old = model;
      const size_t n = old.size();
      const TOp top = (TOp)(*codes())[op.code];
      switch (top)
      {
      case T_INSERT:
      {
         Ent e = eval(op);
         bool fresh_key = !has(old, e.k);
         bool ins = false, ok;
         It r = at(0);
         typename P::Src x = P::src(e.k, e.v);
         if (KIND == K_SET)
         {
            const void *xx = &x;
            if (n && (op.d & 7) == 0) { Quiet q; size_t j = op.a % n; It i = at(j); xx = &*i; e = old[j]; fresh_key = false; PROBE("set: inserted value refers into the set"); }
            const Key &kk = *static_cast<const Key *>(xx);
            ok = attempt([&] { insert_key(kk, r, ins); });
         }
         else
            ok = attempt([&] { insert_pair(x, r, ins, false); });
         Seq w = old;
         put_unique(w, e);
         if (ok) settle(w);
         else settle(old);
         if (ok)
         {
            EXPECT(ins == fresh_key, "insertion of a key %s returned %d", fresh_key ? "not present" : "present", ins);
            size_t p = lower(model, e.k);
            Quiet q;
            bool found = false; // any of the equal ones
            for (; r != c->end() && p < model.size() && !lt(e.k, model[p].k); ++p) if (P::get(*r).addr == model[p].addr) found = true;
            EXPECT(found, "insertion returned another position");
         }
         break;
      }
      case T_INSERT_EQUAL:
      if constexpr (KIND == K_TREE)
      {
         Ent e = eval(op);
         if (has(old, e.k)) PROBE("tree: equal key inserted");
         It r = at(0);
         bool ins;
         typename P::Src x = P::src(e.k, e.v);
         bool ok = attempt([&] { insert_pair(x, r, ins, true); });
         size_t p = upper(old, e.k);
         Seq w = old;
         w.insert(w.begin() + p, e);
         if (ok) settle(w);
         else settle(old);
         if (ok && model.size() == n + 1) { Quiet q; EXPECT(P::get(*r).addr == model[p].addr, "insertion returned another position"); }
      }
      break;
      case T_INSERT_RANGE:
      if constexpr (KIND != K_TREE)
      {
         u32 cnt = small(op.c);
         Range x;
         std::vector<Seq> steps(1, old);
         for (u32 j = 0; j < cnt; ++j)
         {
            Ent e = eval(op, j);
            x.add(e.k, e.v);
            Seq w = steps.back();
            put_unique(w, e);
            steps.push_back(w);
         }
         const typename P::Src *a = x.begin(), *b = x.end();
         typedef Once<typename P::Src> O;
         bool ok = single(op) ? once(a, b, [&](O i, O e) { c->insert(i, e); }) : attempt([&] { c->insert(a, b); });
         if (ok) settle(steps.back());
         else settle(steps);
      }
      break;
      case T_INSERT_OTHER:
      if constexpr (KIND != K_TREE)
      {
         if (s == this) break;
         size_t m = s->model.size();
         size_t f = op.a % (m + 1), l = f + op.b % (m - f + 1);
         It a0 = s->at(f), b0 = s->at(l);
         CIt a = a0, b = b0;
         const Seq so(s->model.begin() + f, s->model.begin() + l);
         bool ok = attempt([&] { c->insert(a, b); });
         if (ok) settle(united(old, so, so.size()));
         else settle_one_of(so.size() + 1, [&](size_t j) { return united(old, so, j); });
      }
      break;
      case T_BULK: // many single insertions: rising, falling, mixed
      {
         const u32 huge = plan->opts & 2 ? big(op.c) : 0;
         u32 cnt = huge ? huge : (plan->opts & 1) ? 20 + (op.c >> 4) % 200 : small(op.c);
         Seq w = old;
         u32 way = huge ? 0 : op.d % 4;
         int k0 = (op.a % 7) * 400;
         for (u32 j = 0; j < cnt; ++j)
         {
            Item k = { huge ? (P::REV ? -(int)j : (int)j) : way == 0 ? k0 + (int)j : way == 1 ? k0 + 400 - (int)j : way == 2 ? 1 + (int)(mix2(op.b, j) % 600) : k0 + (int)((j & 1) ? j : 400 - j), (int)(op.id * 1024 + j) };
            k = ET<Key>::norm(k);
            Ent e = ent(k, vval(op, j));
            typename P::Src x = P::src(e.k, e.v);
            It r = at0();
            bool ins = false;
            const bool eq = KIND == K_TREE && (op.d & 16);
            cur->cmps = 0;
            bool ok = attempt([&] {
               if constexpr (KIND == K_SET) insert_key(x, r, ins);
               else insert_pair(x, r, ins, eq);
            });
            check_log(w.size());
            if (!ok) break;
            if (eq) w.insert(w.begin() + upper(w, e.k), e);
            else put_unique(w, e);
         }
         cur->cmps = 0;
         if (w.size() > 100) PROBE("tree of more than 100 elements");
         settle(w);
         break;
      }
      case T_SUBSCRIPT:
      if constexpr (KIND == K_MAP)
      {
         Ent e = eval(op);
         bool present = has(old, e.k), store = op.d & 1;
         Key k = ET<Key>::make(e.k);
         Val v = ET<Val>::make(e.v);
         const void *where = 0;
         Item zero = { 0, 0 };
         bool ok = attempt([&] { Val &r = (*c)[k]; where = &r; if (store) r = v; });
         Seq w = old;
         size_t p = lower(w, e.k);
         if (!present) { Ent x = ent(e.k, zero); w.insert(w.begin() + p, x); }
         if (store) w[p].v = e.v;
         if (ok) settle(w);
         else settle(old);
         if (ok && p < model.size()) { Quiet q; It i = at(p); EXPECT(where == &i->second, "subscript returned a reference to another value"); }
      }
      break;
      case T_ERASE:
      {
         Item k = kval(op);
         bool alias = n && (op.d & 7) == 0;
         if (n && (op.d & 8)) k = old[op.a % n].k;
         Key kk = ET<Key>::make(k);
         const Key *kp = &kk;
         if (alias) { Quiet q; size_t j = op.a % n; It i = at(j); kp = &P::key(*i); k = old[j].k; PROBE("tree: erased key refers into the tree"); }
         size_t lo = lower(old, k), up = upper(old, k), r = 0;
         const void *gone = 0;
         if (up - lo > 1) PROBE("tree: one of several equal keys removed");
         if (!attempt([&] { r = erase_key(*kp, &gone); })) { PROBE("erasing ended by a refused comparison"); settle(old); break; }
         EXPECT(r == (lo != up), "erasing a key %s returned %zu", lo != up ? "present" : "not present", r);
         std::vector<Seq> cands;
         for (size_t i = lo; i < up; ++i)
            if (KIND != K_TREE || old[i].addr == gone) cands.push_back(without(old, i, i + 1));
         if (cands.empty()) cands.push_back(lo == up ? old : without(old, lo, lo + 1));
         if (n == 1 && lo != up) PROBE("tree emptied by erasing");
         settle(cands);
         removed(old);
         break;
      }
      case T_BULK_ERASE:
      {
         u32 cnt = (plan->opts & 1) ? 10 + (op.c >> 4) % 200 : small(op.c);
         Seq w = old;
         u32 way = op.d % 4;
         for (u32 j = 0; j < cnt && !w.empty(); ++j)
         {
            size_t i = way == 0 ? 0 : way == 1 ? w.size() - 1 : way == 2 ? mix2(op.b, j) % w.size() : (w.size() - 1) / 2;
            Item k = w[i].k;
            Key kk = ET<Key>::make(k);
            size_t r = 0;
            const void *gone = 0;
            cur->cmps = 0;
            if (!attempt([&] { r = erase_key(kk, &gone); })) { PROBE("erasing ended by a refused comparison"); break; }
            check_log(w.size());
            EXPECT(r == 1, "erasing a present key returned %zu", r);
            size_t lo = lower(w, k), up = upper(w, k), x = lo;
            for (size_t y = lo; y < up; ++y) if (w[y].addr == gone && gone) x = y;
            w.erase(w.begin() + x);
         }
         cur->cmps = 0;
         settle(w);
         removed(old);
         break;
      }
      case T_CLEAR:
         attempt([&] { c->clear(); });
         settle(Seq());
         removed(old);
         break;
      case T_COPY_ASSIGN:
      {
         if (s == this)
         {
            PROBE("self-assignment");
            C &r = *c;
            bool ok = attempt([&] { r = *c; });
            if (ok)
            {
               Seq x = old;
               for (auto &e: x) e.addr = 0;
               settle(x, CONTENT | COPY);
               refresh(old);
            }
            else settle_assign(false, old, fresh(old));
            break;
         }
         Seq x = fresh(s->model);
         bool ok = attempt([&] { *c = *s->c; });
         settle_assign(ok, old, x);
         s->settle(s->model);
         distinct(s);
         break;
      }
      case T_COPY_CTOR:
      {
         if (s == this) break;
         destroy();
         slot();
         bool ok = attempt([&] { ::new((void *)c) C(*s->c); });
         rebuilt(op, ok, fresh(s->model));
         s->settle(s->model);
         distinct(s);
         break;
      }
      case T_REBUILD:
      {
         destroy();
         slot();
         u32 cnt = small(op.c);
         Range x;
         Seq w;
         for (u32 j = 0; j < cnt; ++j)
         {
            Ent e = eval(op, j);
            x.add(e.k, e.v);
            put_unique(w, e);
         }
         bool ok = true;
         if (KIND == K_TREE || (op.d & 1)) { w.clear(); ok = attempt([&] { ::new((void *)c) C(); }); }
         else if constexpr (KIND != K_TREE)
         {
            const typename P::Src *a = x.begin(), *b = x.end();
            typedef Once<typename P::Src> O;
            ok = single(op) ? once(a, b, [&](O i, O e) { ::new((void *)c) C(i, e); }) : attempt([&] { ::new((void *)c) C(a, b); });
         }
         rebuilt(op, ok, w);
         break;
      }
      case T_HOLD:
      {
         if (!n) break;
         size_t i = op.a % n;
         It it = at(i);
         std::vector<Held> &h = held();
         for (auto &x: h) if (x.id == model[i].id) return;
         Held x = { model[i].id, it };
         if (h.size() >= 12) h[op.b % h.size()] = x;
         else h.push_back(x);
         break;
      }
      case T_FIND:
      {
         Item k = kval(op);
         if (n && (op.d & 8)) k = old[op.a % n].k;
         Key kk = ET<Key>::make(k);
         const C &y = *c;
         CIt e = cend(y), r = e;
         size_t cnt = 0;
         const size_t want = upper(old, k) - lower(old, k);
         if (op.d & 1) { if (!attempt([&] { It i = c->find(kk); r = i; })) break; }
         else if (op.d & 2) { if (!attempt([&] { r = y.find(kk); })) break; }
         else { if (!attempt([&] { cnt = y.count(kk); })) break; EXPECT(cnt == want, "count() of key %d is %zu, expected %zu", k.k, cnt, want); if (want > 1) { cur->cmps = 0; PROBE("tree: counted equal keys"); } break; }
         if (!want) EXPECT(r == e, "find() of an absent key %d reached an element", k.k);
         else
         {
            Quiet q;
            bool ok = r != e;
            if (ok)
            {
               const void *a = P::get(*r).addr;
               ok = false;
               for (size_t i = lower(old, k); i < upper(old, k); ++i) if (old[i].addr == a) ok = true;
            }
            EXPECT(ok, "find() of a present key %d did not reach it", k.k);
         }
         break;
      }
      case T_BOUNDS:
      {
         Item k = kval(op);
         if (n && (op.d & 8)) k = old[op.a % n].k;
         Key kk = ET<Key>::make(k);
         const C &y = *c;
         CIt e = cend(y), lo = e, up = e, a = e, b = e;
         const size_t wl = lower(old, k), wu = upper(old, k);
         bool ok;
         if (op.d & 1)
            ok = attempt([&] { It i = c->lower_bound(kk); lo = i; It j = c->upper_bound(kk); up = j; ttl::pair<It, It> p = c->equal_range(kk); a = p.first; b = p.second; });
         else
            ok = attempt([&] { lo = y.lower_bound(kk); up = y.upper_bound(kk); ttl::pair<CIt, CIt> p = y.equal_range(kk); a = p.first; b = p.second; });
         if (!ok) break;
         Quiet q;
         EXPECT(is(lo, wl), "lower_bound() of key %d (%s) is not element %zu of %s", k.k, wl == wu ? "absent" : "present", wl, show(old, pairs).c_str());
         EXPECT(is(up, wu), "upper_bound() of key %d (%s) is not element %zu of %s", k.k, wl == wu ? "absent" : "present", wu, show(old, pairs).c_str());
         EXPECT(is(a, wl) && is(b, wu), "equal_range() of key %d (%s) is not elements %zu to %zu of %s", k.k, wl == wu ? "absent" : "present", wl, wu, show(old, pairs).c_str());
         break;
      }
      case T_READ:
      {
         const C &y = *c;
         bool em = false;
         Item v = { 0, 0 };
         size_t i = n ? op.a % n : 0;
         Key kk = ET<Key>::make(n ? old[i].k : kval(op));
         if (!attempt([&] {
            em = y.empty();
            if constexpr (KIND == K_MAP) { if (n) { if (op.d & 1) v = ET<Val>::get(y.at(kk)); else v = ET<Val>::get(c->at(kk)); } }
         })) break;
         EXPECT(em == (n == 0), "read: empty() is %d with %zu elements", (int)em, n);
         if (KIND == K_MAP && n) EXPECT(v == old[i].v, "read: at() gave another value");
         break;
      }
      case T_EQUAL:
      if constexpr (KIND != K_TREE && P::DEFCMP)
      {
         bool eq = false, ne = false;
         const C &x = *c, &y = *s->c;
         if (!attempt([&] { eq = x == y; ne = x != y; })) break;
         bool want = n == s->model.size();
         for (size_t i = 0; want && i < n; ++i) want = item_eq(old[i].k, s->model[i].k) && (KIND == K_SET || item_eq(old[i].v, s->model[i].v));
         EXPECT(eq == want && ne == !want, "comparison of %s and %s gave == %d, != %d", show(old, pairs).c_str(), show(s->model, pairs).c_str(), eq, ne);
      }
      break;
      case T_TRAVERSE:
      {
         if constexpr (KIND != K_TREE)
         if ((op.d >> 4 & 3) == 0)
         {
            const char *wrong = 0;
            attempt([&] { wrong = lockstep<true, It, CIt>(*c, old, [](const typename C::value_type &e) { return (const void *)&e; }); });
            PROBE("both kinds of iterators walked together");
            EXPECT(!wrong, "%s in %s", wrong, show(old, pairs).c_str());
            break;
         }
         Seq got;
         got.reserve(n + 64);
         const C &k = *c;
         const bool back = (op.d & 1) && KIND != K_TREE, cst = op.d & 2, post = op.d & 4;
         attempt([&] {
            size_t cap = n + 16;
            if (!back && cst)
               for (CIt i = k.cbegin(); i != k.cend() && cap--;) { got.push_back(P::get(*i)); if (post) i++; else ++i; }
            else if (!back)
               for (It i = c->begin(); i != c->end() && cap--;) { got.push_back(P::get(*i)); if (post) i++; else ++i; }
            else if (cst)
               for (CIt i = k.cend(); i != k.cbegin() && cap--;) { if (post) i--; else --i; got.push_back(P::get(*i)); }
            else
               for (It i = c->end(); i != c->begin() && cap--;) { if (post) i--; else --i; got.push_back(P::get(*i)); }
         });
         if (back) std::reverse(got.begin(), got.end());
         if constexpr (KIND == K_MAP)
            if (post && n > 1)
            {
               size_t up = 0, down = 0;
               const bool ok = attempt([&] {
                  typename C::value_compare before;
                  CIt i = k.begin(), j = i;
                  for (++j; j != k.end(); ++i, ++j) { up += before(*i, *j); down += before(*j, *i) || before(*j, *j); }
               });
               if (ok) EXPECT(up == n - 1 && !down, "%zu of %zu elements come before the next one by value_compare, %zu after it or themselves", up, n - 1, down);
            }
         bool same = got.size() == n;
         for (size_t i = 0; same && i < n; ++i) same = got[i].k == old[i].k && got[i].v == old[i].v;
         EXPECT(same, "traversal saw %s, expected %s", show(got, pairs).c_str(), show(old, pairs).c_str());
         break;
      }
      case T_WRITE:
      if constexpr (KIND == K_MAP)
      {
         if (!n) break;
         size_t i = op.a % n;
         It it = at(i);
         Item v = vval(op);
         Val x = ET<Val>::make(v);
         Key kk = ET<Key>::make(old[i].k);
         if (!attempt([&] { if (op.d & 1) it->second = x; else c->at(kk) = x; })) break;
         Seq w = old;
         w[i].v = v;
         settle(w);
      }
      break;
      }
   }
   CIt cend(const C &y) { Quiet q; return y.end(); }
   It at0() { Quiet q; return c->end(); }
   bool is(const CIt &i, size_t p)
   {
      const C &y = *c;
      if (p == model.size()) return i == y.end();
      return i != y.end() && P::get(*i).addr == model[p].addr;
   }
   void insert_key(const Key &k, It &r, bool &ins)
   {
      if constexpr (KIND == K_SET)
      {
         ttl::pair<It, bool> p = c->insert(k);
         r = p.first; ins = p.second;
      }
   }
   void insert_pair(const typename P::Src &x, It &r, bool &ins, bool equal)
   {
      if constexpr (KIND != K_SET)
      {
         typename C::value_type v(x.first, x.second);
         if constexpr (KIND == K_TREE)
            if (equal) { r = c->insert_equal(v); ins = true; return; }
         ttl::pair<It, bool> p = c->insert(v);
         r = p.first; ins = p.second;
      }
   }
   size_t erase_key(const Key &k, const void **gone)
   {
      if constexpr (KIND == K_TREE)
      {
         typename C::node *n = c->t.remove(k);
         if (n) *gone = &n->data;
         delete n;
         return n != 0;
      }
      else return c->erase(k);
   }
   void refresh(const Seq &old) // held positions of elements that were replaced are no longer valid
   {
      std::set<u64> ids;
      for (size_t i = 0; i < old.size() && i < model.size(); ++i) if (old[i].addr != model[i].addr) ids.insert(old[i].id);
      drop(ids);
   }
   void distinct(TreeObj *s)
   {
      std::set<const void *> of;
      for (const Ent &e: s->model) of.insert(e.addr);
      for (size_t i = 0; i < model.size(); ++i)
         if (of.count(model[i].addr)) { report(COPY, "copy shares element %zu with its source", i); return; }
   }
   void rebuilt(const Op &op, bool ok, const Seq &want)
   {
      if (!ok)
      {
         PROBE("construction refused");
         u32 left = heap_blocks_of_op(op.id);
         EXPECTC(LEAK, left <= 1, "a refused construction left %u blocks behind", left - 1);
         attempt([&] { ::new((void *)c) C(); });
         settle(Seq());
         return;
      }
      settle(want);
   }
   static std::vector<int> *codes() { static std::vector<int> v; return &v; }
   static Obj *make(int i, const ClassDef *d) { return new TreeObj(i, d); }
   static void define(const char *name)
   {
      static ClassDef d;
      d.name = name;
      d.family = KIND == K_MAP ? F_MAP : KIND == K_SET ? F_SET : F_TREE;
      d.elem = ET<Key>::name();
      d.owning = ET<Key>::owning;
      d.bulk = 0;
      d.make = make;
      for (auto &l: tdefs)
         if (l.kinds & (1u << KIND))
         {
            OpDef o = { l.name, l.flags, l.weight };
            d.ops.push_back(o);
            codes()->push_back(l.op);
         }
      add_class(&d);
   }
};
}
