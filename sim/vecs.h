// Adapters for vector (N == 0) and fixed_vector.
#pragma once
#include "seq.h"
#include "ttl/ttl.hpp"

namespace sim
{
enum VOp
{
   V_PUSH, V_POP, V_INSERT, V_INSERT_N, V_INSERT_RANGE, V_INSERT_OTHER, V_ERASE, V_ERASE_RANGE, V_RESIZE, V_RESIZE_V,
   V_RESERVE, V_CLEAR, V_ASSIGN_N, V_ASSIGN_RANGE, V_COPY_ASSIGN, V_COPY_CTOR, V_REBUILD, V_SWAP, V_READ, V_EQUAL,
   V_TRAVERSE, V_WRITE, V_SEARCH, V_REVERSE, V_GIANT
};
struct VDef { VOp op; const char *name; u32 flags; u32 weight; u32 kinds; }; // kinds: 1 vector, 2 fixed_vector
static const VDef vdefs[] =
{
   { V_PUSH, "push_back", 0, 12, 3 },
   { V_POP, "pop_back", OF_CONST | OF_NOALLOC, 6, 3 },
   { V_INSERT, "insert", 0, 9, 3 },
   { V_INSERT_N, "insert_n", 0, 7, 3 },
   { V_INSERT_RANGE, "insert_range", 0, 7, 3 },
   { V_INSERT_OTHER, "insert_other", OF_SEC, 4, 3 },
   { V_ERASE, "erase", OF_NOALLOC, 7, 3 },
   { V_ERASE_RANGE, "erase_range", OF_NOALLOC, 5, 3 },
   { V_RESIZE, "resize", 0, 4, 3 },
   { V_RESIZE_V, "resize_value", 0, 5, 3 },
   { V_RESERVE, "reserve", 0, 7, 1 },
   { V_CLEAR, "clear", OF_NOALLOC, 3, 3 },
   { V_ASSIGN_N, "assign_n", 0, 3, 3 },
   { V_ASSIGN_RANGE, "assign_range", 0, 4, 3 },
   { V_COPY_ASSIGN, "copy_assign", OF_SEC | OF_COPY, 5, 3 },
   { V_COPY_CTOR, "copy_construct", OF_SEC | OF_COPY, 4, 3 },
   { V_REBUILD, "rebuild", 0, 4, 3 },
   { V_SWAP, "swap", OF_SECW | OF_NOALLOC, 5, 3 },
   { V_READ, "read_access", OF_READ | OF_NOALLOC, 5, 3 },
   { V_EQUAL, "read_equal", OF_READ | OF_SEC | OF_NOALLOC, 3, 3 },
   { V_TRAVERSE, "read_traverse", OF_READ | OF_NOALLOC, 4, 3 },
   { V_WRITE, "write_element", OF_NOALLOC, 3, 3 },
   { V_SEARCH, "read_search", OF_READ | OF_NOALLOC, 3, 3 },
   { V_REVERSE, "reverse", OF_NOALLOC, 2, 3 },
   { V_GIANT, "grow_beyond_memory", 0, 2, 3 },
};

template<class C, class E, unsigned N> struct VecObj: SeqObj
{
   static const bool FIXED = N != 0;
   C *c;
   size_t reserved;  // capacity the caller may rely on

   VecObj(int i, const ClassDef *d): SeqObj(i, d, false, false), c(0), reserved(0) {}
   u32 per_elem() const override { return ET<E>::ledger ? 1 : 0; }
   bool reserves() const override { return true; }
   Need need() const override
   {
      Need r;
      r.lo = 1 + (!FIXED && model.size());
      r.hi = 1 + !FIXED;
      r.bytes = sizeof(C) + (FIXED ? 0 : 2 * (peak + 8) * sizeof(E));
      return r;
   }
   void *mem;
   void slot()
   {
      // aligned as the class asks for, not better
      const size_t off = alignof(C) < alignof(E) ? alignof(C) : 0;
      mem = heap_alloc(sizeof(C) + off, false, false);
      c = reinterpret_cast<C *>(static_cast<char *>(mem) + off);
   }
   void construct() override
   {
      slot();
      attempt([&] { ::new((void *)c) C(); });
      model.clear();
   }
   void destroy() override
   {
      attempt([&] { c->~C(); });
      heap_free(mem, false);
      c = 0;
      model.clear();
      peak = 0;
   }
   bool walk(Seq &out) override
   {
      const C &k = *c;
      size_t sz = k.end() - k.begin();
      if (sz > model.size() + (1 << 18)) return false;
      for (const E *i = k.begin(); i != k.end(); ++i)
      {
         if (in_arena(i) && !heap_live(i, sizeof *i)) { report(MEMORY, "contents lie in memory that is not alive"); return false; }
         if ((uintptr_t)i % alignof(E)) { report(MEMORY, "an element lies %u bytes from where its type may lie", (u32)((uintptr_t)i % alignof(E))); return false; }
         Ent x = ent(ET<E>::get(*i));
         x.addr = i;
         out.push_back(x);
      }
      return true;
   }
   void extra(u32 cat, const char *when) override
   {
      C &m = *c;
      const C &k = *c;
      const size_t n = model.size();
      EXPECTC(cat, k.size() == n, "size() is %zu with %zu elements (%s)", (size_t)k.size(), n, when);
      EXPECTC(cat, k.empty() == (n == 0), "empty() is %d with %zu elements (%s)", (int)k.empty(), n, when);
      EXPECTC(cat, k.capacity() >= n, "capacity() is %zu with %zu elements (%s)", (size_t)k.capacity(), n, when);
      if (!FIXED && k.capacity()) EXPECTC(cat, heap_live(k.begin(), k.capacity() * sizeof(E)), "capacity() is %zu, more than the storage has room for (%s)", (size_t)k.capacity(), when);
      EXPECTC(cat, k.cbegin() == k.begin() && k.cend() == k.end() && m.begin() == k.begin() && m.end() == k.end(), "iterators disagree (%s)", when);
      if (FIXED)
      {
         EXPECTC(cat, k.capacity() == N && k.max_size() == N && n <= N, "capacity() is %zu, size() %zu of %u (%s)", (size_t)k.capacity(), (size_t)k.size(), N, when);
         if constexpr (FIXED) EXPECTC(cat, k.full() == (n == N), "full() is %d with %zu elements (%s)", (int)k.full(), n, when);
      }
      if (n)
      {
         const E *b = k.begin();
         EXPECTC(cat, &k.front() == b && &m.front() == b && &k[0] == b && k.data() == b && m.data() == b, "front of the contents differs (%s)", when);
         EXPECTC(cat, &k.back() == b + n - 1 && &m.back() == b + n - 1 && &m[n - 1] == b + n - 1 && &k.at(n - 1) == b + n - 1 && &m.at(n - 1) == b + n - 1,
                 "back of the contents differs (%s)", when);
      }
   }
   u32 small(u32 c) const
   {
      u32 x = c & 0xff;
      if ((plan->opts & 1) && !FIXED) if (u32 n = big(c)) return n;
      return x < 90 ? x % 3 : x < 200 ? x % 6 : (c >> 8) % 12;
   }
   int key(u32 b) const { return 1 + b % plan->keyrange; }
   Item val(const Op &op, u32 j = 0) const { Item i = { key(op.b + j * (1 + (op.d >> 12) % 3)), (int)(op.id * 1024 + j) }; return ET<E>::norm(i); }
   static Seq cut(Seq s) { if (FIXED && s.size() > N) s.erase(s.begin() + N, s.end()); return s; }

   const E *data0; size_t cap0;
   // before a growing operation: what the caller may rely on
   void growing(size_t n)
   {
      Quiet q;
      want(c->size() + n);
      data0 = c->begin();
      cap0 = c->capacity();
      if (FIXED || (cap0 - c->size() >= n && n))
      {
         cur->noalloc_now = true;
         if (!FIXED) PROBE("vector growth within the capacity");
      }
      else if (n) PROBE("vector growth beyond the capacity");
      if (FIXED && n && c->size() + n > N) PROBE("fixed vector truncated an insertion");
   }
   void settle_insert(bool ok, const Seq &old, size_t p, const Seq &x)
   {
      const size_t c0 = cap0;
      const E *d0 = data0;
      if (ok) settle(cut(spliced(old, p, x)));
      else
         settle_prefix_inserted(old, p, x, [&](const Seq &s) { return cut(s); });
      if (!FIXED && old.size() + x.size() <= c0 && c0)
      {
         EXPECTC(IDENTITY, c->begin() == d0, "the elements moved although the capacity was not exceeded");
         EXPECTC(CONTENT, c->capacity() == c0, "capacity() went from %zu to %zu without need", c0, (size_t)c->capacity());
      }
   }
   void settle_assign(bool ok, const Seq &old, const Seq &x)
   {
      want(x.size());
      if (ok) settle(cut(x));
      else settle_prefix_assigned(old, x);
   }
   void exec(const Op &op, Obj *so) override
   {
      VecObj *s = static_cast<VecObj *>(so);
      const Seq old = model;
      const size_t n = old.size();
      const VOp vop = (VOp)(*codes())[op.code];
      if (FIXED && vop != V_REBUILD) cur->noalloc_now = true;
      const bool alias = n && (op.d & 7) < 2;
      switch (vop)
      {
      case V_PUSH:
      {
         Item it = val(op);
         E v = ET<E>::make(it);
         const E *src = &v;
         if (alias) { Quiet q; size_t j = op.a % n; src = c->begin() + j; it = old[j].k; PROBE("vector: pushed value refers into the vector"); }
         growing(1);
         bool ok = attempt([&] { c->push_back(*src); });
         settle_insert(ok, old, n, Seq(1, ent(it)));
         break;
      }
      case V_POP:
         if (!n) break;
         attempt([&] { c->pop_back(); });
         settle(without(old, n - 1, n));
         break;
      case V_INSERT:
      case V_INSERT_N:
      {
         size_t p = op.a % (n + 1), cnt = vop == V_INSERT ? 1 : small(op.c);
         Item it = val(op);
         E v = ET<E>::make(it);
         const E *src = &v;
         if (alias) { Quiet q; size_t j = (op.c >> 8) % n; src = c->begin() + j; it = old[j].k; if (p < n) PROBE("vector: inserted value refers into the vector"); }
         growing(cnt);
         E *r = 0;
         const E *pos = data0 + p;
         if (!data0) pos = 0;
         bool ok = attempt([&] { if (vop == V_INSERT) r = c->insert(pos, *src); else r = c->insert(pos, (typename C::size_type)cnt, *src); });
         settle_insert(ok, old, p, Seq(cnt, ent(it)));
         if (ok && (cnt || n)) { Quiet q; EXPECT(r == c->begin() + p, "insertion returned another position"); }
         break;
      }
      case V_INSERT_RANGE:
      {
         size_t p = op.a % (n + 1), cnt = small(op.c);
         Src<E> x;
         for (u32 j = 0; j < cnt; ++j) x.add(val(op, j));
         growing(cnt);
         E *r = 0;
         const E *a = x.begin(), *b = x.end(), *pos = data0 ? data0 + p : 0;
         bool ok = attempt([&] { r = c->insert(pos, a, b); });
         settle_insert(ok, old, p, x.model);
         if (ok && (cnt || n)) { Quiet q; EXPECT(r == c->begin() + p, "insertion returned another position"); }
         break;
      }
      case V_INSERT_OTHER:
      {
         if (s == this) break;
         size_t p = op.a % (n + 1), m = s->model.size();
         size_t f = m ? op.b % (m + 1) : 0, l = f + (m - f ? op.c % (m - f + 1) : 0);
         const E *a, *b;
         { Quiet q; a = s->c->begin() + f; b = s->c->begin() + l; }
         Seq x = fresh(Seq(s->model.begin() + f, s->model.begin() + l));
         growing(l - f);
         const E *pos = data0 ? data0 + p : 0;
         bool ok = attempt([&] { c->insert(pos, a, b); });
         settle_insert(ok, old, p, x);
         break;
      }
      case V_ERASE:
      {
         if (!n) break;
         size_t i = op.a % n;
         const E *d;
         { Quiet q; d = c->begin(); }
         E *r = 0;
         attempt([&] { r = c->erase(d + i); });
         settle(without(old, i, i + 1));
         Quiet q;
         EXPECT(r == c->begin() + i, "erase returned another position");
         EXPECTC(IDENTITY, c->begin() == d, "the elements before the erased one moved");
         break;
      }
      case V_ERASE_RANGE:
      {
         size_t f = op.a % (n + 1), l = f + op.b % (n - f + 1);
         const E *d;
         { Quiet q; d = c->begin(); }
         E *r = 0;
         if (!d) break;
         if (f == l) PROBE("vector erased an empty range");
         attempt([&] { r = c->erase(d + f, d + l); });
         settle(without(old, f, l));
         Quiet q;
         EXPECT(r == c->begin() + f, "range erase returned another position");
         break;
      }
      case V_RESIZE:
      case V_RESIZE_V:
      {
         size_t ns = (op.d >> 8 & 7) == 0 ? 0 : (op.d >> 8 & 7) == 1 ? n : op.a % (n + 1 + small(op.c));
         Item it = { 0, 0 };
         E v = ET<E>::make(val(op));
         const E *src = &v;
         if (vop == V_RESIZE_V) it = val(op);
         if (vop == V_RESIZE_V && alias) { Quiet q; size_t j = (op.c >> 8) % n; src = c->begin() + j; it = old[j].k; PROBE("vector: resize value refers into the vector"); }
         growing(ns > n ? ns - n : 0);
         if (ns <= n) cur->noalloc_now = true;
         bool ok = attempt([&] { if (vop == V_RESIZE) c->resize(ns); else c->resize(ns, *src); });
         if (ns <= n) settle(without(old, ns, n));
         else settle_insert(ok, old, n, Seq(ns - n, ent(it)));
         break;
      }
      case V_RESERVE:
      if constexpr (!FIXED)
      {
         size_t want = (op.d >> 8 & 3) == 0 ? n : op.a % (n + 12);
         size_t cap, was;
         { Quiet q; was = c->capacity(); }
         SeqObj::want(want);
         bool ok = attempt([&] { c->reserve(want); });
         { Quiet q; cap = c->capacity(); }
         settle(old);
         if (ok) EXPECTC(CONTENT, cap >= want && cap >= was, "capacity() is %zu after reserve(%zu) of a vector with %zu", cap, want, was);
      }
      break;
      case V_CLEAR:
         attempt([&] { c->clear(); });
         settle(Seq());
         break;
      case V_ASSIGN_N:
      {
         size_t cnt = small(op.c);
         E v = ET<E>::make(val(op));
         if (FIXED && cnt > N) PROBE("fixed vector truncated an assignment");
         bool ok = attempt([&] { c->assign((typename C::size_type)cnt, v); });
         settle_assign(ok, old, Seq(cnt, ent(val(op))));
         break;
      }
      case V_ASSIGN_RANGE:
      {
         size_t cnt = small(op.c) % 1000; // grows one by one
         Src<E> x;
         for (u32 j = 0; j < cnt; ++j) x.add(val(op, j));
         const E *a = x.begin(), *b = x.end();
         bool ok = attempt([&] { c->assign(a, b); });
         settle_assign(ok, old, x.model);
         break;
      }
      case V_COPY_ASSIGN:
      {
         if (s == this)
         {
            PROBE("self-assignment");
            C &r = *c;
            bool ok = attempt([&] { r = *c; });
            if (ok) settle(old, CONTENT | COPY);
            else settle_assign(false, old, fresh(old));
            break;
         }
         Seq x = fresh(s->model);
         bool ok = attempt([&] { *c = *s->c; });
         settle_assign(ok, old, x);
         s->settle(s->model);
         distinct(s);
         break;
      }
      case V_COPY_CTOR:
      {
         if (s == this) break;
         destroy();
         slot();
         bool ok = attempt([&] { ::new((void *)c) C(*s->c); });
         rebuilt(op, ok, fresh(s->model));
         s->settle(s->model);
         distinct(s);
         break;
      }
      case V_REBUILD:
      {
         destroy();
         slot();
         if (FIXED) cur->noalloc_now = true;
         u32 cnt = small(op.c);
         Src<E> x;
         for (u32 j = 0; j < cnt; ++j) x.add(val(op, j));
         E v = ET<E>::make(val(op));
         bool ok = true;
         Seq want;
         switch (op.d & 3)
         {
         case 0:
            want = Seq(cnt, ent(val(op)));
            ok = attempt([&] { ::new((void *)c) C((typename C::size_type)cnt, v); });
            break;
         case 1:
         {
            want = x.model;
            const E *a = x.begin(), *b = x.end();
            ok = attempt([&] { ::new((void *)c) C(a, b); });
            break;
         }
         case 2:
            if (!ET<E>::scalar) { Item z = { 0, 0 }; want = Seq(cnt, ent(z)); ok = attempt([&] { ::new((void *)c) C((typename C::size_type)cnt); }); break; }
            // fallthrough
         default:
            ok = attempt([&] { ::new((void *)c) C(); });
         }
         if (FIXED && want.size() > N) PROBE("fixed vector truncated a construction");
         rebuilt(op, ok, cut(want));
         break;
      }
      case V_SWAP:
      {
         Seq so = s->model;
         if (so.size() < n) PROBE("vector swapped with a shorter one");
         if (so.size() > n) PROBE("vector swapped with a longer one");
         attempt([&] { c->swap(*s->c); });
         if (s == this) { settle(old); break; }
         s->settle(old);
         settle(so);
         break;
      }
      case V_READ:
      {
         const C &k = *c;
         size_t i = n ? op.a % n : 0, sz = 0, cap = 0;
         bool em = false;
         Item x = { 0, 0 }, y = x, f = x, b = x, z = x;
         attempt([&] {
            sz = k.size(); em = k.empty(); cap = k.capacity();
            if (n) { x = ET<E>::get(k[i]); y = ET<E>::get(k.at(i)); f = ET<E>::get(k.front()); b = ET<E>::get(k.back()); z = ET<E>::get(k.data()[i]); }
         });
         EXPECT(sz == n && em == (n == 0) && cap >= n, "read: size() %zu, empty() %d, capacity() %zu with %zu elements", sz, (int)em, cap, n);
         if (n) EXPECT(x == old[i].k && y == x && z == x && f == old[0].k && b == old[n - 1].k, "read: element access gives other values");
         break;
      }
      case V_EQUAL:
      {
         bool eq = false, ne = false;
         const C &x = *c, &y = *s->c;
         attempt([&] { eq = x == y; ne = x != y; });
         bool want = n == s->model.size();
         for (size_t i = 0; want && i < n; ++i) want = item_eq(old[i].k, s->model[i].k);
         EXPECT(eq == want && ne == !want, "comparison of %s and %s gave == %d, != %d", show(old, false).c_str(), show(s->model, false).c_str(), eq, ne);
         break;
      }
      case V_TRAVERSE:
      {
         Seq got;
         got.reserve(n + 64);
         const C &k = *c;
         attempt([&] {
            size_t cap = n + 16;
            for (const E *i = k.cbegin(); i != k.cend() && cap--; ++i) got.push_back(ent(ET<E>::get(*i)));
         });
         bool same = got.size() == n;
         for (size_t i = 0; same && i < n; ++i) same = got[i].k == old[i].k;
         EXPECT(same, "traversal saw %s, expected %s", show(got, false).c_str(), show(old, false).c_str());
         break;
      }
      case V_WRITE:
      {
         if (!n) break;
         size_t i = op.a % n;
         Item v = val(op);
         E x = ET<E>::make(v);
         attempt([&] { if (op.d & 1) (*c)[i] = x; else *(c->begin() + i) = x; });
         Seq w = old;
         w[i].k = v;
         settle(w);
         break;
      }
      case V_SEARCH:
      {
         const C &k = *c;
         Item v = val(op);
         E x = ET<E>::make(v);
         size_t at = 0;
         int cnt = 0;
         attempt([&] {
            at = ttl::find(k.begin(), k.end(), x) - k.begin();
            cnt = ttl::count(k.begin(), k.end(), x);
         });
         size_t wa = n;
         int wc = 0;
         for (size_t i = n; i-- > 0;) if (item_eq(old[i].k, v)) { wa = i; ++wc; }
         EXPECT(at == wa && cnt == wc, "search over the contents gave %zu, count %d; expected %zu, %d", at, cnt, wa, wc);
         break;
      }
      case V_GIANT: // what no memory can hold is refused, or cut at the capacity
      {
         // up to what fits in memory in theory, up to what any size can say, or just where the size in bytes wraps around
         size_t g, p = op.a % (n + 1);
         if (op.b & 64) g = giant_count(op.c, ~size_t(0) - n);
         else if (op.b & 128 && sizeof(E) > 1) g = ~size_t(0) / sizeof(E) + 1 + (op.c >> 4) % 8 - n;
         else g = giant_count(op.c, std::min<size_t>(C().max_size(), PTRDIFF_MAX) - n);
         if (FIXED) g = giant_count(op.c, op.b & 64 || sizeof(E) == 1 ? ~size_t(0) - N : ~size_t(0) / sizeof(E) + 4);
         Item it = val(op);
         E v = ET<E>::make(it);
         E *pos;
         { Quiet q; pos = c->begin() + p; }
         if (FIXED) cur->noalloc_now = true;
         else cur->giant = true;
         Seq x(FIXED ? N : 0, ent(it)), w = old;
         bool ok = true, any = true;
         switch (op.b % 8)
         {
         case 0: ok = attempt([&] { c->insert(pos, (typename C::size_type)g, v); }); w = spliced(old, p, x); break;
         case 1: ok = attempt([&] { c->resize(FIXED ? g : g + n, v); }); w = spliced(old, n, x); break;
         case 2: ok = attempt([&] { c->resize(FIXED ? g : g + n); }); { Item z = { 0, 0 }; w = spliced(old, n, Seq(x.size(), ent(z))); } break;
         case 3: ok = attempt([&] { c->assign((typename C::size_type)g, v); }); w = x; break;
         case 4:
            destroy();
            slot();
            if (op.b & 32) ok = attempt([&] { ::new((void *)c) C((typename C::size_type)g); });
            else ok = attempt([&] { ::new((void *)c) C((typename C::size_type)g, v); });
            if (op.b & 32 && FIXED) { Item z = { 0, 0 }; x = Seq(N, ent(z)); }
            if (!FIXED) { EXPECT(!ok, "construction with %zu elements was not refused", g); rebuilt(op, false, Seq()); return; }
            w = x;
            break;
         default:
            if constexpr (!FIXED) ok = attempt([&] { c->reserve(g + n); });
            else any = false;
         }
         if (!any) break;
         if (FIXED) { EXPECT(ok, "growing a fixed vector by %zu was refused", g); settle(cut(w)); break; }
         EXPECT(!ok, "growing a vector of %zu elements by %zu was not refused, capacity() is %zu", n, g, (size_t)c->capacity());
         PROBE("vector growth beyond any memory refused");
         settle(op.b % 8 == 3 ? std::vector<Seq>{ old, Seq() } : std::vector<Seq>{ old });
         break;
      }
      case V_REVERSE:
         attempt([&] { ttl::reverse(c->begin(), c->end()); });
         settle(Seq(old.rbegin(), old.rend()));
         break;
      }
   }
   void distinct(VecObj *s)
   {
      Quiet q;
      if (c && s->c && model.size() && s->model.size() && c->begin() < s->c->end() && s->c->begin() < c->end())
         report(COPY, "copy shares its storage with its source");
   }
   void rebuilt(const Op &op, bool ok, const Seq &want)
   {
      if (!ok)
      {
         PROBE("construction refused");
         u32 left = heap_blocks_of_op(op.id);
         EXPECTC(LEAK, left <= 1, "a refused construction left %u blocks behind", left - 1);
         attempt([&] { ::new((void *)c) C(); });
         settle(Seq());
         return;
      }
      settle(want);
   }
   static std::vector<int> *codes() { static std::vector<int> v; return &v; }
   static Obj *make(int i, const ClassDef *d) { return new VecObj(i, d); }
   static void define(const char *name)
   {
      static ClassDef d;
      d.name = name;
      d.family = FIXED ? F_FIXED : F_VEC;
      d.elem = ET<E>::name();
      d.owning = false;
      d.bulk = 0;
      d.make = make;
      for (auto &l: vdefs)
         if (l.kinds & (FIXED ? 2 : 1))
         {
            u32 f = l.flags;
            if (FIXED) f |= OF_NOALLOC;
            OpDef o = { l.name, f, l.weight };
            d.ops.push_back(o);
            codes()->push_back(l.op);
         }
      add_class(&d);
   }
};
}
