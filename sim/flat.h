// Adapters for sorted_vector_map and vector_map.
#pragma once
#include "seq.h"
#include "ttl/ttl.hpp"

namespace sim
{
enum FOp
{
   F_INSERT, F_SUBSCRIPT, F_BULK, F_CLEAR, F_COPY_CTOR, F_REBUILD, F_FIND, F_BOUNDS, F_READ, F_TRAVERSE, F_WRITE,
   F_PUSH, F_INSERT_AT, F_ERASE, F_ERASE_RANGE, F_POP, F_RESERVE, F_SWAP, F_COUNT
};
struct FDef { FOp op; const char *name; u32 flags; u32 weight; u32 kinds; }; // 1 sorted_vector_map, 2 vector_map
static const FDef fdefs[] =
{
   { F_INSERT, "insert", 0, 14, 3 },
   { F_SUBSCRIPT, "subscript", 0, 8, 3 },
   { F_BULK, "insert_many", 0, 4, 1 },
   { F_CLEAR, "clear", OF_NOALLOC, 2, 3 },
   { F_COPY_CTOR, "copy_construct", OF_SEC | OF_COPY, 4, 3 },
   { F_REBUILD, "rebuild", 0, 4, 3 },
   { F_FIND, "read_find", OF_READ | OF_NOALLOC, 7, 3 },
   { F_COUNT, "read_count", OF_READ | OF_NOALLOC, 4, 3 },
   { F_BOUNDS, "read_bounds", OF_READ | OF_NOALLOC, 7, 1 },
   { F_READ, "read_access", OF_READ | OF_NOALLOC, 4, 3 },
   { F_TRAVERSE, "read_traverse", OF_READ | OF_NOALLOC, 4, 3 },
   { F_WRITE, "write_value", OF_NOALLOC, 3, 3 },
   { F_PUSH, "push_back", 0, 4, 2 },
   { F_INSERT_AT, "insert_at", 0, 3, 2 },
   { F_ERASE, "erase", OF_NOALLOC, 5, 2 },
   { F_ERASE_RANGE, "erase_range", OF_NOALLOC, 2, 2 },
   { F_POP, "pop_back", OF_NOALLOC, 3, 2 },
   { F_RESERVE, "reserve", 0, 3, 2 },
   { F_SWAP, "swap", OF_SECW | OF_NOALLOC, 2, 2 },
};
struct Asc { enum { rev = 0 }; static bool lt(int a, int b) { return a < b; } };
struct Desc { enum { rev = 1 }; static bool lt(int a, int b) { return b < a; } };
// four keys at a time are one key
struct Coarse { enum { rev = 0 }; static bool lt(int a, int b) { return a >> 2 < b >> 2; } };
template<class K> struct Some { bool operator()(const K &a, const K &b) const { return a < b && Coarse::lt(ET<K>::get(a).k, ET<K>::get(b).k); } };
template<class K> struct Back { bool operator()(const K &a, const K &b) const { return b < a; } };

template<class C, class KE, class VE, bool SORTED, class ORD> struct FlatObj: SeqObj
{
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   typedef ttl::pair<KE, VE> PV;
   C *c;
   FlatObj(int i, const ClassDef *d): SeqObj(i, d, true, false), c(0) {}
   u32 per_elem() const override { return (ET<KE>::ledger ? 1 : 0) + (ET<VE>::ledger ? 1 : 0); }
   bool reserves() const override { return true; }
   Need need() const override
   {
      Need r;
      const u32 n = model.size(), own = (ET<KE>::owning ? n : 0) + (ET<VE>::owning ? n : 0);
      r.lo = 1 + (SORTED ? n : 0) + (n != 0) + own;
      r.hi = 2 + (SORTED ? n : 0) + own;
      r.bytes = sizeof(C) + own * sizeof(int) + (SORTED ? n * (sizeof(PV) + 16) : 0) + 2 * (peak + 8) * (SORTED ? sizeof(void *) : sizeof(PV));
      return r;
   }
   void slot() { c = static_cast<C *>(heap_alloc(sizeof(C), false, false)); }
   void construct() override
   {
      slot();
      attempt([&] { ::new((void *)c) C(); });
      model.clear();
   }
   void destroy() override
   {
      attempt([&] { c->~C(); });
      heap_free(c, false);
      c = 0;
      model.clear();
      peak = 0;
   }
   static Ent get(const PV &x) { Ent e = ent(ET<KE>::get(x.first), ET<VE>::get(x.second)); e.addr = &x; return e; }
   bool walk(Seq &out) override
   {
      size_t cap = model.size() + (1 << 18);
      const C &k = *c;
      CIt e = k.end();
      for (CIt i = k.begin(); i != e; ++i)
      {
         if (!cap--) return false;
         const PV *p = &*i;
         if (!p || (in_arena(p) && !heap_live(p, sizeof *p))) { report(MEMORY, "an entry lies in memory that is not alive"); return false; }
         out.push_back(get(*p));
      }
      return true;
   }
   void extra(u32 cat, const char *when) override
   {
      const C &k = *c;
      const size_t n = model.size();
      EXPECTC(cat, k.size() == n, "size() is %zu with %zu elements (%s)", (size_t)k.size(), n, when);
      EXPECTC(cat, k.empty() == (n == 0), "empty() is %d with %zu elements (%s)", (int)k.empty(), n, when);
   }
   static bool lt(const Item &a, const Item &b) { return ORD::lt(a.k, b.k); }
   static size_t lower(const Seq &s, const Item &k)
   {
      return std::lower_bound(s.begin(), s.end(), k, [](const Ent &a, const Item &b) { return lt(a.k, b); }) - s.begin();
   }
   static size_t upper(const Seq &s, const Item &k)
   {
      return std::upper_bound(s.begin(), s.end(), k, [](const Item &a, const Ent &b) { return lt(a, b.k); }) - s.begin();
   }
   static size_t first(const Seq &s, const Item &k)
   {
      if (SORTED)
      {
         size_t i = lower(s, k);
         return i < s.size() && !lt(k, s[i].k) ? i : s.size();
      }
      size_t i = 0;
      while (i < s.size() && !item_eq(s[i].k, k)) ++i;
      return i;
   }
   static bool has(const Seq &s, const Item &k) { return first(s, k) < s.size(); }
   static size_t place(const Seq &s, const Item &k) { return SORTED ? lower(s, k) : s.size(); }
   u32 small(u32 c) const { u32 x = c & 0xff; return x < 90 ? x % 3 : x < 200 ? x % 6 : (c >> 8) % 12; }
   int key(u32 b) const { return 1 + b % plan->keyrange; }
   Item kval(const Op &op, u32 j = 0) const { Item i = { key(op.b + j * (1 + (op.d >> 12) % 3)), (int)(op.id * 1024 + j) }; return ET<KE>::norm(i); }
   Item vval(const Op &op, u32 j = 0) const { Item i = { (int)((op.c >> 4) + j) % 1000, (int)(op.id * 1024 + j) }; return ET<VE>::norm(i); }
   Ent eval(const Op &op, u32 j = 0) const { return ent(kval(op, j), vval(op, j)); }
   CIt cat_(size_t i) { Quiet q; const C &k = *c; CIt it = k.begin(); if constexpr (std::is_pointer<CIt>::value) return it + i; while (i--) ++it; return it; }
   bool is(const CIt &i, size_t p) { const C &k = *c; return i == cat_(p) && (p == model.size() || (i != k.end() && get(*i).k == model[p].k)); }
   void insert_one(const Op &op, const Ent &e, Seq &w, bool &ok)
   {
      PV x(ET<KE>::make(e.k), ET<VE>::make(e.v));
      const bool there = has(w, e.k);
      bool ins = false;
      It r = It(begin0());
      want(w.size() + 1);
      ok = attempt([&] { ttl::pair<It, bool> p = c->insert(x); r = p.first; ins = p.second; });
      if (!ok) return;
      size_t p = place(w, e.k);
      if (!there) w.insert(w.begin() + p, e);
      else p = first(w, e.k);
      Quiet q;
      const C &k = *c;
      EXPECT(ins == !there, "insertion of a key %s returned %d", there ? "present" : "not present", ins);
      if (k.size() == w.size() && (p < 2000 || p % 1000 == 0)) { CIt cr = r; EXPECT(cr == cat_(p), "insertion returned another position"); }
   }
   It begin0() { Quiet q; return c->begin(); }
   typedef ttl::vector<PV> Base;
   void exec(const Op &op, Obj *so) override
   {
      FlatObj *s = static_cast<FlatObj *>(so);
      const Seq old = model;
      const size_t n = old.size();
      const FOp fop = (FOp)(*codes())[op.code];
      switch (fop)
      {
      case F_INSERT:
      {
         Ent e = eval(op);
         Seq w = old;
         bool ok;
         if (has(old, e.k)) PROBE("flat map: present key inserted");
         insert_one(op, e, w, ok);
         settle(w);
         break;
      }
      case F_BULK:
      {
         const u32 huge = plan->opts & 2 ? big(op.c) : 0;
         u32 cnt = huge ? huge : (plan->opts & 1) ? 20 + (op.c >> 4) % 100 : small(op.c);
         Seq w = old;
         for (u32 j = 0; j < cnt; ++j)
         {
            Item k = { huge ? (ORD::rev ? -(int)j : (int)j) : 1 + (int)(mix2(op.b, j) % 300), (int)(op.id * 1024 + j) };
            bool ok;
            insert_one(op, ent(ET<KE>::norm(k), vval(op, j)), w, ok);
            if (!ok) break;
         }
         settle(w);
         break;
      }
      case F_SUBSCRIPT:
      {
         Ent e = eval(op);
         bool present = has(old, e.k), store = op.d & 1;
         KE k = ET<KE>::make(e.k);
         VE v = ET<VE>::make(e.v);
         Item zero = { 0, 0 };
         const void *where = 0;
         want(n + 1);
         bool ok = attempt([&] { VE &r = (*c)[k]; where = &r; if (store) r = v; });
         Seq w = old;
         size_t p = present ? first(w, e.k) : place(w, e.k);
         if (!present) w.insert(w.begin() + p, ent(e.k, zero));
         if (store) w[p].v = e.v;
         if (ok) settle(w);
         else settle(old);
         if (ok && p < model.size()) { Quiet q; EXPECT(where == &(*cat_(p)).second, "subscript returned a reference to another value"); }
         break;
      }
      case F_CLEAR:
         attempt([&] { c->clear(); });
         settle(Seq());
         break;
      case F_COPY_CTOR:
      {
         if (s == this) break;
         destroy();
         slot();
         bool ok = attempt([&] { ::new((void *)c) C(*s->c); });
         rebuilt(op, ok, fresh(s->model));
         s->settle(s->model);
         distinct(s);
         break;
      }
      case F_REBUILD:
      {
         destroy();
         slot();
         bool ok = true;
         if constexpr (SORTED)
         {
            size_t pre = op.a % 5;
            if ((op.d >> 8) % 16 == 5) { pre = giant_count(op.c, ~size_t(0) / sizeof(void *)); cur->giant = true; }
            else want(pre);
            if (op.d & 1) { if (pre < 2) PROBE("flat map preallocated with 0 or 1"); ok = attempt([&] { ::new((void *)c) C((typename C::size_type)pre); }); }
            else { cur->giant = false; ok = attempt([&] { ::new((void *)c) C(); }); }
            if (cur->giant) { EXPECT(!ok, "room for %zu elements was not refused", pre); PROBE("flat map: room beyond any memory refused"); }
         }
         else ok = attempt([&] { ::new((void *)c) C(); });
         rebuilt(op, ok, Seq());
         break;
      }
      case F_FIND:
      {
         Item k = kval(op);
         if (n && (op.d & 8)) k = old[op.a % n].k;
         KE kk = ET<KE>::make(k);
         const C &y = *c;
         CIt e = cat_(n), r = e;
         const size_t want = first(old, k);
         cur->cmps = 0;
         if (!(op.d & 1 ? attempt([&] { It i = c->find(kk); r = i; }) : attempt([&] { r = y.find(kk); }))) break;
         if (SORTED) { check_log(n); }
         Quiet q;
         EXPECT(r == cat_(want), "find() of %s key %d is not element %zu of %s", want < n ? "a present" : "an absent", k.k, want, show(old, true).c_str());
         break;
      }
      case F_COUNT:
      {
         Item k = kval(op);
         if (n && (op.d & 8)) k = old[op.a % n].k;
         KE kk = ET<KE>::make(k);
         const C &y = *c;
         size_t cnt = 0, want = 0;
         for (auto &e: old) if (SORTED ? !lt(e.k, k) && !lt(k, e.k) : item_eq(e.k, k)) ++want;
         if (!attempt([&] { cnt = y.count(kk); })) break;
         EXPECT(cnt == want, "count() of %s key %d is %zu, expected %zu", want ? "a present" : "an absent", k.k, cnt, want);
         break;
      }
      case F_BOUNDS:
      if constexpr (SORTED)
      {
         Item k = kval(op);
         if (n && (op.d & 8)) k = old[op.a % n].k;
         KE kk = ET<KE>::make(k);
         const C &y = *c;
         CIt e = cat_(n), lo = e, up = e, a = e, b = e;
         const size_t wl = lower(old, k), wu = upper(old, k);
         bool ok;
         if (op.d & 1)
            ok = attempt([&] { It i = c->lower_bound(kk); lo = i; It j = c->upper_bound(kk); up = j; ttl::pair<It, It> p = c->equal_range(kk); a = p.first; b = p.second; });
         else
            ok = attempt([&] { lo = y.lower_bound(kk); up = y.upper_bound(kk); ttl::pair<CIt, CIt> p = y.equal_range(kk); a = p.first; b = p.second; });
         if (!ok) break;
         Quiet q;
         EXPECT(is(lo, wl), "lower_bound() of key %d (%s) is not element %zu of %s", k.k, wl == wu ? "absent" : "present", wl, show(old, true).c_str());
         EXPECT(is(up, wu), "upper_bound() of key %d (%s) is not element %zu of %s", k.k, wl == wu ? "absent" : "present", wu, show(old, true).c_str());
         EXPECT(is(a, wl) && is(b, wu), "equal_range() of key %d is not element %zu of %s", k.k, wl, show(old, true).c_str());
      }
      break;
      case F_READ:
      {
         const C &y = *c;
         size_t sz = 0, i = n ? op.a % n : 0;
         bool em = false;
         Item v = { 0, 0 };
         KE kk = ET<KE>::make(n ? old[i].k : kval(op));
         if (!attempt([&] {
            sz = y.size(); em = y.empty();
            if (n) { if (op.d & 1) v = ET<VE>::get(y.at(kk)); else v = ET<VE>::get(c->at(kk)); }
         })) break;
         EXPECT(sz == n && em == (n == 0), "read: size() %zu, empty() %d with %zu elements", sz, (int)em, n);
         if (n) EXPECT(v == old[first(old, old[i].k)].v, "read: at() gave another value");
         break;
      }
      case F_TRAVERSE:
      {
         if ((op.d >> 4 & 3) == 0)
         {
            const char *wrong = 0;
            attempt([&] { wrong = lockstep<true, It, CIt>(*c, old, [](const PV &e) { return (const void *)&e; }); });
            PROBE("both kinds of iterators walked together");
            EXPECT(!wrong, "%s in %s", wrong, show(old, true).c_str());
            break;
         }
         Seq got;
         got.reserve(n + 64);
         const C &k = *c;
         const bool back = op.d & 1, cst = op.d & 2;
         attempt([&] {
            size_t cap = n + 16;
            if (!back && cst) for (CIt i = k.cbegin(); i != k.cend() && cap--; i++) got.push_back(get(*i));
            else if (!back) for (It i = c->begin(); i != c->end() && cap--; ++i) got.push_back(get(*i));
            else if (cst) for (CIt i = k.cend(); i != k.cbegin() && cap--;) { --i; got.push_back(get(*i)); }
            else for (It i = c->end(); i != c->begin() && cap--;) { i--; got.push_back(get(*i)); }
         });
         if constexpr (SORTED)
            if (op.d & 4 && n > 1)
            {
               size_t up = 0, down = 0;
               const bool ok = attempt([&] {
                  CIt i = k.begin(), j = i;
                  for (++j; j != k.end(); ++i, ++j)
                  {
                     up += k.value_comp()(*i, *j) && k.key_comp()(i->first, j->first);
                     down += k.value_comp()(*j, *i) || k.key_comp()(j->first, j->first);
                  }
               });
               if (ok) EXPECT(up == n - 1 && !down, "%zu of %zu elements come before the next one by value_comp(), %zu after it or themselves", up, n - 1, down);
            }
         if (back) std::reverse(got.begin(), got.end());
         bool same = got.size() == n;
         for (size_t i = 0; same && i < n; ++i) same = got[i].k == old[i].k && got[i].v == old[i].v;
         EXPECT(same, "traversal saw %s, expected %s", show(got, true).c_str(), show(old, true).c_str());
         break;
      }
      case F_WRITE:
      {
         if (!n) break;
         size_t i = op.a % n;
         i = first(old, old[i].k);
         Item v = vval(op);
         VE x = ET<VE>::make(v);
         KE kk = ET<KE>::make(old[i].k);
         if (!attempt([&] { if (op.d & 1) c->find(kk)->second = x; else c->at(kk) = x; })) break;
         Seq w = old;
         w[i].v = v;
         settle(w);
         break;
      }
      default:
      if constexpr (!SORTED) exec_vm(op, s, fop, old);
      }
   }
   void exec_vm(const Op &op, FlatObj *s, FOp fop, const Seq &old)
   {
      Base &b = *c;
      const size_t n = old.size();
      const PV *d;
      { Quiet q; d = b.begin(); }
      switch (fop)
      {
      case F_PUSH:
      case F_INSERT_AT:
      {
         Ent e = eval(op);
         PV x(ET<KE>::make(e.k), ET<VE>::make(e.v));
         if (has(old, e.k)) PROBE("vector map: repeated key");
         size_t p = fop == F_PUSH ? n : op.a % (n + 1);
         want(n + 1);
         bool ok = attempt([&] { if (fop == F_PUSH) b.push_back(x); else b.insert(d ? d + p : d, x); });
         if (ok) settle(spliced(old, p, Seq(1, e)));
         else settle(old);
         break;
      }
      case F_ERASE:
      {
         if (!n) break;
         size_t i = op.a % n;
         attempt([&] { b.erase(d + i); });
         settle(without(old, i, i + 1));
         break;
      }
      case F_ERASE_RANGE:
      {
         if (!d) break;
         size_t f = op.a % (n + 1), l = f + op.b % (n - f + 1);
         attempt([&] { b.erase(d + f, d + l); });
         settle(without(old, f, l));
         break;
      }
      case F_POP:
         if (!n) break;
         attempt([&] { b.pop_back(); });
         settle(without(old, n - 1, n));
         break;
      case F_RESERVE:
         want(op.a % (n + 8));
         attempt([&] { b.reserve(op.a % (n + 8)); });
         settle(old);
         break;
      case F_SWAP:
      {
         Seq so = s->model;
         attempt([&] { b.swap(*s->c); });
         if (s == this) { settle(old); break; }
         s->settle(old);
         settle(so);
         break;
      }
      default: break;
      }
   }
   void distinct(FlatObj *s)
   {
      std::set<const void *> of;
      for (const Ent &e: s->model) of.insert(e.addr);
      for (size_t i = 0; i < model.size(); ++i)
         if (of.count(model[i].addr)) { report(COPY, "copy shares element %zu with its source", i); return; }
   }
   void rebuilt(const Op &op, bool ok, const Seq &want)
   {
      if (!ok)
      {
         PROBE("construction refused");
         u32 left = heap_blocks_of_op(op.id);
         EXPECTC(LEAK, left <= 1, "a refused construction left %u blocks behind", left - 1);
         attempt([&] { ::new((void *)c) C(); });
         settle(Seq());
         return;
      }
      settle(want);
   }
   static std::vector<int> *codes() { static std::vector<int> v; return &v; }
   static Obj *make(int i, const ClassDef *d) { return new FlatObj(i, d); }
   static void define(const char *name)
   {
      static ClassDef d;
      d.name = name;
      d.family = SORTED ? F_SVM : F_VM;
      d.elem = ET<KE>::name();
      d.owning = ET<KE>::owning;
      d.bulk = 0;
      d.make = make;
      for (auto &l: fdefs)
         if (l.kinds & (SORTED ? 1 : 2))
         {
            OpDef o = { l.name, l.flags, l.weight };
            d.ops.push_back(o);
            codes()->push_back(l.op);
         }
      add_class(&d);
   }
};
}
