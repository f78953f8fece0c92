// Model bookkeeping shared by the container adapters.
#pragma once
#include "sim.h"
#include "core.h"
#include <functional>
#include <set>
#include <type_traits>

namespace sim
{
void on_reset(void (*f)());

inline Ent ent(Item k) { Ent e = { k, {0, 0}, 0, 0 }; return e; }
inline Ent ent(Item k, Item v) { Ent e = { k, v, 0, 0 }; return e; }

inline Seq spliced(const Seq &s, size_t pos, const Seq &x)
{
   Seq r(s.begin(), s.begin() + pos);
   r.insert(r.end(), x.begin(), x.end());
   r.insert(r.end(), s.begin() + pos, s.end());
   return r;
}
inline Seq without(const Seq &s, size_t a, size_t b)
{
   Seq r(s.begin(), s.begin() + a);
   r.insert(r.end(), s.begin() + b, s.end());
   return r;
}
inline Seq fresh(const Seq &s) // the same values in new elements
{
   Seq r = s;
   for (size_t i = 0; i < r.size(); ++i) r[i].addr = 0, r[i].id = 0;
   return r;
}
struct SeqObj: Obj
{
   bool pairs, stable; // elements are pairs; elements keep their addresses
   SeqObj(int i, const ClassDef *c, bool p, bool s): Obj(i, c), pairs(p), stable(s) {}
   virtual bool walk(Seq &out) = 0;      // actual contents, false if it does not end where it should
   virtual void extra(u32 cat, const char *when) {} // other views of the contents
   virtual void forget(const std::set<u64> &) {}
   u32 elems() const override { return model.size() * per_elem(); }
   virtual u32 per_elem() const = 0;

   int compare(const Seq &want, const Seq &got) const // 0 same, 1 contents differ, 2 identity differs
   {
      if (want.size() != got.size()) return 1;
      int r = 0;
      for (size_t i = 0; i < want.size(); ++i)
      {
         if (want[i].k != got[i].k || (pairs && want[i].v != got[i].v)) return 1;
         if (stable && want[i].addr && want[i].addr != got[i].addr) r = 2;
      }
      return r;
   }
   void adopt(const Seq &want, const Seq &got)
   {
      Seq n = want;
      for (size_t i = 0; i < n.size(); ++i)
      {
         n[i].addr = got[i].addr;
         if (!n[i].id) n[i].id = fresh_id();
      }
      model.swap(n);
   }
   // After an operation: the contents must be one of the candidates. Returns its index.
   int settle(const std::vector<Seq> &cands, u32 cat = CONTENT)
   {
      Quiet q;
      ++stats.verifications;
      Seq got;
      bool ok = walk(got);
      const char *ref = cur->refused ? " after a refused request" : "";
      if (!ok)
      {
         report(cat, "traversal does not end%s: %s, expected %s", ref, show(got, pairs).c_str(), show(cands[0], pairs).c_str());
         aborted_quietly();
      }
      int ident = -1;
      for (size_t i = 0; i < cands.size(); ++i)
      {
         int c = compare(cands[i], got);
         if (c == 0)
         {
            adopt(cands[i], got);
            for (size_t j = 0; j < model.size(); ++j) hash_in((u32)model[j].k.k * 31 + model[j].k.t);
            extra(cat, "after the operation");
            return i;
         }
         if (c == 2 && ident < 0) ident = i;
      }
      if (ident >= 0)
      {
         size_t j = 0;
         while (!cands[ident][j].addr || cands[ident][j].addr == got[j].addr) ++j;
         Seq want = cands[ident];
         report(IDENTITY, "element %zu (%d.%d) is not the same object as before%s", j, want[j].k.k, want[j].k.t, ref);
         for (size_t i = 0; i < want.size(); ++i) want[i].addr = 0;
         adopt(want, got);
         return ident;
      }
      report(cat, "contents%s %s, expected %s", ref, show(got, pairs).c_str(), show(cands[0], pairs).c_str());
      for (size_t i = 0; i < got.size(); ++i) got[i].id = 0;
      adopt(got, got);
      return -1;
   }
   int settle(const Seq &one, u32 cat = CONTENT)
   {
      std::vector<Seq> v(1, one);
      return settle(v, cat);
   }
   // One of make(0) to make(count - 1), none of which is shorter than the one before it. Returns its index.
   template<class F> int settle_one_of(size_t count, F make, u32 cat = CONTENT)
   {
      std::vector<Seq> v;
      size_t lo = 0, hi = count - 1;
      if (count > 32)
      {
         Seq got;
         Quiet q;
         if (!walk(got)) got.clear();
         while (lo < hi)
         {
            const size_t m = lo + (hi - lo) / 2;
            if (make(m).size() < got.size()) lo = m + 1;
            else hi = m;
         }
      }
      for (size_t j = lo; j <= hi; ++j) v.push_back(make(j));
      const int j = settle(v, cat);
      return j < 0 ? j : (int)lo + j;
   }
   // refused insertion: old contents with 0..n-1 of the new elements in place
   template<class F> int settle_prefix_inserted(const Seq &old, size_t pos, const Seq &x, F cut)
   {
      return settle_one_of(x.empty() ? 1 : x.size(), [&](size_t j) { return cut(spliced(old, pos, Seq(x.begin(), x.begin() + j))); });
   }
   int settle_prefix_inserted(const Seq &old, size_t pos, const Seq &x) { return settle_prefix_inserted(old, pos, x, [](const Seq &s) { return s; }); }
   // whole-contents assignment refused: old, or a leading part of the new
   void settle_prefix_assigned(const Seq &old, const Seq &x)
   {
      Seq got;
      {
         Quiet q;
         if (!walk(got)) got.clear();
      }
      std::vector<Seq> v(1, old);
      if (got.size() <= x.size()) v.push_back(Seq(x.begin(), x.begin() + got.size()));
      settle(v);
   }
   void verify(const char *when, u32 cat) override
   {
      Quiet q;
      Seq got;
      if (!walk(got))
      {
         report(cat, "traversal does not end (%s): %s, expected %s", when, show(got, pairs).c_str(), show(model, pairs).c_str());
         aborted_quietly();
      }
      int c = compare(model, got);
      if (c == 1)
      {
         report(cat, "contents %s %s, expected %s", when, show(got, pairs).c_str(), show(model, pairs).c_str());
         adopt(got, got);
      }
      else if (c == 2)
      {
         report(IDENTITY | cat, "elements moved to other addresses (%s)", when);
         adopt(got, got);
      }
      extra(cat, when);
   }
};

template<class E> inline Ent mk(int k, int t) { Item i = { k, t }; return ent(ET<E>::norm(i)); }

// Source elements living outside the library (not in the simulated heap).
template<class E> struct Src
{
   std::vector<E> v;
   Seq model;
   void add(Item i)
   {
      v.push_back(ET<E>::make(i));
      model.push_back(ent(ET<E>::norm(i)));
   }
   const E *begin() const { return v.empty() ? &none() : &v[0]; }
   const E *end() const { return begin() + v.size(); }
   static const E &none() { static E e = ET<E>::make(Item{0, 0}); return e; }
};
// An iterator of a source that can be gone through only once: all copies of it stand where the source does.
template<class E> struct Once
{
   struct State { const E *at, *end; };
   State *s;
   const E &operator*() const
   {
      if (s->at == s->end) { report(MEMORY, "a source is read after its end"); aborted_quietly(); }
      return *s->at;
   }
   const E *operator->() const { return &**this; }
   Once &operator++()
   {
      **this;
      ++s->at;
      return *this;
   }
   // the end is the iterator without a source
   bool operator==(const Once &o) const { return over() == o.over(); }
   bool operator!=(const Once &o) const { return !(*this == o); }
   bool over() const { return !s || s->at == s->end; }
};
template<class E, class F> inline bool once(const E *a, const E *b, F f)
{
   typename Once<E>::State st = { a, b };
   Once<E> i = { &st }, e = { 0 };
   PROBE("elements from a source that can be read only once");
   return attempt([&] { f(i, e); });
}
// Both kinds of iterators walk together: every form of comparison, step and access must agree with the contents.
// Returns what does not.
template<bool BIDIR, class It, class CIt, class C, class Addr> inline const char *lockstep(C &c, const Seq &m, Addr addr)
{
   const C &k = c;
   It i = c.begin();
   CIt j = k.begin();
   for (size_t x = 0; x < m.size(); ++x)
   {
      const It e = c.end();
      const CIt ce = k.end();
      if (i == e || !(i != e) || i == ce || !(i != ce)) return "an iterator equals the end before it is reached";
      if (j == ce || !(j != ce) || j == e || !(j != e)) return "a const_iterator equals the end before it is reached";
      if (!(i == j) || i != j || !(j == i) || j != i) return "iterator and const_iterator of the same element differ";
      if (addr(*i) != m[x].addr) return "an iterator reaches another element";
      if (addr(*j) != m[x].addr) return "a const_iterator reaches another element";
      if constexpr (std::is_class<It>::value)
         if (i.operator->() != &*i || j.operator->() != &*j) return "access through -> reaches something else";
      const CIt conv = i;
      if (!(conv == j) || conv != j) return "an iterator converts to a const_iterator of another element";
      It pi = i;
      CIt pj = j;
      const It oi = i++;
      const CIt oj = j++;
      if (!(oi == pi) || oi != pi || oi == i || !(oi != i)) return "stepping an iterator by ++ after it does not give the old position";
      if (!(oj == pj) || oj != pj || oj == j || !(oj != j)) return "stepping a const_iterator by ++ after it does not give the old position";
      if (oi == j || !(oi != j) || j == oi || !(j != oi)) return "iterators of different positions are equal";
      const It &ri = ++pi;
      const CIt &rj = ++pj;
      if (&ri != &pi || &rj != &pj) return "++ does not return the iterator";
      if (pi != i || pj != j) return "the two forms of ++ reach different positions";
      if constexpr (BIDIR)
      {
         const It bi = pi--;
         const CIt bj = pj--;
         if (bi != i || bj != j) return "stepping by -- after the iterator does not give the old position";
         if (pi != oi || addr(*pi) != m[x].addr) return "-- of an iterator reaches another element";
         if (pj != oj || addr(*pj) != m[x].addr) return "-- of a const_iterator reaches another element";
         It qi = i;
         CIt qj = j;
         const It &si = --qi;
         const CIt &sj = --qj;
         if (&si != &qi || &sj != &qj) return "-- does not return the iterator";
         if (qi != pi || qj != pj) return "the two forms of -- reach different positions";
      }
   }
   if (i != c.end() || j != k.end() || !(i == k.end()) || !(j == c.end())) return "the end is not reached after the last element";
   if (k.begin() != c.begin() || k.cbegin() != k.begin() || k.cend() != k.end()) return "begin and end differ between the kinds of iterators";
   return 0;
}
#define EXPECT(cond, ...) do { if (!(cond)) ::sim::report(::sim::RESULT, __VA_ARGS__); } while (0)
#define EXPECTC(cat, cond, ...) do { if (!(cond)) ::sim::report(cat, __VA_ARGS__); } while (0)
}
