// Algorithms, arrays and bit sets over ranges private to one task: whatever other tasks do meanwhile and
// whichever element copies are refused memory, they stay inside the ranges they are given, keep every
// element alive and give the result the same call gives running alone.
#include "seq.h"
#include "ttl/ttl.hpp"
#include "ttl/list.hpp"
#include "ttl/numeric.hpp"

namespace sim
{
enum { R_ARRAY, R_LIST, R_FWD, R_KINDS };
// library code of the harness: in the simulated heap, but without switches and faults
struct Tame
{
   int s; bool n;
   Tame() { s = cur->sut; n = cur->noalloc_now; cur->sut = 1; cur->noalloc_now = false; ++cur->quiet; }
   ~Tame() { --cur->quiet; cur->sut = s; cur->noalloc_now = n; }
};
template<class E> struct JobData
{
   enum { MAXN = 12, AR = 5 };
   size_t OUT;
   E *in, *in2, *out; // blocks of exactly the size of the range
   ttl::list<E> list;
   ttl::forward_list<E> fwd;
   ttl::array<E, AR> x, y;
   ttl::bitset<37> a, b;
   ttl::bitset<130> c, d;
   ttl::pair<E, E> p, q;
   size_t n;
   u32 kind;
   size_t res[8];
   u64 seed;
   size_t odd, same; // of the first range
   JobData(): OUT(0), in(0), in2(0), out(0), n(0), kind(R_ARRAY), seed(0), odd(0), same(0) { for (auto &r: res) r = 0; shape(0, R_ARRAY); }
   ~JobData() { drop(in, kind == R_ARRAY ? n : 0); drop(in2, n); drop(out, OUT); }
   static E *get(size_t n)
   {
      E *r = static_cast<E *>(heap_alloc(n * sizeof(E), false, false));
      for (size_t i = 0; i < n; ++i) ::new ((void *)(r + i)) E();
      return r;
   }
   static void drop(E *r, size_t n)
   {
      if (!r) return;
      for (size_t i = 0; i < n; ++i) r[i].~E();
      heap_free(r, false);
   }
   void shape(size_t m, u32 k)
   {
      Tame t;
      drop(in, kind == R_ARRAY ? n : 0); drop(in2, n); drop(out, OUT);
      list.clear();
      while (!fwd.empty()) fwd.pop_front();
      n = m; kind = k;
      OUT = m > MAXN ? 2 * m + 8 : 2 * MAXN + 8;
      in = get(k == R_ARRAY ? n : 0); in2 = get(n); out = get(OUT);
      for (size_t i = 0; i < n; ++i)
         if (k == R_LIST) list.push_back(E());
         else if (k == R_FWD) fwd.push_front(E());
   }
   static E &at(ttl::array<E, AR> &x, int i) { return reinterpret_cast<E *>(&x)[i]; } // without its own members
   size_t elems() const { return 2 * n + OUT + 2 * AR + 4; }
   template<class F> void items(F f)
   {
      if (kind == R_ARRAY) for (size_t i = 0; i < n; ++i) f(in[i]);
      else if (kind == R_LIST) for (auto i = list.begin(); i != list.end(); ++i) f(*i);
      else for (auto i = fwd.begin(); i != fwd.end(); ++i) f(*i);
      for (size_t i = 0; i < n; ++i) f(in2[i]);
      for (size_t i = 0; i < OUT; ++i) f(out[i]);
      for (int i = 0; i < AR; ++i) { f(at(x, i)); f(at(y, i)); }
      f(p.first); f(p.second); f(q.first); f(q.second);
   }
};
template<class E> struct Odd { bool operator()(const E &e) const { yield_point(); pick<E>(); return ET<E>::get(e).k & 1; } };
template<class E> struct Same { bool operator()(const E &x, const E &y) const { yield_point(); pick<E>(); return ET<E>::get(x).k / 2 == ET<E>::get(y).k / 2; } };
template<class E> struct Lower { bool operator()(const E &x, const E &y) const { yield_point(); pick<E>(); return ET<E>::get(x).k < ET<E>::get(y).k; } };
template<class E> struct Next { E operator()(const E &x) const { yield_point(); pick<E>(); Item i = ET<E>::get(x); ++i.k; return ET<E>::make(i); } };
template<class E> struct Pick { E operator()(const E &x, const E &y) const { yield_point(); pick<E>(); return ET<E>::get(x).k < ET<E>::get(y).k ? y : x; } };
template<class E> struct Gen { int *n; E operator()() const { yield_point(); pick<E>(); Item i = { ++*n, 0 }; return ET<E>::make(i); } };
template<class E> struct Sum { int s; void operator()(const E &e) { yield_point(); pick<E>(); s += ET<E>::get(e).k; } };

enum { J_FIND, J_SEARCH, J_COMPARE, J_COPY, J_FILL, J_REMOVE, J_REVERSE, J_BINARY, J_MINMAX, J_MERGE, J_BITSET, J_BITSET_WIDE, J_BITSET_MAKE, J_ARRAY, JN };
static const char *const jnames[JN] = { "find", "search", "compare", "copy", "fill", "remove", "reverse", "binary_search", "minmax", "merge", "bitset", "bitset_wide", "bitset_make", "array" };
static const u32 jmodes = 4;

template<class I> static size_t ix(I a, I b) { size_t n = 0; for (; a != b; ++a) ++n; return n; }
template<class E> static size_t ix(E *a, E *b) { return b - a; }
template<class I> static I nx(I a, size_t n) { while (n--) ++a; return a; }

// A bit set of N bits in a block of exactly its size, made in all the ways there are, from a text of any
// length in a block of exactly that, from numbers and from bit sets of other sizes.
template<size_t N> struct Bits
{
   typedef ttl::bitset<N> B;
   void *m;
   B *b;
   Bits(): m(heap_alloc(sizeof(B), false, false)), b(0) {}
   template<class F> Bits &make(F f) { b = f(m); return *this; }
   ~Bits() { if (b) b->~B(); heap_free(m, false); }
};
template<size_t N, size_t M> static void bits_made(u32 mode, size_t len, u64 s, size_t *r)
{
   typedef ttl::bitset<N> B;
   typedef ttl::bitset<M> C;
   char *t = (char *)heap_alloc(len + 1, false, false);
   for (size_t i = 0; i < len; ++i) t[i] = "01"[s >> i % 61 & 1];
   t[len] = mode & 1 ? 0 : '2';
   size_t shift = mode & 2 ? s % (N + 3) : s % 9;
   {
      Bits<N> x, y, z, l, g, n;
      Bits<M> w, c;
      x.make([&](void *m) { return mode & 1 ? ::new (m) B(t) : ::new (m) B(t, len); });
      y.make([&](void *m) { return ::new (m) B((unsigned long)s); });
      z.make([&](void *m) { return ::new (m) B((unsigned long long)s); });
      w.make([&](void *m) { return ::new (m) C(*x.b); });
      c.make([&](void *m) { return ::new (m) C(*w.b); });
      l.make([&](void *m) { return ::new (m) B(*x.b << shift); });
      g.make([&](void *m) { return ::new (m) B(*x.b >> shift); });
      n.make([&](void *m) { return ::new (m) B(~*y.b); });
      r[0] = x.b->count() + 1000 * y.b->count() + 1000000 * z.b->count();
      r[1] = x.b->to_ulong() ^ y.b->to_ullong();
      r[2] = l.b->count() + 1000 * g.b->count() + 1000000 * n.b->count();
      if (mode & 2) *x.b = *w.b; else *w.b = *x.b;
      *y.b |= *z.b; *x.b &= *y.b; *n.b ^= *x.b;
      if (N) { const size_t p = s % N; x.b->set(p); y.b->reset(p); n.b->flip(p); (*l.b)[p] = (*x.b)[(s >> 8) % N]; (*l.b)[p].flip(); r[3] = g.b->test(p); }
      if (N) // the reference to an element that is not there refers to nothing
      {
         const size_t p = N + (mode & 4 ? s % 70 : s % 3);
         const bool on = (*y.b)[p];
         (*y.b)[p] = s & 2; (*x.b)[p].flip(); (*n.b)[p] = (*x.b)[s % N];
         r[3] += 64 * on + 128 * ~(*y.b)[p] + 256 * (*x.b)[p];
      }
      const B &cx = *x.b;
      r[3] += 2 * cx[s % (N + 1)] + 4 * x.b->test(N + s % 70) + 8 * x.b->any() + 16 * x.b->all() + 32 * x.b->none();
      if (N) y.b->set(s % N, mode & 1);
      else { x.b->set(s % 99); x.b->set(s % 99, mode & 1); x.b->reset(s % 99); x.b->flip(s % 99); }
      {
         const ttl::bitset<0> nil;
         const C cv = *x.b; // converted
         r[7] = (*x.b == nil) + 2 * (nil == *w.b) + 4 * (*x.b != nil) + 8 * (nil != *w.b) + 16 * cv.count() + 10000 * (cx.capacity() + w.b->size());
      }
      *y.b <<= shift; *n.b >>= shift; *c.b = C(*w.b); // from another bit set, and from one of another size
      r[4] = x.b->count() + 1000 * y.b->count() + 1000000 * w.b->count();
      r[5] = (*x.b == *y.b) + 2 * (*x.b != *n.b) + 4 * (*c.b == *w.b);
      x.b->flip(); g.b->set(); n.b->reset();
      r[6] = x.b->count() + 1000 * g.b->count() + 1000000 * n.b->count();
   }
   heap_free(t, false);
}

// a to z is the first range, by whatever kind of iterator
template<class E, class I> static void algo(int which, u32 mode, JobData<E> &d, const E &x, const I a, const I z)
{
   const bool pointers = std::is_pointer<I>::value, bidir = !std::is_same<I, typename ttl::forward_list<E>::iterator>::value;
   E *b = d.in2, *y = d.in2 + d.n, *o = d.out;
   const auto room = [&](size_t n) { return d.out + d.OUT - n; }; // for n results and no more
   const size_t third = d.n / 3;
   size_t *r = d.res;
   int g = 3;
   Gen<E> gen = { &g };
   switch (which)
   {
   case J_FIND:
      r[0] = ix(a, ttl::find(a, z, x));
      r[1] = ix(a, ttl::find_if(a, z, Odd<E>()));
      r[2] = ix(a, ttl::find_if_not(a, z, Odd<E>()));
      r[3] = ttl::count(a, z, x);
      r[4] = ttl::count_if(a, z, Odd<E>());
      r[5] = ttl::all_of(a, z, Odd<E>()) + 2 * ttl::any_of(a, z, Odd<E>()) + 4 * ttl::none_of(a, z, Odd<E>());
      r[6] = ix(a, ttl::adjacent_find(a, z));
      r[7] = ix(a, ttl::adjacent_find(a, z, Same<E>()));
      break;
   case J_SEARCH:
      r[0] = ix(a, ttl::search(a, z, nx(a, d.n / 2), z));
      r[1] = ix(a, ttl::search(a, z, nx(a, d.n / 2), z, Same<E>()));
      r[2] = ix(a, ttl::search_n(a, z, (int)mode, x)) + 100 * ix(a, ttl::search_n(a, z, (int)d.n / 2, x));
      r[3] = ix(a, ttl::search_n(a, z, (int)mode, x, Same<E>())) + 100 * ix(a, ttl::search_n(a, z, (int)d.n / 2, x, Same<E>()));
      { Sum<E> s = { 0 }; r[4] = ttl::for_each(a, z, s).s; }
      r[5] = ttl::search(b, y, b + mode % (d.n + 1), b + d.n) - b;
      r[6] = ttl::search(b, y, o, o + mode) - b;
      r[7] = ix(a, ttl::search(a, z, y - third, y)) + 100 * ix(a, ttl::search(a, z, y - third, y, Same<E>())) + 10000 * (ttl::search(y - third, y, a, z) - b)
           + 1000000 * (ttl::search(y - third, y, a, z, Same<E>()) - b);
      break;
   case J_COMPARE:
      r[0] = ttl::equal(a, z, b) + 2 * ttl::equal(a, z, y - third, y) + 4 * ttl::equal(a, z, y - third, y, Same<E>()) + 8 * ttl::equal(y - third, y, a, z)
           + 16 * ttl::equal(y - third, y, a) + 32 * ttl::equal(y - third, y, a, Same<E>()) + 64 * ttl::equal(y - third, y, a, z, Same<E>());
      r[1] = ttl::equal(a, z, b, y);
      r[2] = ttl::equal(a, z, b, Same<E>()) + 2 * ttl::equal(a, z, b, b + d.n / 2);
      r[3] = ttl::equal(a, z, b, y, Same<E>()) + 2 * ttl::equal(b, b + d.n / 2, a, z);
      r[4] = ix(a, ttl::mismatch(a, z, b).first);
      r[5] = (ttl::mismatch(a, z, b, b + d.n / 2).second - b) + 100 * (ttl::mismatch(a, z, y - third, y).second - b) + 10000 * (ttl::mismatch(a, z, y - third, y, Same<E>()).second - b);
      r[6] = ix(a, ttl::mismatch(a, z, b, Same<E>()).first) + 100 * ix(a, ttl::mismatch(y - third, y, a, z).second) + 10000 * ix(a, ttl::mismatch(y - third, y, a).second);
      r[7] = (d.p == d.q) + 2 * (d.p != d.q) + 4 * (ttl::mismatch(b, b + d.n / 2, a, z, Same<E>()).first - b);
      break;
   case J_COPY:
      if (mode & 2) r[0] = ttl::copy(a, z, room(d.n)) - o;
      else r[1] = ttl::copy_if(a, z, room(d.odd), Odd<E>()) - o;
      if (mode & 1) r[2] = ttl::copy_n(a, d.n, room(d.n)) - o;
      else if constexpr (bidir) r[2] = ttl::copy_backward(a, z, o + d.n) - o;
      else r[2] = ttl::copy_backward(b, y, o + d.n) - o;
      r[3] = ttl::transform(a, z, room(d.n), Next<E>()) - o;
      r[4] = ttl::transform(a, z, b, room(d.n), Pick<E>()) - o;
      break;
   case J_FILL:
      if (mode & 1) ttl::fill(a, z, x);
      else r[0] = ttl::fill_n(room(d.n), d.n, x) - o;
      ttl::generate(b, y, gen);
      r[1] = ttl::generate_n(room(d.n / 2), (int)d.n / 2, gen) - o;
      if (mode & 2) r[2] = ix(a, ttl::copy(b, y, a)); // into the first range
      else if constexpr (pointers) ttl::swap_ranges(a, z, b);
      else { E *h = b + d.n / 2; r[3] = ttl::swap_ranges(b, h, room(d.n / 2)) - o; } // its second range must be of the same type as the first
      if (d.n) ttl::iter_swap(a, b);
      break;
   case J_REMOVE:
      if (mode == 0) r[0] = ix(a, ttl::remove(a, z, x));
      else if (mode == 1) r[0] = ix(a, ttl::remove_if(a, z, Odd<E>()));
      else if (mode == 2) r[0] = ttl::remove_copy(a, z, room(d.n - d.same), x) - o;
      else r[0] = ttl::remove_copy_if(a, z, room(d.n - d.odd), Odd<E>()) - o;
      if (d.n) ttl::replace(b, y, d.at(d.x, 0), x);
      if (mode & 1) ttl::replace_if(b, y, Odd<E>(), x);
      r[1] = ttl::replace_copy(a, z, room(d.n), x, d.p.first) - o;
      r[2] = ttl::replace_copy_if(b, y, room(d.n), Odd<E>(), x) - o;
      break;
   case J_REVERSE:
      if constexpr (bidir) { ttl::reverse(a, z); r[0] = ttl::reverse_copy(a, z, room(d.n)) - o; }
      else { ttl::reverse(b, y); r[0] = ttl::reverse_copy(b, y, room(d.n)) - o; }
      ttl::swap(d.p.first, d.p.second);
      d.p.swap(d.q);
      break;
   case J_BINARY: // sorted before
      if constexpr (pointers)
      {
         r[0] = ttl::lower_bound(a, z, x) - a;
         r[1] = ttl::lower_bound(a, z, x, Lower<E>()) - a;
         r[2] = ttl::upper_bound(a, z, x) - a;
         r[3] = ttl::upper_bound(a, z, x, Lower<E>()) - a;
         r[4] = ttl::binary_search(a, z, x) + 2 * ttl::binary_search(a, z, x, Lower<E>());
         I w = a;
         ttl::advance(w, ttl::distance(a, z));
         r[5] = 10000 * (w == z) + (ttl::equal_range(a, z, x).second - a) + 100 * (ttl::equal_range(a, z, x, Lower<E>()).second - a);
      }
      r[6] = ttl::is_sorted(a, z) + 2 * ttl::is_sorted(b, y);
      r[7] = ttl::is_sorted_until(b, y) - b;
      break;
   case J_MINMAX:
      r[0] = ix(a, ttl::min_element(a, z));
      r[1] = ix(a, ttl::max_element(a, z));
      r[2] = ix(a, ttl::minmax_element(a, z).second);
      r[3] = &ttl::min(x, d.p.first) == &x;
      r[4] = &ttl::max(x, d.p.first) == &x;
      r[5] = &ttl::minmax(x, d.p.first).first == &x;
      r[6] = &ttl::min(x, d.p.first, Lower<E>()) == &x;
      r[7] = (&ttl::max(x, d.p.first, Lower<E>()) == &x) + 2 * (&ttl::minmax(x, d.p.first, Lower<E>()).second == &x);
      break;
   case J_MERGE:
      if (mode & 1) r[0] = ttl::merge(a, z, b, y, room(2 * d.n)) - o;
      else r[1] = ttl::merge(b, y, a, z, room(2 * d.n)) - o;
      if (mode & 2) r[3] = ttl::merge(a, z, y - third, y, room(d.n + third)) - o;
      if constexpr (ET<E>::scalar) { r[2] = ttl::accumulate(a, z, 0); ttl::iota(a, z, 5); }
      break;
   case J_BITSET:
      d.a.set(d.n * 3);
      if (mode & 1) d.a ^= d.b; else d.a |= d.b;
      if (mode & 2) d.a <<= d.n; else d.b >>= d.n;
      d.a.flip(mode * 7);
      d.b = ~d.a;
      d.a[5] = !d.a[6];
      r[0] = d.a.count(); r[1] = d.b.count(); r[2] = d.a.any() + 2 * d.a.all() + 4 * d.a.none() + 8 * (d.a == d.b);
      r[3] = d.a.to_ulong(); r[4] = (d.a & d.b).count(); r[5] = d.b.test(d.n);
      break;
   case J_BITSET_WIDE:
      d.c.set(d.n * 9);
      if (mode & 1) d.c = d.c << (d.n * 5); else d.c = d.c | (d.d >> 1);
      d.d = d.c ^ d.d;
      d.d.flip(mode * 31);
      d.d.reset(d.n);
      r[0] = d.c.count(); r[1] = d.d.count(); r[2] = d.c == d.d; r[3] = d.c.to_ulong(); r[4] = d.d.any() + 2 * d.d.none() + 4 * d.d.all();
      break;
   case J_BITSET_MAKE:
   {
      const u64 k = mix2(d.seed, 7);
      const size_t len = k >> 40 & 3 ? (k >> 32) % 150 : (k >> 32) % 420;
      switch (k % 7)
      {
      case 0: bits_made<37, 64>(mode, len, k, r); break;
      case 1: bits_made<64, 130>(mode, len, k, r); break;
      case 2: bits_made<65, 5>(mode, len, k, r); break;
      case 3: bits_made<128, 1>(mode, len, k, r); break;
      case 4: bits_made<130, 37>(mode, len, k, r); break;
      case 5: bits_made<1, 200>(mode, len, k, r); break;
      case 6: bits_made<0, 66>(mode, len, k, r); break;
      }
      break;
   }
   case J_ARRAY:
   {
      const ttl::array<E, JobData<E>::AR> &cx = d.x;
      r[0] = (d.x == d.y) + 2 * (d.x != d.y);
      if (mode & 1) d.x.swap(d.y);
      if (mode & 2) d.x.fill(x);
      r[1] = cx.size() + 10 * cx.max_size() + 100 * cx.empty();
      r[2] = (&cx.front() == cx.begin()) + 2 * (&cx.back() == cx.end() - 1) + 4 * (&cx.at(2) == cx.data() + 2) + 8 * (&d.x[1] == d.x.begin() + 1);
      r[3] = ttl::count(cx.cbegin(), cx.cend(), x);
      r[4] = (&d.x.front() == d.x.begin()) + 2 * (&d.x.back() == d.x.end() - 1) + 4 * (&d.x.at(3) == d.x.data() + 3) + 8 * (&cx[4] == cx.begin() + 4);
      r[5] = (ttl::make_pair(d.p.first, x) == d.p) + 2 * (ttl::select_first<ttl::pair<E, E>>()(d.p) == x) + 4 * (ttl::select_second<ttl::pair<E, E>>()(d.p) == x);
      {
         const ttl::pair<const E, E> c(d.q.first, x); // of other types
         ttl::pair<E, E> t(c), u;
         u = c;
         r[6] = (t == u) + 2 * (u == d.q);
         if (mode & 1) d.p = d.q, d.q = d.q;
         else d.p = c;
         ttl::array<E, 0> no;
         no.fill(x);
         r[7] = no.empty() + 2 * no.size() + 4 * (no.begin() == no.end()) + 8 * (no == no);
      }
      break;
   }
   }
}
template<class E> static void algo_on(int which, u32 mode, JobData<E> &d, const E &x)
{
   switch (d.kind)
   {
#ifndef ARRAYS_ONLY // bin/common.py: some algorithm does not compile for other ranges
   case R_LIST: algo<E>(which, mode, d, x, d.list.begin(), d.list.end()); break;
   case R_FWD: algo<E>(which, mode, d, x, d.fwd.begin(), d.fwd.end()); break;
#endif
   default: algo<E>(which, mode, d, x, d.in, d.in + d.n);
   }
}

template<class E> struct JobObj: Obj
{
   typedef JobData<E> D;
   D *d, *e;   // worked on; the copy run alone
   std::vector<Item> left; // what the last job left
   JobObj(int i, const ClassDef *c): Obj(i, c), d(0), e(0) {}
   void construct() override
   {
      Tame t;
      d = ::new (heap_alloc(sizeof(D), false, false)) D();
      e = ::new (heap_alloc(sizeof(D), false, false)) D();
      Quiet q;
      left = all(*d, false);
   }
   void destroy() override
   {
      Tame t;
      d->~D(); e->~D();
      heap_free(d, false); heap_free(e, false);
   }
   u32 elems() const override { return ET<E>::ledger ? d->elems() + e->elems() : 0; }
   template<class B> static int digest(const B &b) // of its memory
   {
      u64 h = 1;
      for (size_t i = 0; i < sizeof b; ++i) h = (h ^ ((const u8 *)&b)[i]) * 0x100000001b3ull;
      return (int)(h ^ h >> 32);
   }
   static std::vector<Item> all(D &x, bool bits = true)
   {
      std::vector<Item> v;
      x.items([&](E &y) { v.push_back(ET<E>::get(y)); });
      if (bits)
      {
         for (size_t i = 0; i < 37; ++i) v.push_back(Item{ x.a.test(i), x.b.test(i) });
         for (size_t i = 0; i < 130; ++i) v.push_back(Item{ x.c.test(i), x.d.test(i) });
      }
      else
      {
         v.push_back(Item{ digest(x.a), digest(x.b) });
         v.push_back(Item{ digest(x.c), digest(x.d) });
      }
      for (size_t r: x.res) v.push_back(Item{ (int)r, 0 });
      return v;
   }
   void verify(const char *when, u32 cat) override
   {
      Quiet q;
      same(cat, when, all(*d, false), left, "before");
   }
   static bool bitwise(const Op &op) { return op.code == J_BITSET || op.code == J_BITSET_WIDE || op.code == J_BITSET_MAKE; }
   void fillin(D &x, const Op &op, u32 kind)
   {
      u64 s = mix3(op.a, op.b, op.c);
      bool srt = op.code == J_BINARY || op.code == J_MERGE;
      int i = 0;
      x.seed = s;
      const bool wide = op.code < J_BITSET && op.c >> 8 & 1 && plan->preempt < 2000 && (op.c >> 9) % 20 == 0;
      if (wide) PROBE("algorithm over a long range");
      x.shape(wide ? D::MAXN + 1 + (op.c >> 16) % 120 : op.c % (D::MAXN + 1), kind);
      std::vector<int> k;
      const int few[] = { 5, 5, 5, 5, 5, 2, 1, wide ? 100 : 3 }, most = few[s >> 22 & 7];
      x.items([&](E &) { s = mix(s); k.push_back(1 + s % most); });
      // often the second range has much in common with the first
      if (s >> 20 & 1) for (size_t j = 0; j < x.n; ++j) k[x.n + j] = k[j];
      if (s >> 21 & 1) for (size_t j = 0; j < x.n / 3; ++j) k[2 * x.n - x.n / 3 + j] = k[j];
      if (srt) { std::sort(k.begin(), k.begin() + x.n); std::sort(k.begin() + x.n, k.begin() + 2 * x.n); }
      x.items([&](E &y) { Item it = { k[i], i }; y = ET<E>::make(it); ++i; });
      x.odd = x.same = 0;
      for (size_t j = 0; j < x.n; ++j) x.odd += k[j] & 1, x.same += k[j] == 1 + (int)(op.b % 5);
      for (auto &r: x.res) r = 0;
      x.a.reset(); x.b.reset(); x.c.reset(); x.d.reset();
      if (!bitwise(op)) return;
      for (int j = 0; j < 37; ++j) { if (s >> (j % 60) & 1) x.a.set(j); if (s >> (j / 2) & 1) x.b.set(j); }
      for (int j = 0; j < 130; ++j) { if (mix2(s, j) & 1) x.c.set(j); if (mix2(s, j) & 2) x.d.set(j); }
   }
   void same(u32 cat, const char *when, const std::vector<Item> &x, const std::vector<Item> &y, const char *than)
   {
      if (x == y) return;
      std::string m;
      char b[64];
      for (size_t i = 0; i < x.size() && i < y.size() && m.size() < 300; ++i) if (x[i] != y[i]) { snprintf(b, sizeof b, " value %zu is %d.%d, %s %d.%d;", i, x[i].k, x[i].t, than, y[i].k, y[i].t); m += b; }
      report(cat, "%s: other results than %s:%s", when, than, m.c_str());
      aborted_quietly();
   }
   static std::vector<Item> part(const std::vector<Item> &v, size_t a, size_t b, bool sorted)
   {
      std::vector<Item> r(v.begin() + a, v.begin() + b);
      if (sorted) std::sort(r.begin(), r.end(), [](const Item &x, const Item &y) { return x.k != y.k ? x.k < y.k : x.t < y.t; });
      return r;
   }
   // what a job may have done to its ranges, whether it got to its end or not
   void kept(const Op &op, const std::vector<Item> &was, const std::vector<Item> &now)
   {
      const size_t n = d->n;
      const char *w = jnames[op.code];
      switch (op.code)
      {
      case J_FIND: case J_SEARCH: case J_COMPARE: case J_MINMAX: case J_BINARY: case J_BITSET: case J_BITSET_WIDE: case J_BITSET_MAKE:
         same(CONTENT, w, part(now, 0, d->elems(), false), part(was, 0, d->elems(), false), "before");
         break;
      case J_COPY: case J_MERGE:
         if (!(ET<E>::scalar && op.code == J_MERGE)) same(CONTENT, w, part(now, 0, 2 * n, false), part(was, 0, 2 * n, false), "before");
         break;
      case J_REVERSE: // reordered, at most
         same(CONTENT, w, part(now, 0, n, true), part(was, 0, n, true), "before, in some order");
         same(CONTENT, w, part(now, n, 2 * n, true), part(was, n, 2 * n, true), "before, in some order");
         same(CONTENT, w, part(now, d->elems() - 4, d->elems(), true), part(was, d->elems() - 4, d->elems(), true), "before, in some order");
         break;
      case J_ARRAY:
         if (!(op.d % jmodes & 2)) same(CONTENT, w, part(now, 2 * n + d->OUT, d->elems() - 4, true), part(was, 2 * n + d->OUT, d->elems() - 4, true), "before, in some order");
         break;
      }
      const size_t o = op.code == J_COPY && !(op.d % jmodes & 1) ? 2 * n + n : 2 * n, used = op.code == J_MERGE ? 2 * n : op.code == J_COPY || op.code == J_FILL || op.code == J_REMOVE || op.code == J_REVERSE ? n : 0;
      same(CONTENT, w, part(now, o, 2 * n + d->OUT - used, false), part(was, o, 2 * n + d->OUT - used, false), "before");
      if (!bitwise(op)) same(CONTENT, w, part(now, d->elems(), d->elems() + 2, false), part(was, d->elems(), d->elems() + 2, false), "before");
   }
   void exec(const Op &op, Obj *) override
   {
      Item xi = { 1 + (int)(op.b % 5), 99 };
      E x = ET<E>::make(xi);
#ifdef ARRAYS_ONLY
      const u32 kind = R_ARRAY;
#else
      const u32 kind = (op.d >> 5) % R_KINDS;
#endif
      const bool after = op.d & 16; // run alone after it, so as not to set up anything for it
      std::vector<Item> was, now;
      auto alone = [&] {
         Tame t;
         algo_on<E>(op.code, op.d % jmodes, *e, x);
      };
      {
         Quiet q;
         fillin(*d, op, kind);
         fillin(*e, op, kind);
         was = all(*d, bitwise(op));
         now.reserve(was.size() + 1);
      }
      if (!after) alone();
      // the whole of the call runs as library code, so its own requests are seen
      const bool ok = attempt([&] { algo_on<E>(op.code, op.d % jmodes, *d, x); });
      if (!ok) PROBE("algorithm ended by a refused copy");
      if (after) alone();
      Quiet q;
      now = all(*d, bitwise(op));
      if (ok)
      {
         std::vector<Item> alike = all(*e, bitwise(op));
         const size_t bits = d->elems();
         if (!bitwise(op)) alike[bits] = now[bits], alike[bits + 1] = now[bits + 1]; // the bits themselves are compared with those before
         same(RESULT, jnames[op.code], now, alike, "alone");
      }
      kept(op, was, now);
      left = all(*d, false);
   }
   static Obj *make(int i, const ClassDef *d) { return new JobObj(i, d); }
   static void define(const char *name)
   {
      static ClassDef d;
      d.name = name;
      d.family = F_JOB;
      d.elem = ET<E>::name();
      d.owning = false;
      d.bulk = 0;
      d.make = make;
      for (int i = 0; i < JN; ++i)
      {
         OpDef o = { jnames[i], OF_NOALLOC | OF_ELCOPY, 4 };
         d.ops.push_back(o);
      }
      add_class(&d);
   }
};
void define_jobs()
{
   JobObj<int>::define("job<int>");
   JobObj<Tracked>::define("job<tracked>");
   JobObj<Owning>::define("job<owning>");
   JobObj<Picky>::define("job<picky>");
}
}
