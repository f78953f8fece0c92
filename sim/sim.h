// Deterministic simulator for ttl: core interface.
#pragma once
#include <type_traits>
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <new>
#include <vector>
#include <string>
#include <map>
#include <utility>
#include <algorithm>

namespace sim
{
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

inline u64 mix(u64 x)
{
   x += 0x9e3779b97f4a7c15ull;
   x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
   x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
   return x ^ (x >> 31);
}
inline u64 mix2(u64 a, u64 b) { return mix(a ^ mix(b + 0x1234567)); }
inline u64 mix3(u64 a, u64 b, u64 c) { return mix(mix2(a, b) ^ (c * 0xd6e8feb86659fd93ull)); }

struct Rng
{
   u64 s;
   explicit Rng(u64 seed): s(mix(seed)) {}
   u64 next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
   u32 below(u32 n) { return n ? (u32)((next() >> 16) % n) : 0; }
   bool chance(u32 num, u32 den) { return below(den) < num; }
   u32 range(u32 a, u32 b) { return a + below(b - a + 1); }
};

// What an oracle can find wrong.
enum Cat
{
   CONTENT = 1 << 0,   // contents differ from the model
   RESULT = 1 << 1,    // an operation returned something else than the model
   MEMORY = 1 << 2,    // access to memory that is not alive, bad release
   ELEMENT = 1 << 3,   // element lifetime broken
   LEAK = 1 << 4,      // memory or elements left over
   IDENTITY = 1 << 5,  // an element that should have stayed in place did not
   RACE = 1 << 6,      // overlapping operations touch the same memory
   ISOLATION = 1 << 7, // an object changed while not operated on
   WORK = 1 << 8,      // too many comparisons / steps
   HANG = 1 << 9,      // no end
   NOALLOC = 1 << 10,  // storage requested where none is needed
   COPY = 1 << 11,     // copy/assignment deviates or shares
   CRASH = 1 << 12,    // signal
   FOOTPRINT = 1 << 13 // more storage held than the contents need
};
const char *cat_name(u32 cat);

enum Families { F_QUEUE = 1, F_LIST = 2, F_FWD = 4, F_BACK = 8, F_VEC = 16, F_FIXED = 32, F_MAP = 64, F_SET = 128,
                F_TREE = 256, F_SVM = 512, F_VM = 1024, F_JOB = 2048 };

struct Op
{
   u32 id;
   u16 task, obj, code;
   u32 a, b, c, d;
};

enum DecKind { D_SWITCH, D_OPSWITCH, D_REFUSE, D_RECLAIM_OK, D_RECLAIM_REFUSE };
struct Decision
{
   u32 kind, op, n, arg; // op id, local counter, argument (task)
   bool operator==(const Decision &o) const { return kind == o.kind && op == o.op && n == o.n && arg == o.arg; }
};

// Everything one run is a function of (besides the code).
struct Plan
{
   u32 prop;           // 1..13
   u64 seed;
   u32 heap_policy;    // 0 LIFO reuse, 1 FIFO reuse, 2 never soon (quarantine), 3 seeded
   u32 fill;           // 0..255 fresh/freed memory content; 256: seeded bytes
   u32 ntasks;
   u32 preempt;        // out of 65536 per yield point
   u32 opswitch;       // out of 65536 at operation boundaries
   u32 refuse;         // out of 65536 per request
   u32 burst;          // out of 65536 per op: every request of the op refused
   u32 cap;            // byte cap of live storage (0: none)
   u32 reclaim;        // low-memory handler installed
   u32 race;           // overlap detection on
   u32 keyrange;
   u32 opts;           // family options
   bool explicit_decisions;
   std::vector<u16> objects; // class index of each object
   std::vector<Op> ops;
   std::vector<Decision> decisions;
};

enum OpFlags
{
   OF_READ = 1,      // primary taken shared
   OF_SEC = 2,       // has a secondary object (taken shared)
   OF_SECW = 4,      // secondary taken exclusively
   OF_NOALLOC = 8,   // never needs storage
   OF_CONST = 16,    // constant number of steps whatever the sizes
   OF_LOG = 32,      // logarithmic number of comparisons
   OF_COPY = 64,     // copies a whole container
   OF_CTOR = 128,    // ends the object and builds a new one
   OF_ELCOPY = 256   // may copy elements, and these ask for what they need
};
struct OpDef
{
   const char *name;
   u32 flags;
   u32 weight;
};
struct Obj;
struct ClassDef
{
   const char *name;
   u32 family;
   const char *elem;
   std::vector<OpDef> ops;
   Obj *(*make)(int idx, const ClassDef *);
   u32 index;       // among the classes
   bool owning;     // element copies allocate
   u32 bulk;        // 1 + the operation that makes it big, if any
};
const std::vector<ClassDef *> &classes();
void add_class(ClassDef *);

// A value; elements carry these.
struct Item
{
   int k, t;
   bool operator==(const Item &o) const { return k == o.k && t == o.t; }
   bool operator!=(const Item &o) const { return !(*this == o); }
};
struct Ent
{
   Item k, v;
   const void *addr; // identity, 0: not known (new)
   u64 id;
};
typedef std::vector<Ent> Seq;

struct Need
{
   u32 lo, hi;    // blocks, with the one the object itself lies in
   size_t bytes;  // at most
   Need(): lo(0), hi(0), bytes(0) {}
};
// more elements than memory holds, up to most
inline size_t giant_count(u32 c, size_t most)
{
   const size_t s = (c >> 4) % 5;
   switch (c % 5)
   {
   case 0: return (1ull << 28) + s;
   case 1: return (1ull << 31) + s;
   case 2: return (1ull << 32) + s;
   case 3: return most / 2 + s;
   default: return most - s;
   }
}
struct Obj
{
   const ClassDef *cls;
   int idx;
   int writer = -1, readers = 0;
   bool tainted = false;    // an operation on it was refused once
   bool copied = false;     // took part in a copy/assignment
   bool valid = true;
   Seq model;
   u32 pool = 0;            // lazy queue: pooled nodes guaranteed
   u32 peak = 0;            // most elements held or asked for since the storage was last given back
   Obj(int i, const ClassDef *c): cls(c), idx(i) {}
   virtual ~Obj() {}
   virtual void construct() = 0;
   virtual void destroy() = 0;
   virtual void exec(const Op &op, Obj *sec) = 0;
   virtual void verify(const char *when, u32 cat) = 0;
   virtual bool reclaim() { return false; }  // pooled storage given back
   virtual u32 elems() const = 0;            // live elements it must own right now
   virtual u32 elem_blocks() const { return 0; } // payload blocks per element
   virtual Need need() const { return Need(); }  // storage its contents need
   virtual bool reserves() const { return false; }   // holds room for elements to come
   void want(size_t n) { if (n > peak) peak = n; }
};

struct Task
{
   int idx;
   void *sp;
   char *stack;
   size_t stack_size;
   std::vector<Op> ops;
   size_t pc;
   bool finished, started;
   // current operation
   Op op;
   bool in_op;
   Obj *prim, *sec;     // locks held or waited for
   bool locked;
   u32 oflags;
   u32 yc;              // yield counter within the op
   u32 allocs;          // allocation requests within the op
   u32 refused;         // refused ones
   u32 waitn;
   u64 steps;           // basic blocks in this op
   u64 cmps, copies, touches;
   int ext;             // elements alive outside the simulated heap, made by library code
   bool all_refused;    // refuse every request of this op
   bool noalloc_now;    // requests are violations
   int sut;             // inside library code
   int quiet;           // no yields, no faults (harness inspection)
   int in_copy;         // inside an element's own copy
   int in_cmp;          // inside an element's own comparison
   u64 hsteps;          // basic blocks of library code run for inspection
   bool giant;          // asks for more than any memory on purpose
   u64 budget;          // steps one operation may take
   char *stack_base;    // where library code was entered
   long deepest;        // bytes of stack it used
   void *eh_caught; u32 eh_uncaught;
};

struct Violation
{
   bool set;
   u32 cat;
   u32 op;
   char cls[48];
   char opname[48];
   char msg[1024];
};

struct Stats
{
   u64 runs, steps, ops, switches_mid, switches_op, allocs, refusals, reclaims, copy_refusals, cmp_refusals, refused_ops, burst_ops,
      noalloc_ops, overlaps, verifications, foreign, known, elements, fills, reuse, contended, cancelled, max_elems;
};
enum { MAXPROBE = 256 };
struct Probes { u64 n[MAXPROBE]; };

extern Task *cur;
extern Stats stats;
extern Probes probes;
extern Violation viol;
extern const Plan *plan;
// number of elements of one operation in a run with big contents
inline u32 big(u32 c)
{
   if (plan->opts & 2) { if ((c >> 8) % 3 == 0) return 65500 + (c >> 12) % 80; }
   else if ((c >> 8) % 5 == 0) return 100 + (c >> 12) % 170;
   return 0;
}
extern u64 run_hash, sched_hash;
int probe_id(const char *name);      // registers
const char *probe_name(int id);
int probe_count();
#define PROBE(name) do { static int _p = ::sim::probe_id(name); ++::sim::probes.n[_p]; } while (0)

inline void hash_in(u64 x) { run_hash = (run_hash ^ x) * 0x100000001b3ull; run_hash ^= run_hash >> 29; }

// Reports a deviation. Returns only if it is not this property's to report.
void report(u32 cat, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void bad(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn)); // machinery error

void yield_point();
void touch(const void *p, size_t n, bool store); // element-level access made by harness element code

struct Sut  // entering library code
{
   Sut() { ++cur->sut; }
   ~Sut() { --cur->sut; }
};
struct Quiet // harness inspection: library code runs without yields or faults
{
   int s; u64 c;
   Quiet() { s = cur->sut; c = cur->cmps; cur->sut = 0; ++cur->quiet; }
   ~Quiet() { --cur->quiet; cur->sut = s; cur->cmps = c; }
};

// heap
const uintptr_t ARENA = 0x200000000000ull;
const size_t ARENA_SIZE = 128u << 20;
extern u8 *shadow;
inline bool in_arena(const void *p) { return (uintptr_t)p - ARENA < ARENA_SIZE; }
void *heap_alloc(size_t n, int form, bool may_refuse);
void heap_free(void *p, int form);
bool heap_live(const void *p, size_t n);
size_t heap_live_bytes();
u32 heap_live_blocks();
u32 heap_blocks_of_op(u32 op);

// element ledger (heap_reset clears it)
u32 led_live();
void led_construct(const void *p, u32 size);
void led_destroy(const void *p, u32 size);
bool led_alive(const void *p);
void led_check(const void *p, const char *what);

struct Tracked
{
   u32 magic;
   int key, tag;
   u32 pad;
   static const u32 ALIVE = 0x5eaf00d1u, DEAD = 0xdeadbe1fu;
   Tracked(): key(0), tag(0) { born(); }
   Tracked(int k, int t): key(k), tag(t) { born(); }
   Tracked(const Tracked &o) { from(o); }
   Tracked &operator=(const Tracked &o);
   ~Tracked() { die(); }
   void born();
   void from(const Tracked &o);
   void die();
};
bool operator==(const Tracked &a, const Tracked &b);
bool operator<(const Tracked &a, const Tracked &b);
inline bool operator!=(const Tracked &a, const Tracked &b) { return !(a == b); }
inline bool operator>(const Tracked &a, const Tracked &b) { return b < a; }

struct alignas(16) Wide: Tracked // must lie at such addresses
{
   Wide() {}
   Wide(int k, int t): Tracked(k, t) {}
};

struct Big: Tracked // more than a few words
{
   enum { WORDS = 37 };
   int more[WORDS];
   Big() { fill(); }
   Big(int k, int t): Tracked(k, t) { fill(); }
   void fill() { for (int i = 0; i < WORDS; ++i) more[i] = key + i; }
   void whole() const;
};

struct Owning // copies need memory of their own
{
   Tracked base;
   int *own;
   Owning(): base(), own(0) { get(0); }
   Owning(int k, int t): base(k, t), own(0) { get(k); }
   Owning(const Owning &o): base(o.base), own(0) { get(o.base.key); }
   Owning &operator=(const Owning &o)
   {
      if (this != &o) { base = o.base; *own = o.base.key; }
      return *this;
   }
   ~Owning() { put(); }
   void get(int k);
   void put();
};
inline bool operator==(const Owning &a, const Owning &b) { return a.base == b.base; }
inline bool operator!=(const Owning &a, const Owning &b) { return !(a.base == b.base); }
inline bool operator<(const Owning &a, const Owning &b) { return a.base < b.base; }
inline bool operator>(const Owning &a, const Owning &b) { return b.base < a.base; }

// Comparing these needs memory, too, for as long as it takes. Predicates of the harness do the same.
struct Picky: Owning
{
   Picky() {}
   Picky(int k, int t): Owning(k, t) {}
};
void scratch();
inline bool operator==(const Picky &a, const Picky &b) { scratch(); return a.base == b.base; }
inline bool operator!=(const Picky &a, const Picky &b) { return !(a == b); }
inline bool operator<(const Picky &a, const Picky &b) { scratch(); return a.base < b.base; }
inline bool operator>(const Picky &a, const Picky &b) { return b < a; }
template<class E> inline void pick() { if constexpr (std::is_same<E, Picky>::value) scratch(); }

void count_cmp();
void check_log(size_t n); // comparisons of the current operation are logarithmic in n
extern u64 max_log_ratio;
extern bool known_list_erase_range; // listed in known_findings.txt, passed on by bin/check.py

// Element traits
template<class E> struct ET;
template<> struct ET<Tracked>
{
   static const bool owning = false, ledger = true, scalar = false;
   static Tracked make(Item i) { return Tracked(i.k, i.t); }
   static Item norm(Item i) { return i; }
   static Item get(const Tracked &e) { led_check(&e, "inspected"); Item i = { e.key, e.tag }; return i; }
   static const char *name() { return "tracked"; }
};
template<> struct ET<Owning>
{
   static const bool owning = true, ledger = true, scalar = false;
   static Owning make(Item i) { return Owning(i.k, i.t); }
   static Item norm(Item i) { return i; }
   static Item get(const Owning &e);
   static const char *name() { return "owning"; }
};
template<> struct ET<Picky>: ET<Owning>
{
   static Picky make(Item i) { return Picky(i.k, i.t); }
   static const char *name() { return "picky"; }
};
template<> struct ET<int>
{
   static const bool owning = false, ledger = false, scalar = true;
   static int make(Item i) { return i.k; }
   static Item norm(Item i) { i.t = 0; return i; }
   static Item get(const int &e) { Item i = { e, 0 }; return i; }
   static const char *name() { return "int"; }
};
template<> struct ET<Wide>: ET<Tracked>
{
   static Wide make(Item i) { return Wide(i.k, i.t); }
   static const char *name() { return "wide"; }
};
template<> struct ET<Big>: ET<Tracked>
{
   static Big make(Item i) { return Big(i.k, i.t); }
   static Item get(const Big &e) { e.whole(); return ET<Tracked>::get(e); }
   static const char *name() { return "big"; }
};
template<> struct ET<char>
{
   static const bool owning = false, ledger = false, scalar = true;
   static char make(Item i) { return (char)i.k; }
   static Item norm(Item i) { i.k &= 127; i.t = 0; return i; }
   static Item get(const char &e) { Item i = { e, 0 }; return i; }
   static const char *name() { return "char"; }
};
// model-side equality/order of elements (key only for class elements: the tag tells equal ones apart)
inline bool item_eq(const Item &a, const Item &b) { return a.k == b.k; }
inline bool item_lt(const Item &a, const Item &b) { return a.k < b.k; }

std::string show(const Seq &, bool pairs);
u64 fresh_id();
u32 log2up(u32 n);

// runs a library call: false if it ended with a refusal
template<class F> inline bool attempt(F f)
{
   int s = cur->sut;
   cur->stack_base = static_cast<char *>(__builtin_frame_address(0));
   try
   {
      cur->sut = 1;
      f();
      cur->sut = s;
      return true;
   }
   catch (const std::bad_alloc &)
   {
      cur->sut = s;
      return false;
   }
}
}
