// Simulated heap, element ledger, fibers, scheduler, fault decisions, oracles' plumbing.
#include "sim.h"
#include "core.h"
#include <elf.h>
#include <link.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <cstdarg>
#include <cstdlib>
#include <deque>
#include <sys/mman.h>
#include <unistd.h>
#include <dlfcn.h>
#include <signal.h>
#include <sys/time.h>
#include <cxxabi.h>

extern "C"
{
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_realloc(void *, size_t);
void *__real_aligned_alloc(size_t, size_t);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
}
namespace sim
{
Task *cur;
Stats stats;
Probes probes;
Violation viol;
const Plan *plan;
u64 run_hash, sched_hash;
u8 *shadow;
Shared *shared;
OpStat opstats[MAXCLASS][MAXOPS];
DecLog *declog;
static const u64 step_budget = 2000000; // and some for every element
static std::vector<void (*)()> &resets() { static std::vector<void (*)()> v; return v; }
void on_reset(void (*f)())
{
   for (size_t i = 0; i < resets().size(); ++i) if (resets()[i] == f) return;
   resets().push_back(f);
}
void reset_registries() { for (size_t i = 0; i < resets().size(); ++i) resets()[i](); }

static std::vector<std::string> &pnames() { static std::vector<std::string> v; return v; }
struct NoSut
{
   int s; Task *t;
   NoSut(): s(0), t(cur) { if (t) { s = t->sut; t->sut = 0; } }
   ~NoSut() { if (t) t->sut = s; }
};
int probe_id(const char *name)
{
   NoSut g;
   for (size_t i = 0; i < pnames().size(); ++i)
      if (pnames()[i] == name) return i;
   pnames().push_back(name);
   if (pnames().size() > MAXPROBE) bad("too many probes");
   return pnames().size() - 1;
}
const char *probe_name(int i) { return pnames()[i].c_str(); }
int probe_count() { return pnames().size(); }
static std::vector<ClassDef *> &cls() { static std::vector<ClassDef *> v; return v; }
const std::vector<ClassDef *> &classes() { return reinterpret_cast<const std::vector<ClassDef *> &>(cls()); }
void add_class(ClassDef *c)
{
   for (size_t i = 0; i < c->ops.size(); ++i)
      if (!(c->family & (F_FIXED | F_VM)) && (!strcmp(c->ops[i].name, "insert_n") || !strcmp(c->ops[i].name, "insert_many"))) c->bulk = i + 1;
   c->index = cls().size();
   if (c->index >= MAXCLASS || c->ops.size() > MAXOPS) bad("too many classes or operations");
   cls().push_back(c);
}

const char *cat_name(u32 c)
{
   if (c & CRASH) return "crash";
   if (c & HANG) return "hang";
   if (c & MEMORY) return "memory";
   if (c & ELEMENT) return "element-lifetime";
   if (c & LEAK) return "leak";
   if (c & RACE) return "race";
   if (c & ISOLATION) return "isolation";
   if (c & IDENTITY) return "identity";
   if (c & NOALLOC) return "storage-request";
   if (c & FOOTPRINT) return "footprint";
   if (c & WORK) return "work";
   if (c & COPY) return "copy";
   if (c & CONTENT) return "content";
   return "result";
}

void bad(const char *fmt, ...)
{
   va_list ap;
   va_start(ap, fmt);
   fprintf(stderr, "MACHINERY: ");
   vfprintf(stderr, fmt, ap);
   fprintf(stderr, "\n");
   va_end(ap);
   fflush(stderr);
   _exit(71);
}

//---------------------------------------------------------------- fibers
extern "C" void sim_switch(void **save, void *load);
asm(".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
    "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
    "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n"
    ".size sim_switch,.-sim_switch\n");

struct EhGlobals { void *caught; unsigned int uncaught; };
static EhGlobals *eh() { return reinterpret_cast<EhGlobals *>(abi::__cxa_get_globals()); }

enum { MAXTASKS = 8 };
static Task tasks[MAXTASKS + 1];
static int ntasks;             // without root
static Task *const root = &tasks[MAXTASKS];
static void *main_sp;
static bool aborted;
static std::vector<Obj *> objs;
static Task *next_task;
static u64 seedkey;
static u64 run_refusals, run_reclaims, run_foreign;

struct AccTab
{
   enum { N = 8192 };
   u32 gen;
   u32 count;
   struct E { u32 gen, g; u32 rw; } e[N];
};
static AccTab acc[MAXTASKS + 1];

// decisions by op, explicit mode
static std::map<u64, u32> exp_dec; // (kind<<56 | op<<24... ) -> arg+1
static inline u64 dkey(u32 kind, u32 op, u32 n) { return ((u64)kind << 60) ^ ((u64)op << 30) ^ n; }
static std::vector<std::pair<u32, u32> > op_switches; // unused in seeded mode

static void to_main()
{
   Task *t = cur;
   t->eh_caught = eh()->caught; t->eh_uncaught = eh()->uncaught;
   sim_switch(&t->sp, main_sp);
   eh()->caught = t->eh_caught; eh()->uncaught = t->eh_uncaught;
}
static void switch_to(Task *t)
{
   next_task = t;
   if (t != cur) to_main();
}
static void abort_run() __attribute__((noreturn));
static void abort_run()
{
   aborted = true;
   cur->sut = 0;
   to_main();
   bad("aborted fiber resumed");
}

static bool lock_free(const Task *t)
{
   if (!t->prim) return true;
   const bool pr = t->oflags & OF_READ;
   if (t->prim->writer >= 0 || (!pr && t->prim->readers)) return false;
   if (t->sec && t->sec != t->prim)
   {
      const bool sw = t->oflags & OF_SECW;
      if (t->sec->writer >= 0 || (sw && t->sec->readers)) return false;
   }
   return true;
}
static bool runnable(const Task *t)
{
   if (t->finished) return false;
   if (t->in_op && !t->locked) return lock_free(t);
   return true;
}
static int other_runnable(Task **out)
{
   int n = 0;
   for (int i = 0; i < ntasks; ++i)
      if (&tasks[i] != cur && runnable(&tasks[i]))
         out[n++] = &tasks[i];
   return n;
}
static inline void record(u32 kind, u32 op, u32 n, u32 arg)
{
   if (declog && declog->n < DecLog::MAX)
   {
      Decision d = { kind, op, n, arg };
      declog->d[declog->n++] = d;
   }
}

static void preempt_to(Task *t)
{
   ++stats.switches_mid;
   sched_hash = mix3(sched_hash, cur->op.id, ((u64)cur->yc << 8) + t->idx);
   switch_to(t);
}
void yield_point()
{
   Task *t = cur;
   if (!t || !t->sut || t->quiet) return;
   ++t->yc;
   ++stats.steps;
   const long deep = t->stack_base - (char *)__builtin_frame_address(0);
   if (deep > t->deepest) t->deepest = deep;
   if (!t->in_op || t == root) return;
   if (!plan->explicit_decisions)
   {
      if (!plan->preempt) return;
      u64 x = (seedkey ^ ((u64)t->op.id << 32)) + t->yc * 0x9e3779b97f4a7c15ull;
      x = (x ^ (x >> 32)) * 0xbf58476d1ce4e5b9ull;
      x ^= x >> 29;
      if ((x & 0xffff) >= plan->preempt) return;
      Task *o[MAXTASKS];
      int n = other_runnable(o);
      if (!n) return;
      Task *to = o[(x >> 20) % n];
      record(D_SWITCH, t->op.id, t->yc, to->idx);
      preempt_to(to);
   }
   else
   {
      if (exp_dec.empty()) return;
      std::map<u64, u32>::const_iterator i = exp_dec.find(dkey(D_SWITCH, t->op.id, t->yc));
      if (i == exp_dec.end()) return;
      int a = i->second;
      if (a >= ntasks || &tasks[a] == t || !runnable(&tasks[a])) return;
      record(D_SWITCH, t->op.id, t->yc, a);
      preempt_to(&tasks[a]);
   }
}
// at operation boundaries: n==0 after an operation, 1 at task end, 2.. waiting for a lock
static void boundary(u32 n, bool must)
{
   Task *o[MAXTASKS];
   int cnt = other_runnable(o);
   if (!cnt)
   {
      if (must && n >= 2) bad("deadlock in the harness");
      if (n == 1) { next_task = 0; to_main(); }
      return;
   }
   Task *to = must ? o[0] : cur;
   u32 id = cur->op.id;
   if (!plan->explicit_decisions)
   {
      u64 x = mix3(seedkey, id, 0x77000000ull + n);
      if (must || (x & 0xffff) < plan->opswitch)
         to = o[(x >> 20) % cnt];
   }
   else
   {
      std::map<u64, u32>::const_iterator i = exp_dec.find(dkey(D_OPSWITCH, id, n));
      if (i != exp_dec.end())
      {
         int a = i->second;
         if (a < ntasks && &tasks[a] != cur && runnable(&tasks[a])) to = &tasks[a];
      }
   }
   if (to != (must ? o[0] : cur))
      record(D_OPSWITCH, id, n, to->idx);
   if (to != cur)
   {
      ++stats.switches_op;
      sched_hash = mix3(sched_hash, id, 0xabc000ull + n * 16 + to->idx);
      switch_to(to);
   }
}

//---------------------------------------------------------------- reporting
static void clip(char *d, size_t n, const char *s) { snprintf(d, n, "%s", s); }
static bool applies(u32 cat, const Task *t)
{
   const bool copied = (t->prim && t->prim->copied) || (t->sec && t->sec->copied) || (t->oflags & OF_COPY);
   const u32 plain = CONTENT | RESULT | MEMORY | ELEMENT | LEAK | ISOLATION | HANG | COPY | CRASH;
   switch (plan->prop)
   {
   case 1: case 4: return (cat & (plain | NOALLOC)) && !(cat & (WORK | RACE | IDENTITY));
   case 2: return (cat & (plain | IDENTITY)) && !(cat & (WORK | RACE | NOALLOC));
   case 3: case 5: case 6: return (cat & plain) && !(cat & (WORK | RACE | NOALLOC | IDENTITY));
   case 7: return stats_refused_run() && (cat & plain) && !(cat & (WORK | RACE | NOALLOC));
   case 8: return cat & (MEMORY | ELEMENT | LEAK | CRASH);
   case 9: return cat & (IDENTITY | MEMORY | CRASH);
   case 10: return cat & (RACE | ISOLATION | RESULT | CONTENT | MEMORY | ELEMENT | CRASH);
   case 11: return cat & (WORK | HANG | CRASH);
   case 12: return (cat & (NOALLOC | CRASH)) || (stats_reclaims_run() && (cat & (MEMORY | ELEMENT | LEAK)));
   case 17: return cat & (FOOTPRINT | LEAK);
   case 18: return (cat & (plain | NOALLOC)) && !(cat & (WORK | RACE | IDENTITY));
   case 13: return (cat & (COPY | ISOLATION | MEMORY | CRASH)) || (copied && (cat & plain) && !(cat & (WORK | RACE | NOALLOC | IDENTITY)));
   }
   return !(cat & (WORK | RACE | NOALLOC | IDENTITY | FOOTPRINT)); // no property: anything that shows broken contents
}
bool stats_refused_run() { return run_refusals != 0; }
bool stats_reclaims_run() { return run_reclaims != 0; }
bool applies_crash(u32 cat) { return cur ? applies(cat, cur) : true; }

static const char *opname_of(const Task *t)
{
   if (t->op.id >= 0xF1000000u) return "destroy";
   if (t->op.id >= 0xF0000000u) return "construct";
   if (!t->prim) return "-";
   return t->prim->cls->ops[t->op.code].name;
}
void fill_violation(u32 cat, const char *msg)
{
   Task *t = cur;
   viol.set = true;
   viol.cat = cat;
   viol.op = t ? t->op.id : 0;
   clip(viol.cls, sizeof(viol.cls), t && t->prim ? t->prim->cls->name : "-");
   clip(viol.opname, sizeof(viol.opname), t ? opname_of(t) : "-");
   clip(viol.msg, sizeof(viol.msg), msg);
}
void report(u32 cat, const char *fmt, ...)
{
   NoSut g;
   char buf[1024];
   va_list ap;
   va_start(ap, fmt);
   vsnprintf(buf, sizeof buf, fmt, ap);
   va_end(ap);
   if (cur->oflags & OF_COPY) cat |= COPY;
   if (applies(cat, cur))
   {
      fill_violation(cat, buf);
      abort_run();
   }
   ++stats.foreign;
   if (getenv("SIM_VERBOSE")) fprintf(stderr, "foreign: [%s] %s %s: %s\n", cat_name(cat), cur->prim ? cur->prim->cls->name : "-", opname_of(cur), buf);
   if (++run_foreign > 3 || (cat & (MEMORY | HANG)))  // state no longer trustworthy: end the run quietly
      abort_run();
}

// no allocation in here: library code may be running
static const char *where(void *pc)
{
   static char buf[160];
   Dl_info i;
   if (pc && dladdr((char *)pc - 1, &i) && i.dli_sname)
   {
      int st;
      char *d = abi::__cxa_demangle(i.dli_sname, 0, 0, &st);
      clip(buf, sizeof buf, d ? d : i.dli_sname);
      __real_free(d);
      return buf;
   }
   return "?";
}

//---------------------------------------------------------------- heap
enum { SINGLE, ARRAY, RAW }; // by new, new [], malloc
struct Block { u32 off, size, op; u8 form; bool live, harnessed; };
static std::vector<Block> blocks;
static u32 *blk_at;                 // per 16 bytes, block index + 1 at the start of a block
static u8 *led;                     // per 8 bytes, 1: an element starts here
static u32 led_count, live_blocks;
static size_t live_bytes, bump, high;
static std::map<u32, std::deque<u32> > freel;
static u64 alloc_seq;
static const u32 RZ = 16;

static void heap_init()
{
   void *p = mmap((void *)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
   if (p != (void *)ARENA) bad("cannot map the arena");
   shadow = (u8 *)mmap(0, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   led = (u8 *)mmap(0, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   blk_at = (u32 *)mmap(0, ARENA_SIZE / 16 * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if (shadow == MAP_FAILED || led == MAP_FAILED || blk_at == MAP_FAILED) bad("cannot map shadow");
   blocks.reserve(1 << 16);
}
static void heap_reset()
{
   memset(shadow, 0, high / 8 + 8);
   memset(led, 0, high / 8 + 8);
   memset(blk_at, 0, (high / 16 + 8) * 4);
   blocks.clear();
   freel.clear();
   led_count = live_blocks = 0;
   live_bytes = 0;
   bump = 64;
   high = 64;
   alloc_seq = 0;
}
static void acc_forget(u32 off, u32 size);

static void *heap_get(size_t n, int form)
{
   NoSut g;
   u32 sz = n ? (u32)n : 1;
   u32 cls = (sz + 15) / 16 * 16;
   u32 off = 0;
   ++alloc_seq;
   std::map<u32, std::deque<u32> >::iterator f = freel.find(cls);
   if (f != freel.end() && !f->second.empty())
   {
      std::deque<u32> &q = f->second;
      switch (plan->heap_policy)
      {
      case 0: off = q.back(); q.pop_back(); break;
      case 1: off = q.front(); q.pop_front(); break;
      case 2: if (q.size() > 64) { off = q.front(); q.pop_front(); } break;
      default:
         if ((mix2(seedkey, alloc_seq) & 3) || q.size() > 4096)
         {
            size_t i = mix2(seedkey, alloc_seq ^ 0x55) % q.size();
            off = q[i];
            q[i] = q.back();
            q.pop_back();
         }
      }
      if (off) ++stats.reuse;
   }
   if (!off)
   {
      if (bump + cls + 2 * RZ >= ARENA_SIZE - 4096)
         report(HANG, "storage requests without end: the simulated heap is exhausted");
      off = bump + RZ;
      off = (off + 15) / 16 * 16;
      bump = off + cls;
      high = bump + RZ;
      if (bump >= ARENA_SIZE - 64) abort_run();
   }
   Block b = { off, sz, cur->op.id, (u8)form, true, false };
   blocks.push_back(b);
   blk_at[off / 16] = blocks.size();
   u8 *s = shadow + off / 8;
   u32 i = 0;
   for (; i + 8 <= sz; i += 8) *s++ = 8;
   if (i < sz) *s = sz - i;
   ++live_blocks;
   live_bytes += sz;
   u8 *m = (u8 *)ARENA + off;
   if (plan->fill < 256) memset(m, plan->fill, cls);
   else
      for (u32 j = 0; j < cls; ++j) m[j] = (u8)mix2(seedkey + off, j);
   ++stats.fills;
   if (plan->race) acc_forget(off, cls);
   hash_in(off);
   return m;
}
static const Block *heap_find(const void *p)
{
   if (!in_arena(p) || ((uintptr_t)p & 15)) return 0;
   u32 i = blk_at[((uintptr_t)p - ARENA) / 16];
   return i ? &blocks[i - 1] : 0;
}
static const char *describe(const void *p)
{
   static char b[160];
   if (!in_arena(p)) return "outside the heap";
   u32 off = (uintptr_t)p - ARENA;
   const Block *best = 0;
   for (size_t i = blocks.size(); i-- > 0;)
      if (off + RZ >= blocks[i].off && off < blocks[i].off + blocks[i].size + RZ) { best = &blocks[i]; break; }
   if (!best) return "in memory never handed out";
   snprintf(b, sizeof b, "%s %u-byte block obtained by op %u, offset %d", best->live ? "around live" : "in released",
            best->size, best->op, (int)(off - best->off));
   return b;
}
void heap_free(void *p, int form)
{
   if (!p) return;
   const Block *b0 = heap_find(p);
   if (!b0) { report(MEMORY, "release of an address that is no block: %s", describe(p)); return; }
   Block &b = const_cast<Block &>(*b0);
   if (!b.live) { report(MEMORY, "block released twice (%u bytes, obtained by op %u)", b.size, b.op); return; }
   static const char *const forms[] = { "delete", "delete []", "free" };
   if (b.form != form) report(MEMORY, "block released by the wrong form (%s)", forms[form]);
   u32 cls = (b.size + 15) / 16 * 16;
   for (u32 i = 0; i < cls / 8; ++i)
      if (led[b.off / 8 + i])
      {
         led[b.off / 8 + i] = 0;
         --led_count;
         report(ELEMENT, "block of %u bytes released with a live element in it (obtained by op %u)", b.size, b.op);
      }
   NoSut g;
   b.live = false;
   blk_at[b.off / 16] = 0;
   memset(shadow + b.off / 8, 0, cls / 8);
   --live_blocks;
   live_bytes -= b.size;
   if (plan->fill & 1) memset((u8 *)ARENA + b.off, 0xfb, cls);
   if (plan->race) acc_forget(b.off, cls);
   freel[cls].push_back(b.off);
   hash_in(b.off + 1);
}
bool heap_live(const void *p, size_t n)
{
   uintptr_t a = (uintptr_t)p - ARENA;
   if (n && (a & 7) + n <= 8) return (a & 7) + n <= shadow[a >> 3];
   while (n)
   {
      u8 s = shadow[a >> 3];
      size_t in = a & 7;
      size_t take = std::min<size_t>(8 - in, n);
      if (s == 0 || in + take > s) return false;
      a += take;
      n -= take;
   }
   return true;
}
size_t heap_live_bytes() { return live_bytes; }
u32 heap_live_blocks() { return live_blocks; }
u32 heap_blocks_of_op(u32 op)
{
   u32 n = 0;
   for (size_t i = 0; i < blocks.size(); ++i)
      if (blocks[i].live && blocks[i].op == op) ++n;
   return n;
}

// low-memory handler: gives back what idle queues have pooled
static bool reclaim_now()
{
   bool any = false;
   for (size_t i = 0; i < objs.size(); ++i)
   {
      Obj *o = objs[i];
      if (o->valid && o->writer < 0 && !o->readers)
      {
         Quiet q;
         if (o->reclaim()) any = true;
      }
   }
   if (any) { ++stats.reclaims; ++run_reclaims; }
   return any;
}

// a request from library code (or from an element's copy made by it)
static void *request(size_t n, int form, bool nothrow)
{
   Task *t = cur;
   yield_point();
   ++t->allocs;
   ++stats.allocs;
   if (n > (64u << 20) && !t->giant)
      { report(HANG, "request for %zu bytes", n); }
   const bool needs_none = t->noalloc_now && !t->quiet && !t->in_cmp && !(t->in_copy && (t->oflags & OF_ELCOPY));
   if (needs_none)
      report(NOALLOC, "%zu bytes of storage requested by an operation that needs none", n);
   bool refuse = false;
   if (!t->quiet && t->in_op && !needs_none)
   {
      u32 k = t->allocs, id = t->op.id;
      if (!plan->explicit_decisions)
      {
         u64 x = mix3(seedkey, id, 0x99000000ull + k);
         if ((x & 0xffff) < plan->refuse || t->all_refused) refuse = true;
         if (!refuse && plan->cap && live_bytes + n > plan->cap)
         {
            refuse = true;
            if (plan->reclaim && reclaim_now())
            {
               refuse = live_bytes + n > plan->cap;
               record(refuse ? D_RECLAIM_REFUSE : D_RECLAIM_OK, id, k, 0);
               if (refuse) goto refused;
            }
         }
         else if (refuse && plan->reclaim && ((x >> 20) & 1) && reclaim_now())
         {
            refuse = (x >> 21) & 1;
            record(refuse ? D_RECLAIM_REFUSE : D_RECLAIM_OK, id, k, 0);
            if (refuse) goto refused;
         }
         if (refuse) record(D_REFUSE, id, k, 0);
      }
      else
      {
         if (exp_dec.count(dkey(D_RECLAIM_OK, id, k))) { if (reclaim_now()) record(D_RECLAIM_OK, id, k, 0); }
         else if (exp_dec.count(dkey(D_RECLAIM_REFUSE, id, k))) { reclaim_now(); refuse = true; record(D_RECLAIM_REFUSE, id, k, 0); goto refused; }
         if (exp_dec.count(dkey(D_REFUSE, id, k))) { refuse = true; record(D_REFUSE, id, k, 0); }
      }
   }
refused:
   if (n > (64u << 20)) refuse = true;
   if (refuse)
   {
      ++t->refused;
      ++stats.refusals;
      ++run_refusals;
      if (t->in_copy) ++stats.copy_refusals;
      if (t->in_cmp) ++stats.cmp_refusals;
      hash_in(0xdead);
      if (nothrow) return 0;
      throw std::bad_alloc();
   }
   void *p = heap_get(n, form);
   yield_point();
   return p;
}
void *heap_alloc(size_t n, int form, bool may_refuse)
{
   if (may_refuse) return request(n, form, false);
   return heap_get(n, form);
}
static size_t heap_size(const void *p)
{
   const Block *b = heap_find(p);
   return b && b->live ? b->size : 0;
}
static void *new_entry(size_t n, int form, bool nothrow)
{
   if (cur && cur->sut) return request(n, form, nothrow);
   void *p = __real_malloc(n ? n : 1);
   if (!p) abort();
   return p;
}
static void del_entry(void *p, int form)
{
   if (in_arena(p))
   {
      yield_point();
      heap_free(p, form);
      yield_point();
   }
   else if (p && cur && cur->sut)
      report(MEMORY, "library code releases memory it did not obtain");
   else
      __real_free(p);
}

//---------------------------------------------------------------- memory accesses of library code
static u8 *data_lo, *data_hi;
extern "C" char __data_start, _end;
extern "C" { int sim_anchor = 1; }

// Variables with static storage the library itself may have are put back to
// their initial contents at the start of every run, so that a run does not
// depend on the ones before it in the same process.
struct StaticVar { u8 *p; size_t n; std::vector<u8> initial; };
static std::vector<StaticVar> statics;
static void find_statics()
{
   const int fd = open("/proc/self/exe", O_RDONLY);
   struct stat st;
   if (fd < 0 || fstat(fd, &st)) return;
   const u8 *f = (const u8 *)mmap(0, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
   close(fd);
   if (f == MAP_FAILED) return;
   const ElfW(Ehdr) *eh = (const ElfW(Ehdr) *)f;
   const ElfW(Shdr) *sh = (const ElfW(Shdr) *)(f + eh->e_shoff);
   const char *shnames = (const char *)f + sh[eh->e_shstrndx].sh_offset;
   const ElfW(Sym) *anchor = 0;
   static const char *const prefix[] = { "_ZN3ttl", "_ZZN3ttl", "_ZZNK3ttl", "_ZGVN3ttl", "_ZGVZN3ttl", "_ZGVZNK3ttl",
      "_ZN3tt8", "_ZZN3tt8", "_ZZNK3tt8", "_ZGVN3tt8", "_ZGVZN3tt8", "_ZGVZNK3tt8" };
   for (int pass = 0; pass < 2; ++pass)
      for (unsigned i = 0; i < eh->e_shnum; ++i)
      {
         if (sh[i].sh_type != SHT_SYMTAB) continue;
         const ElfW(Sym) *sym = (const ElfW(Sym) *)(f + sh[i].sh_offset);
         const char *names = (const char *)f + sh[sh[i].sh_link].sh_offset;
         for (size_t k = 0; k < sh[i].sh_size / sizeof *sym; ++k)
         {
            if (ELF64_ST_TYPE(sym[k].st_info) != STT_OBJECT || !sym[k].st_size || sym[k].st_shndx >= eh->e_shnum) continue;
            const char *n = names + sym[k].st_name;
            if (!pass) { if (!strcmp(n, "sim_anchor")) anchor = &sym[k]; continue; }
            const char *sec = shnames + sh[sym[k].st_shndx].sh_name;
            if (!anchor || (strncmp(sec, ".data", 5) && strncmp(sec, ".bss", 4)) || !strncmp(sec, ".data.rel.ro", 12)) continue;
            for (const char *p: prefix)
               if (!strncmp(n, p, strlen(p)))
               {
                  StaticVar v;
                  v.p = (u8 *)&sim_anchor + (sym[k].st_value - anchor->st_value);
                  v.n = sym[k].st_size;
                  v.initial.assign(v.p, v.p + v.n);
                  statics.push_back(v);
                  break;
               }
         }
      }
   munmap((void *)f, st.st_size);
}

static inline AccTab::E *acc_find(AccTab &a, u32 g, bool add)
{
   u32 h = (g * 2654435761u) >> 19;
   for (u32 i = 0; i < 64; ++i, h = (h + 1) & (AccTab::N - 1))
   {
      AccTab::E &e = a.e[h & (AccTab::N - 1)];
      if (e.gen != a.gen)
      {
         if (!add) return 0;
         e.gen = a.gen; e.g = g; e.rw = 0;
         ++a.count;
         return &e;
      }
      if (e.g == g) return &e;
   }
   return 0;
}
static void acc_forget(u32 off, u32 size)
{
   for (int t = 0; t < ntasks; ++t)
      if (tasks[t].in_op && tasks[t].locked)
         for (u32 g = off / 8; g < (off + size) / 8; ++g)
            if (AccTab::E *e = acc_find(acc[t], g, false)) e->rw = 0;
}
static bool in_data(const void *p) { return (u8 *)p >= data_lo && (u8 *)p < data_hi; }
static void race_check(const void *p, bool store, void *pc)
{
   Task *t = cur;
   u32 g;
   if (in_arena(p)) g = ((uintptr_t)p - ARENA) >> 3;
   else if (in_data(p)) g = 0x80000000u + (((u8 *)p - data_lo) >> 3);
   else return;
   for (int i = 0; i < ntasks; ++i)
      if (&tasks[i] != t && tasks[i].in_op && tasks[i].locked)
      {
         ++stats.overlaps;
         AccTab::E *e = acc_find(acc[i], g, false);
         if (e && e->rw && (store || (e->rw & 2)))
         {
            const char *w = where(pc);
            report(RACE, "%s by task %d conflicts with a %s by task %d's unfinished operation %s on %s: %s (in %s)",
                   store ? "store" : "load", t->idx, (e->rw & 2) ? "store" : "load", i,
                   opname_of(&tasks[i]), tasks[i].prim ? tasks[i].prim->cls->name : "-",
                   in_data(p) ? "static memory" : describe(p), w);
            e->rw = 0;
         }
      }
   if (acc[t->idx].count < AccTab::N * 3 / 4)
      if (AccTab::E *e = acc_find(acc[t->idx], g, true)) e->rw |= store ? 2 : 1;
}
static inline void access(void *p, size_t n, bool store, void *pc)
{
   Task *t = cur;
   if (!t) return;
   if (in_arena(p))
   {
      if (!heap_live(p, n))
      {
         const char *d = describe(p), *w = where(pc);
         report(MEMORY, "%s of %zu bytes %s (in %s)", store ? "store" : "load", n, d, w);
      }
      ++t->touches;
   }
   if (plan->race && t->sut && !t->quiet && t->in_op && t->locked && t != root)
      race_check(p, store, pc);
}
// memcpy and the like called by library code, or by elements for it
static void bulk(const void *q, size_t n, bool store, void *pc)
{
   Task *t = cur;
   if (!n || !t || !t->sut || t->quiet || !in_arena(q)) return;
   yield_point();
   u8 *p = (u8 *)q;
   access(p, n, store, pc);
   for (size_t i = 8; i < n && plan->race; i += 8)
      access(p + i, 1, store, pc);
}
void touch(const void *p, size_t n, bool store)
{
   access(const_cast<void *>(p), n, store, 0);
}

//---------------------------------------------------------------- elements
u32 led_live() { return led_count; }
void led_construct(const void *p, u32 size)
{
   ++stats.elements;
   if (in_arena(p))
   {
      u32 g = ((uintptr_t)p - ARENA) >> 3;
      if (!heap_live(p, size)) report(MEMORY, "element constructed in memory that is not alive: %s", describe(p));
      for (u32 i = 0; i < (size + 7) / 8; ++i)
         if (led[g + i]) report(ELEMENT, "element constructed over a live element: %s", describe(p));
      if (!led[g]) { led[g] = 1; ++led_count; }
   }
   else if (cur && cur->sut) ++cur->ext;
}
void led_destroy(const void *p, u32)
{
   if (in_arena(p))
   {
      u32 g = ((uintptr_t)p - ARENA) >> 3;
      if (!led[g]) { report(ELEMENT, "element destroyed that is not alive: %s", describe(p)); return; }
      led[g] = 0;
      --led_count;
   }
   else if (cur && cur->sut) --cur->ext;
}
bool led_alive(const void *p)
{
   return !in_arena(p) || led[((uintptr_t)p - ARENA) >> 3];
}
void led_check(const void *p, const char *what)
{
   if (in_arena(p))
   {
      if (!led[((uintptr_t)p - ARENA) >> 3])
         report(ELEMENT | MEMORY, "element %s that is not alive: %s", what, describe(p));
   }
   else if (*(const u32 *)p != Tracked::ALIVE)
      report(ELEMENT | MEMORY, "element %s that is not alive (outside the heap)", what);
}
void Tracked::born()
{
   led_construct(this, sizeof *this);
   magic = ALIVE;
   pad = 0;
   touch(this, sizeof *this, true);
   yield_point();
}
void Tracked::from(const Tracked &o)
{
   yield_point();
   led_check(&o, "copied");
   touch(&o, sizeof o, false);
   if (cur) ++cur->copies;
   int k = o.key, t = o.tag;
   led_construct(this, sizeof *this);
   touch(this, sizeof *this, true);
   magic = ALIVE;
   pad = 0;
   key = k;
   tag = t;
   yield_point();
}
Tracked &Tracked::operator=(const Tracked &o)
{
   yield_point();
   led_check(&o, "assigned from");
   led_check(this, "assigned to");
   touch(&o, sizeof o, false);
   touch(this, sizeof *this, true);
   if (cur) ++cur->copies;
   key = o.key;
   tag = o.tag;
   yield_point();
   return *this;
}
void Big::whole() const
{
   led_check(this, "inspected");
   for (int i = 0; i < WORDS; ++i)
      if (more[i] != key + i) report(CONTENT, "word %d of an element differs from its key %d: %d", i, key, more[i] - i);
}
void Tracked::die()
{
   yield_point();
   if (!in_arena(this) && magic != ALIVE) report(ELEMENT, "element destroyed that is not alive (outside the heap)");
   touch(this, sizeof *this, true);
   led_destroy(this, sizeof *this);
   magic = DEAD;
   key = 0x6b6b6b6b;
   tag = 0x6b6b6b6b;
   yield_point();
}
void count_cmp() { if (cur) ++cur->cmps; }
bool operator==(const Tracked &a, const Tracked &b)
{
   yield_point();
   led_check(&a, "compared");
   led_check(&b, "compared");
   touch(&a, sizeof a, false);
   touch(&b, sizeof b, false);
   count_cmp();
   return a.key == b.key;
}
bool operator<(const Tracked &a, const Tracked &b)
{
   yield_point();
   led_check(&a, "compared");
   led_check(&b, "compared");
   touch(&a, sizeof a, false);
   touch(&b, sizeof b, false);
   count_cmp();
   return a.key < b.key;
}
void scratch()
{
   if (!cur || !cur->sut || (plan->opts & 2)) return; // huge runs have no refusals, and many comparisons
   struct In { Task *t; In(): t(cur) { ++t->in_cmp; } ~In() { --t->in_cmp; } } in;
   int *p = new int;
   *(volatile int *)p = 0;
   delete p;
}
void Owning::get(int k)
{
   if (cur) ++cur->in_copy;
   int *p;
   try { p = new int; }  // refused: the base element built so far is destroyed by the language
   catch (...) { if (cur) --cur->in_copy; throw; }
   if (cur) --cur->in_copy;
   *p = k;
   own = p;
}
void Owning::put()
{
   led_check(&base, "destroyed");
   if (own && in_arena(own) && !heap_live(own, sizeof *own)) report(ELEMENT, "payload of an element already released");
   delete own;
   own = 0;
}
Item ET<Owning>::get(const Owning &e)
{
   led_check(&e.base, "inspected");
   if (e.own && (!in_arena(e.own) || heap_live(e.own, sizeof(int))))
   {
      if (*e.own != e.base.key) report(CONTENT, "element payload %d differs from its key %d", *e.own, e.base.key);
   }
   else report(ELEMENT, "element without its payload");
   Item i = { e.base.key, e.base.tag };
   return i;
}

//---------------------------------------------------------------- runs
u64 fresh_id() { static u64 n; return ++n; }
u32 log2up(u32 n) { u32 r = 0; while ((1ull << r) < n) ++r; return r; }
std::string show(const Seq &s, bool pairs)
{
   std::string r = "[";
   char b[64];
   for (size_t i = 0; i < s.size(); ++i)
   {
      if (i == 24) { r += " ..."; break; }
      if (pairs) snprintf(b, sizeof b, "%s%d.%d=%d.%d", i ? " " : "", s[i].k.k, s[i].k.t, s[i].v.k, s[i].v.t);
      else snprintf(b, sizeof b, "%s%d.%d", i ? " " : "", s[i].k.k, s[i].k.t);
      r += b;
   }
   snprintf(b, sizeof b, "](%zu)", s.size());
   return r + b;
}

static void begin_op(Task *t)
{
   t->yc = t->allocs = t->refused = t->waitn = 0;
   t->steps = t->cmps = t->copies = t->touches = 0;
   t->ext = 0;
   t->all_refused = t->noalloc_now = t->giant = false;
   t->sut = t->quiet = t->in_copy = t->in_cmp = 0;
   t->hsteps = 0;
   {
      u64 all = 0;
      for (Obj *o: objs) all += o->model.size();
      t->budget = (plan->opts & 2 ? 100 * step_budget : step_budget) + 1000 * all;
   }
   t->deepest = 0;
   AccTab &a = acc[t->idx];
   ++a.gen;
   a.count = 0;
}
static Obj *secondary(const Op &op, Obj *prim)
{
   std::vector<Obj *> same;
   for (size_t i = 0; i < objs.size(); ++i)
      if (objs[i]->cls == prim->cls) same.push_back(objs[i]);
   return same[(op.d >> 4) % same.size()];
}
static void check_elements(const char *when)
{
   // only meaningful when no operation is in flight
   for (int i = 0; i < ntasks; ++i)
      if (&tasks[i] != cur && tasks[i].in_op && tasks[i].locked) return;
   u32 want = 0;
   for (size_t i = 0; i < objs.size(); ++i)
      if (objs[i]->valid) want += objs[i]->elems();
   if (led_count != want)
   {
      report(led_count > want ? ELEMENT | LEAK : ELEMENT, "%u elements alive %s, %u reachable through the containers", led_count, when, want);
      aborted_quietly();
   }
   if (plan->prop == 17)
   {
      Need all;
      for (size_t i = 0; i < objs.size(); ++i)
         if (objs[i]->valid)
         {
            const Need x = objs[i]->need();
            all.lo += x.lo;
            all.hi += x.hi;
            all.bytes += x.bytes;
         }
      if (live_blocks < all.lo || live_blocks > all.hi)
         report(FOOTPRINT, "%u blocks of storage held %s; the contents of the containers need %u to %u", live_blocks, when, all.lo, all.hi);
      if (live_bytes > all.bytes)
         report(FOOTPRINT, "%zu bytes of storage held %s; the contents of the containers need at most %zu", live_bytes, when, all.bytes);
   }
}
void aborted_quietly() { abort_run(); }

static const u64 const_limit = 64;
bool known_list_erase_range;
u64 max_log_ratio; // comparisons * 100 / log2up(n+2)
void check_log(size_t n)
{
   const u32 l = log2up(n + 2);
   const u64 c = cur->cmps;
   if (n >= 8 && c * 100 / l > max_log_ratio) max_log_ratio = c * 100 / l;
   if (c > 8 * l + 20)
      report(WORK, "%llu key comparisons with %zu elements, at most %u expected", (unsigned long long)c, n, 8 * l + 20);
}
static void do_op(Task *t, const Op &op)
{
   if (op.obj >= objs.size()) return;
   Obj *o = objs[op.obj];
   if (op.code >= o->cls->ops.size()) return;
   const OpDef &d = o->cls->ops[op.code];
   t->op = op;
   begin_op(t);
   t->oflags = d.flags;
   t->prim = o;
   t->sec = d.flags & (OF_SEC | OF_SECW) ? secondary(op, o) : 0;
   t->in_op = true;
   t->locked = false;
   if (shared) { shared->op = op.id; shared->obj = op.obj; shared->code = op.code; }
   while (!lock_free(t))
   {
      ++stats.contended;
      boundary(2 + t->waitn++, true);
   }
   const bool rd = d.flags & OF_READ;
   if (rd) ++o->readers; else o->writer = t->idx;
   if (t->sec && t->sec != o) { if (d.flags & OF_SECW) t->sec->writer = t->idx; else ++t->sec->readers; }
   t->locked = true;
   hash_in(op.id);
   const size_t n0 = o->model.size(), s0 = t->sec ? t->sec->model.size() : 0;
   {
      if (d.flags & OF_NOALLOC)
      {
         t->noalloc_now = true;
         ++stats.noalloc_ops;
      }
      else if (!plan->explicit_decisions && plan->burst)
      {
         if ((mix3(seedkey, op.id, 0x66) & 0xffff) < plan->burst) { t->all_refused = true; ++stats.burst_ops; }
      }
   }
   if (d.flags & OF_COPY) { o->copied = true; if (t->sec) t->sec->copied = true; }
   ++stats.ops;
   // contents that keep doubling are left as they are
   if (n0 + s0 < (plan->opts & 2 ? 300000u : 6000u) || (d.flags & (OF_NOALLOC | OF_READ))) o->exec(op, t->sec);
   if (cur != t) bad("task switch out of order");
   OpStat *os = opstats[o->cls->index];
   if (t->deepest > 0 && (u64)t->deepest > os[op.code].max_stack) os[op.code].max_stack = t->deepest;
   {
      // no recursion over the elements: the depth of a balanced tree is as deep as it goes
      size_t n = std::max(n0 + s0, o->model.size());
      u64 limit = 8192;
      for (; n; n /= 2) limit += 1024;
      if (t->deepest > 0 && (u64)t->deepest > limit)
         report(WORK, "%ld bytes of stack used with %zu elements, at most %llu expected", t->deepest, std::max(n0 + s0, o->model.size()), (unsigned long long)limit);
   }
   if (d.flags & OF_LOG) check_log(std::max(n0, o->model.size()));
   if ((d.flags & OF_CONST) && !t->refused)
   {
      if (t->steps > os[op.code].max_steps) os[op.code].max_steps = t->steps;
      if (t->steps > const_limit)
         report(WORK, "%llu steps with %zu elements, a constant number (at most %llu) expected", (unsigned long long)t->steps, n0, (unsigned long long)const_limit);
   }
   o->want(std::max(n0, o->model.size()));
   if (t->sec && (d.flags & OF_SECW))
   {
      // elements and spare storage may change hands separately
      t->sec->want(t->sec->model.size());
      const u32 spare = std::max(o->peak - (u32)std::min<size_t>(n0, o->peak), t->sec->peak - (u32)std::min<size_t>(s0, t->sec->peak));
      t->sec->want(t->sec->model.size() + spare);
      o->want(o->model.size() + spare);
   }
   else if (t->sec && o->reserves()) o->want(t->sec->peak); // a copy may come with the room of its original
   if (t->ext) { report(ELEMENT, "%d elements made by the operation outside the containers are left", t->ext); }
   if (t->refused)
   {
      ++stats.refused_ops;
      o->tainted = true;
      if (t->sec) t->sec->tainted = true;
      ++os[op.code].refused;
   }
   ++os[op.code].n;
   if (o->model.size() > stats.max_elems) stats.max_elems = o->model.size();
   hash_in(o->model.size());
   check_elements("after an operation");
   if (rd) --o->readers; else o->writer = -1;
   if (t->sec && t->sec != o) { if (d.flags & OF_SECW) t->sec->writer = -1; else --t->sec->readers; }
   t->locked = false;
   t->in_op = false;
   t->prim = t->sec = 0;
   // now and then look at everything nobody is using
   if ((mix3(seedkey, op.id, 0x44) & 7) == 0)
      for (size_t i = 0; i < objs.size(); ++i)
         if (objs[i]->valid && objs[i]->writer < 0)
         {
            t->prim = objs[i];
            t->op = op;
            ++stats.verifications;
            u32 f = t->oflags;
            t->oflags = 0;
            objs[i]->verify("while not operated on", ISOLATION);
            t->oflags = f;
            t->prim = 0;
         }
}
static void task_main(Task *t)
{
   for (t->pc = 0; t->pc < t->ops.size(); ++t->pc)
   {
      do_op(t, t->ops[t->pc]);
      if (t->pc + 1 < t->ops.size()) boundary(0, false);
   }
   t->finished = true;
   boundary(1, true);
   to_main();
   bad("finished task resumed");
}
static void root_op(u32 id, Obj *o)
{
   Op op = { id, (u16)root->idx, (u16)(o ? o->idx : 0), 0, 0, 0, 0, 0 };
   root->op = op;
   begin_op(root);
   root->prim = o;
   root->oflags = 0;
   if (shared) { shared->op = id; shared->obj = o ? o->idx : 0; shared->code = 0; }
}
static int root_phase;
static void root_main(Task *)
{
   // construction
   for (size_t i = 0; i < plan->objects.size(); ++i)
   {
      const ClassDef *c = classes()[plan->objects[i]];
      Obj *o = c->make(i, c);
      objs.push_back(o);
      root_op(0xF0000000u + i, o);
      o->construct();
   }
   root_phase = 1;
   next_task = ntasks ? &tasks[0] : 0;
   if (next_task) to_main();
   // every task has finished
   root->prim = 0;
   for (size_t i = 0; i < objs.size(); ++i)
   {
      root_op(0xF1000000u + i, objs[i]);
      if (objs[i]->valid) objs[i]->verify("at the end", ISOLATION | CONTENT);
   }
   check_elements("at the end");
   bool all_idle_reclaimed = false;
   if (seedkey & 1)
   {
      u32 want = 0, n = 0;
      for (size_t i = 0; i < objs.size(); ++i)
      {
         root_op(0xF1000000u + i, objs[i]);
         Sut s;
         objs[i]->reclaim();
         want += objs[i]->elems() + objs[i]->elem_blocks() + 1;
         if (objs[i]->cls->family & (F_QUEUE | F_LIST | F_FWD | F_BACK)) ++n;
      }
      all_idle_reclaimed = n == objs.size();
      if (all_idle_reclaimed && objs.size() && objs[0]->cls->elem != std::string("int") && heap_live_blocks() > want)
      {
         bool pure = true;
         for (size_t i = 0; i < objs.size(); ++i) if (objs[i]->cls->elem == std::string("int")) pure = false;
         if (pure) report(LEAK, "%u blocks still held when all pooled storage was given back; the elements need %u", heap_live_blocks(), want);
      }
   }
   // destruction in seeded order
   std::vector<Obj *> left = objs;
   u64 x = seedkey;
   while (!left.empty())
   {
      x = mix(x);
      size_t i = x % left.size();
      Obj *o = left[i];
      left.erase(left.begin() + i);
      root_op(0xF1000000u + o->idx, o);
      if (o->valid) o->destroy();
      o->valid = false;
      for (size_t j = 0; j < left.size(); ++j)
         if (left[j]->valid)
         {
            root->prim = left[j];
            left[j]->verify("after another object was destroyed", ISOLATION);
         }
   }
   root_op(0xF2000000u, 0);
   if (led_count) report(LEAK | ELEMENT, "%u elements alive after every container was destroyed", led_count);
   if (live_blocks)
   {
      u32 op = 0, sz = 0;
      for (size_t i = 0; i < blocks.size(); ++i) if (blocks[i].live) { op = blocks[i].op; sz = blocks[i].size; break; }
      report(LEAK, "%u blocks not returned after every container was destroyed (first: %u bytes obtained by op %u)", live_blocks, sz, op);
   }
   root_phase = 2;
   next_task = 0;
   to_main();
}
static void fiber_entry()
{
   Task *t = cur;
   try
   {
      if (t == root) root_main(t);
      else task_main(t);
   }
   catch (...)
   {
      bad("exception left a task");
   }
   bad("fiber returned");
}
static void fiber_start(Task *t)
{
   if (!t->stack)
   {
      t->stack_size = 512 << 10;
      t->stack = (char *)mmap(0, t->stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (t->stack == MAP_FAILED) bad("no stack");
      mprotect(t->stack, 4096, PROT_NONE);
   }
   void **sp = (void **)(t->stack + t->stack_size - 64);
   *--sp = 0;
   *--sp = (void *)fiber_entry;
   for (int i = 0; i < 6; ++i) *--sp = 0;
   t->sp = sp;
   t->started = true;
   t->eh_caught = 0;
   t->eh_uncaught = 0;
}

static void on_signal(int sig)
{
   if (shared && !shared->cat)
   {
      shared->signal = sig;
      shared->cat = sig == SIGVTALRM ? HANG : CRASH;
      shared->foreign = cur && plan ? !applies(shared->cat, cur) : 0;
      shared->refusals = run_refusals;
      snprintf((char *)shared->cls, sizeof shared->cls, "%s", cur && cur->prim ? cur->prim->cls->name : "-");
      snprintf((char *)shared->opname, sizeof shared->opname, "%s", cur ? opname_of(cur) : "-");
   }
   _exit(70);
}
void install_signals()
{
   static char alt[65536];
   stack_t ss;
   memset(&ss, 0, sizeof ss);
   ss.ss_sp = alt;
   ss.ss_size = sizeof alt;
   sigaltstack(&ss, 0);
   struct sigaction sa;
   memset(&sa, 0, sizeof sa);
   sa.sa_handler = on_signal;
   sa.sa_flags = SA_ONSTACK;
   const int sigs[] = { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGVTALRM };
   for (int s: sigs) sigaction(s, &sa, 0);
}

RunResult run(const Plan &p)
{
   static bool inited;
   if (!inited)
   {
      heap_init();
      data_lo = (u8 *)&__data_start;
      data_hi = (u8 *)&_end;
      for (int i = 0; i <= MAXTASKS; ++i) { tasks[i].idx = i; tasks[i].stack = 0; acc[i].gen = 1; }
      find_statics();
      inited = true;
   }
   for (StaticVar &v: statics) memcpy(v.p, v.initial.data(), v.n);
   plan = &p;
   cur = 0;
   if (shared)
   {
      itimerval tv = { {0, 0}, {60, 0} };
      setitimer(ITIMER_VIRTUAL, &tv, 0);
   }
   heap_reset();
   if (declog) declog->n = 0;
   viol.set = false;
   aborted = false;
   run_refusals = run_reclaims = run_foreign = 0;
   run_hash = 0xcbf29ce484222325ull;
   sched_hash = 0;
   seedkey = mix(p.seed);
   exp_dec.clear();
   if (p.explicit_decisions)
      for (size_t i = 0; i < p.decisions.size(); ++i)
         exp_dec[dkey(p.decisions[i].kind, p.decisions[i].op, p.decisions[i].n)] = p.decisions[i].arg;
   ntasks = p.ntasks;
   if (ntasks > MAXTASKS) bad("too many tasks");
   for (int i = 0; i <= MAXTASKS; ++i)
   {
      Task &t = tasks[i];
      t.ops.clear();
      t.finished = i != MAXTASKS && i >= ntasks;
      t.started = false;
      t.in_op = t.locked = false;
      t.prim = t.sec = 0;
      t.sut = t.quiet = 0;
      t.op.id = 0;
   }
   for (size_t i = 0; i < p.ops.size(); ++i)
      if (p.ops[i].task < ntasks) tasks[p.ops[i].task].ops.push_back(p.ops[i]);
   for (int i = 0; i < ntasks; ++i)
      if (tasks[i].ops.empty()) tasks[i].finished = true;
   objs.clear();
   reset_registries();
   const u64 sw0 = stats.switches_mid;
   root_phase = 0;
   next_task = root;
   EhGlobals saved = *eh();
   for (;;)
   {
      Task *t = next_task;
      if (aborted) break;
      if (!t || t->finished)
      {
         t = 0;
         for (int i = 0; i < ntasks; ++i) if (runnable(&tasks[i])) { t = &tasks[i]; break; }
         if (!t)
         {
            if (root_phase == 2) break;
            t = root;
         }
      }
      next_task = 0;
      if (!t->started) fiber_start(t);
      cur = t;
      eh()->caught = t->eh_caught; eh()->uncaught = t->eh_uncaught;
      sim_switch(&main_sp, t->sp);
      cur = 0;
   }
   *eh() = saved;
   cur = 0;
   if (!aborted)
      for (size_t i = 0; i < objs.size(); ++i) delete objs[i];
   objs.clear();
   ++stats.runs;
   RunResult r;
   r.violated = viol.set;
   r.hash = run_hash;
   r.sched = sched_hash;
   r.refusals = run_refusals;
   r.midswitches = stats.switches_mid - sw0;
   r.completed = !aborted;
   r.foreign = run_foreign;
   return r;
}
}

//---------------------------------------------------------------- seams: allocation and instrumentation
// malloc, memcpy and the like are led here by the linker (--wrap)
extern "C"
{
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
   sim::bulk(s, n, false, __builtin_return_address(0));
   sim::bulk(d, n, true, __builtin_return_address(0));
   return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{
   sim::bulk(s, n, false, __builtin_return_address(0));
   sim::bulk(d, n, true, __builtin_return_address(0));
   return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n)
{
   sim::bulk(d, n, true, __builtin_return_address(0));
   return __real_memset(d, c, n);
}
int __wrap_memcmp(const void *a, const void *b, size_t n)
{
   sim::bulk(a, n, false, __builtin_return_address(0));
   sim::bulk(b, n, false, __builtin_return_address(0));
   return __real_memcmp(a, b, n);
}
void *__wrap_malloc(size_t n) { return sim::cur && sim::cur->sut ? sim::new_entry(n, sim::RAW, true) : __real_malloc(n); }
void __wrap_free(void *p) { if (sim::in_arena(p) || (p && sim::cur && sim::cur->sut)) sim::del_entry(p, sim::RAW); else __real_free(p); }
void *__wrap_calloc(size_t n, size_t m)
{
   size_t all;
   if (__builtin_mul_overflow(n, m, &all)) return 0;
   void *p = __wrap_malloc(all);
   if (p) memset(p, 0, all);
   return p;
}
void *__wrap_realloc(void *p, size_t n)
{
   if (!sim::in_arena(p) && (p || !(sim::cur && sim::cur->sut))) return __real_realloc(p, n);
   void *q = __wrap_malloc(n);
   if (q && p)
   {
      const size_t old = sim::heap_size(p);
      memcpy(q, p, old < n ? old : n);
      __wrap_free(p);
   }
   return q;
}
void *__wrap_aligned_alloc(size_t a, size_t n)
{
   return sim::cur && sim::cur->sut && a <= 16 ? sim::new_entry(n, sim::RAW, true) : __real_aligned_alloc(a, n);
}
}
void *operator new(size_t n) { return sim::new_entry(n, false, false); }
void *operator new[](size_t n) { return sim::new_entry(n, true, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim::new_entry(n, false, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::new_entry(n, true, true); }
void operator delete(void *p) noexcept { sim::del_entry(p, false); }
void operator delete[](void *p) noexcept { sim::del_entry(p, true); }
void operator delete(void *p, size_t) noexcept { sim::del_entry(p, false); }
void operator delete[](void *p, size_t) noexcept { sim::del_entry(p, true); }

extern "C"
{
static u_int32_t sim_edge_n;
unsigned sim_edge_count() { return sim_edge_n; }
void __sanitizer_cov_trace_pc_guard_init(u_int32_t *a, u_int32_t *b)
{
   for (; a < b; ++a) *a = ++sim_edge_n;
}
unsigned char sim_edges[65536];
void __sanitizer_cov_trace_pc_guard(u_int32_t *g)
{
   sim_edges[*g & 65535] = 1;
   sim::Task *t = sim::cur;
   if (!t) return;
   if (t->sut)
   {
      if (++t->steps > t->budget)
      {
         t->steps = 0;
         sim::report(sim::HANG, "more than %llu steps without an end", (unsigned long long)t->budget);
         sim::aborted_quietly();
      }
   }
   else if (++t->hsteps > 3 * t->budget)
   {
      t->hsteps = 0;
      sim::report(sim::HANG, "inspection takes more than %llu steps without an end", (unsigned long long)(3 * t->budget));
      sim::aborted_quietly();
   }
   sim::yield_point();
}
#define LS(n) \
void __sanitizer_cov_load##n(void *p) { sim::access(p, n, false, __builtin_return_address(0)); sim::yield_point(); } \
void __sanitizer_cov_store##n(void *p) { sim::access(p, n, true, __builtin_return_address(0)); sim::yield_point(); }
LS(1) LS(2) LS(4) LS(8) LS(16)
}
