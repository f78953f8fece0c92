// Seeded search, attribution, minimisation and replay.
#include "sim.h"
#include "core.h"
#include <cstdarg>
#include <cstdlib>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <set>
#include <fstream>
#include <sstream>

extern "C" unsigned char sim_edges[65536];
extern "C" unsigned sim_edge_count();

namespace sim
{
void define_lists(); void define_slists(); void define_queues(); void define_vectors(); void define_maps(); void define_sets();
void define_trees(); void define_flat(); void define_jobs();
void define_old_vectors(); void define_old_lists(); void define_old_trees(); void define_old_flat();

static double now()
{
   timespec t;
   clock_gettime(CLOCK_MONOTONIC, &t);
   return t.tv_sec + t.tv_nsec * 1e-9;
}
template<class T> static T *shm(size_t n = 1)
{
   void *p = mmap(0, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if (p == MAP_FAILED) bad("no shared memory");
   return static_cast<T *>(p);
}

//---------------------------------------------------------------- plans
static const u32 NODES = F_QUEUE | F_LIST | F_FWD | F_BACK | F_MAP | F_SET | F_TREE;
static u32 families(u32 prop)
{
   switch (prop)
   {
   case 1: return F_QUEUE;
   case 2: return F_LIST | F_FWD | F_BACK;
   case 3: return F_VEC;
   case 4: return F_FIXED;
   case 5: return F_MAP | F_SET | F_TREE;
   case 6: return F_SVM | F_VM;
   case 7: return NODES | F_VEC | F_SVM | F_VM;
   case 8: return NODES | F_VEC | F_FIXED | F_SVM | F_VM;
   case 9: return NODES | F_VEC;
   case 10: return NODES | F_VEC | F_FIXED | F_SVM | F_VM | F_JOB;
   case 11: return NODES | F_VEC | F_SVM | F_VM;
   case 12: case 17: return NODES | F_VEC | F_FIXED | F_SVM | F_VM;
   case 18: return F_JOB;
   default: return NODES | F_VEC | F_FIXED | F_SVM | F_VM;
   }
}
static u32 all_huge, all_lengthy; // for trying these kinds of runs out
static Plan generate(u32 prop, u64 base, u64 index)
{
   Plan p;
   p.prop = prop;
   p.seed = mix3(base, prop, index);
   p.explicit_decisions = false;
   Rng r(p.seed ^ 0x5151);
   static const u32 pol[] = { 0, 0, 1, 2, 3, 3 };
   p.heap_policy = pol[r.below(6)];
   static const u32 fills[] = { 256, 256, 0, 0xff, 0x5a };
   p.fill = fills[r.below(5)];
   p.ntasks = prop == 10 ? r.range(2, 4) : r.chance(1, 3) ? 1 : r.range(2, 4);
   p.race = prop == 10;
   static const u32 pre[] = { 60, 300, 1300, 4000 };
   p.preempt = p.ntasks > 1 && (prop == 10 || r.chance(3, 4)) ? pre[r.below(4)] : 0;
   p.opswitch = p.ntasks > 1 ? r.range(4000, 40000) : 0;
   p.refuse = p.burst = p.cap = 0;
   const bool faults = prop == 7 || (prop == 4 ? r.chance(1, 2) : prop == 10 ? r.chance(1, 4) : r.chance(3, 5));
   if (faults)
   {
      switch (r.below(6))
      {
      case 0: p.refuse = 700; break;
      case 1: p.refuse = 2500; break;
      case 2: p.refuse = 9000; break;
      case 3: p.burst = r.range(3000, 20000); break;
      case 4: p.cap = 128u << r.below(7); p.cap += r.below(p.cap); break;
      case 5: p.refuse = 2000; p.burst = 3000; p.cap = 256u << r.below(6); break;
      }
      if (prop == 4 || (prop == 12 && r.chance(1, 8))) p.refuse = r.chance(1, 2) ? 65536 : p.refuse;
   }
   p.reclaim = faults && r.chance(prop == 12 ? 3 : 1, prop == 12 ? 4 : 2);
   static const u32 keys[] = { 3, 6, 12, 30, 100, 1000 };
   p.keyrange = keys[r.below(6)];
   p.opts = 0;
   const u32 bulkden = prop == 11 ? 2 : prop == 5 ? 5 : 12;
   if (r.chance(1, bulkden))
   {
      p.opts |= 1;
      if (prop == 11 || r.chance(1, 2)) p.keyrange = 1000000;
   }
   // rarely: a container past 65535 elements, or a long history
   const bool huge = prop != 10 && prop != 18 && prop != 4 && (r.chance(1, prop == 11 ? 3000 : 6000) || all_huge);
   const bool lengthy = !huge && (r.chance(1, 1500) || all_lengthy);
   if (huge)
   {
      p.opts |= 3;
      p.keyrange = 1000000;
      p.ntasks = 1;
      p.preempt = p.opswitch = p.burst = p.cap = 0;
      p.refuse = 0; // where a long insertion ends would have to be guessed
   }
   const bool old_age = lengthy && prop != 18 && prop != 10 && (all_lengthy ? all_lengthy > 1 : r.chance(1, 8)); // tens of thousands of operations
   if (old_age)
   {
      p.opts = 0;
      p.ntasks = 1;
      p.preempt = p.opswitch = p.burst = p.cap = 0;
      p.refuse = r.chance(1, 2) ? 20 : 0;
      if (p.keyrange > 30) p.keyrange = 30;
   }
   // objects
   const u32 fam = families(prop);
   std::map<u32, std::vector<u16> > byfam;
   for (size_t i = 0; i < classes().size(); ++i)
      if (classes()[i]->family & fam && !((huge || lengthy) && !strcmp(classes()[i]->elem, "big"))) byfam[classes()[i]->family].push_back(i);
   // a family first: those with many element types do not crowd out the others
   std::vector<u32> fams;
   for (auto &f: byfam) fams.push_back(f.first);
   const u32 kinds = r.chance(2, 3) ? 1 : 2;
   std::vector<u16> use;
   for (u32 i = 0; i < kinds; ++i)
   {
      u32 f = fams[r.below(fams.size())];
      if (prop == 10 && i == 0 && r.chance(1, 5)) f = F_JOB;
      use.push_back(byfam[f][r.below(byfam[f].size())]);
   }
   if ((prop == 12 || prop == 7) && p.reclaim && r.chance(1, 2)) use.push_back(byfam[F_QUEUE][r.below(byfam[F_QUEUE].size())]);
   u32 nobj = r.range(1, 4);
   if (huge && nobj > 2) nobj = 2;
   if (old_age) nobj = r.chance(1, 4) ? 2 : 1;
   if (nobj < use.size()) nobj = use.size();
   for (u32 i = 0; i < nobj; ++i) p.objects.push_back(use[i < use.size() ? i : r.below(use.size())]);
   // operation weights, per class used
   std::map<u16, std::vector<u32> > weights;
   const bool swarm = r.chance(1, 2);
   const bool few = old_age ? r.chance(3, 4) : r.chance(1, prop == 17 ? 4 : 12); // the same few operations over and over
   for (size_t i = 0; i < use.size(); ++i)
   {
      const ClassDef *c = classes()[use[i]];
      std::vector<u32> w;
      for (size_t j = 0; j < c->ops.size(); ++j)
      {
         u32 x = c->ops[j].weight * 4;
         const u32 f = c->ops[j].flags;
         if (prop == 10 && (f & OF_READ)) x *= 3;
         if (prop == 13 && (f & OF_COPY)) x *= 4;
         if (prop == 12 && (f & OF_NOALLOC)) x *= 2;
         if (prop == 11 && (f & (OF_CONST | OF_LOG))) x *= 2;
         if (swarm)
         {
            static const u32 m[] = { 0, 1, 1, 2, 4 };
            x = x * m[r.below(5)] / 2;
         }
         w.push_back(x);
      }
      if (few)
      {
         std::vector<u32> v(w.size(), 0);
         v[c->bulk ? c->bulk - 1 : 0] = 2;
         v[r.below(w.size())] += old_age ? 10 : 4;
         v[r.below(w.size())] += 4;
         if (r.chance(1, 2)) v[r.below(w.size())] += 1;
         w = v;
      }
      weights[use[i]] = w;
   }
   const u32 nops = huge ? r.range(3, 16) : old_age ? r.range(150000, 200000) : lengthy ? r.range(300, 1500) : r.chance(1, 4) ? r.range(2, 12) : r.chance(1, 2) ? r.range(10, 40) : r.range(30, 110);
   const u32 hot = r.below(p.objects.size());
   for (u32 i = 0; i < nops; ++i)
   {
      Op op;
      op.id = i + 1;
      op.task = r.below(p.ntasks);
      op.obj = r.chance(1, 3) ? hot : r.below(p.objects.size());
      const std::vector<u32> &w = weights[p.objects[op.obj]];
      u32 total = 0;
      for (u32 x: w) total += x;
      op.code = 0;
      if (total)
      {
         u32 x = r.below(total);
         while (x >= w[op.code]) x -= w[op.code++];
      }
      else op.code = r.below(w.size());
      if (old_age && r.chance(1, 12)) // containers stay small
         for (u32 j = 0; j < w.size(); ++j)
            if (!strcmp(classes()[p.objects[op.obj]]->ops[j].name, "clear")) op.code = j;
      if (huge && i < 2 && classes()[p.objects[op.obj]]->bulk && r.chance(2, 3)) op.code = classes()[p.objects[op.obj]]->bulk - 1;
      op.a = r.next() >> 20; op.b = r.next() >> 20; op.c = r.next() >> 20; op.d = r.next() >> 20;
      if (r.chance(1, 6)) op.a = 0;              // boundary positions often
      if (r.chance(1, 8)) op.b &= 3;
      if (r.chance(1, 8)) op.d &= 15;
      p.ops.push_back(op);
   }
   return p;
}

//---------------------------------------------------------------- replay files
static std::string opname(const Plan &p, const Op &o)
{
   if (o.obj >= p.objects.size()) return "-";
   const ClassDef *c = classes()[p.objects[o.obj]];
   return o.code < c->ops.size() ? c->ops[o.code].name : "-";
}
static const char *decname(u32 k)
{
   static const char *n[] = { "switch", "opswitch", "refuse", "reclaim_then_grant", "reclaim_then_refuse" };
   return n[k];
}
struct Outcome
{
   u32 done, violated, crashed, cat, op;
   u64 hash, refusals, midswitches;
   char cls[48], opname[48], msg[1024];
};
static void save(const char *file, const Plan &p, const Outcome &o, u64 index, const char *note)
{
   FILE *f = fopen(file, "w");
   if (!f) bad("cannot write %s", file);
   fprintf(f, "ttl-simulation-replay 1\n");
   fprintf(f, "# %s\n", note);
   fprintf(f, "prop C%02u\nseed %llu\nindex %llu\n", p.prop, (unsigned long long)p.seed, (unsigned long long)index);
   fprintf(f, "env heap=%u fill=%u tasks=%u race=%u keyrange=%u opts=%u reclaim=%u\n", p.heap_policy, p.fill, p.ntasks, p.race, p.keyrange, p.opts, p.reclaim);
   for (u16 c: p.objects) fprintf(f, "object %s\n", classes()[c]->name);
   for (const Op &x: p.ops)
      fprintf(f, "op %u task=%u obj=%u %s %u %u %u %u\n", x.id, x.task, x.obj, opname(p, x).c_str(), x.a, x.b, x.c, x.d);
   for (const Decision &d: p.decisions) fprintf(f, "decision %s op=%u n=%u arg=%u\n", decname(d.kind), d.op, d.n, d.arg);
   fprintf(f, "expect %s\nwhere %s %s op=%u\nhash %016llx\n", cat_name(o.cat), o.cls, o.opname, o.op, (unsigned long long)o.hash);
   std::string m = o.msg;
   for (char &c: m) if (c == '\n') c = ' ';
   fprintf(f, "message %s\n", m.c_str());
   fclose(f);
}
static bool load(const char *file, Plan &p, std::string &expect, u64 &hash)
{
   std::ifstream in(file);
   std::string line;
   if (!std::getline(in, line) || line != "ttl-simulation-replay 1") return false;
   p.explicit_decisions = true;
   p.preempt = p.opswitch = p.refuse = p.burst = p.cap = 0;
   while (std::getline(in, line))
   {
      std::istringstream s(line);
      std::string w;
      s >> w;
      unsigned a, b, c, d, e, g, h;
      unsigned long long x;
      if (w == "prop") { sscanf(line.c_str(), "prop C%u", &p.prop); }
      else if (w == "seed") { sscanf(line.c_str(), "seed %llu", &x); p.seed = x; }
      else if (w == "env")
      {
         if (sscanf(line.c_str(), "env heap=%u fill=%u tasks=%u race=%u keyrange=%u opts=%u reclaim=%u", &a, &b, &c, &d, &e, &g, &h) != 7) return false;
         p.heap_policy = a; p.fill = b; p.ntasks = c; p.race = d; p.keyrange = e; p.opts = g; p.reclaim = h;
      }
      else if (w == "object")
      {
         std::string n = line.substr(7);
         size_t i = 0;
         while (i < classes().size() && n != classes()[i]->name) ++i;
         if (i == classes().size()) return false;
         p.objects.push_back(i);
      }
      else if (w == "op")
      {
         char name[64];
         if (sscanf(line.c_str(), "op %u task=%u obj=%u %63s %u %u %u %u", &a, &b, &c, name, &d, &e, &g, &h) != 8) return false;
         if (c >= p.objects.size()) return false;
         const ClassDef *k = classes()[p.objects[c]];
         size_t i = 0;
         while (i < k->ops.size() && strcmp(name, k->ops[i].name)) ++i;
         if (i == k->ops.size()) return false;
         Op o = { a, (u16)b, (u16)c, (u16)i, d, e, g, h };
         p.ops.push_back(o);
      }
      else if (w == "decision")
      {
         char name[64];
         if (sscanf(line.c_str(), "decision %63s op=%u n=%u arg=%u", name, &a, &b, &c) != 4) return false;
         for (u32 k = 0; k < 5; ++k)
            if (!strcmp(name, decname(k))) { Decision q = { k, a, b, c }; p.decisions.push_back(q); }
      }
      else if (w == "expect") expect = line.substr(7);
      else if (w == "hash") { sscanf(line.c_str(), "hash %llx", &x); hash = x; }
   }
   return !p.objects.empty();
}

//---------------------------------------------------------------- one plan in a child process
static Shared *child_shared;
static Outcome *child_out;
static DecLog *child_log;
static void inner(const Plan &p, Outcome *o)
{
   RunResult r = run(p);
   o->violated = r.violated;
   o->hash = r.hash;
   o->refusals = r.refusals;
   o->midswitches = r.midswitches;
   if (r.violated)
   {
      o->cat = viol.cat;
      o->op = viol.op;
      memcpy(o->cls, viol.cls, sizeof o->cls);
      memcpy(o->opname, viol.opname, sizeof o->opname);
      memcpy(o->msg, viol.msg, sizeof o->msg);
   }
   o->done = 1;
}
static u32 interfered;
// a container that has lost its end must not eat the machine's memory
static void limit_memory()
{
   rlimit r = { 3ull << 30, 3ull << 30 };
   setrlimit(RLIMIT_AS, &r);
}
static Outcome exec_child(const Plan &p)
{
   if (!child_shared) { child_shared = shm<Shared>(); child_out = shm<Outcome>(); child_log = shm<DecLog>(); }
   memset(child_out, 0, sizeof *child_out);
   memset(child_shared, 0, sizeof *child_shared);
   child_log->n = 0;
   fflush(stdout); fflush(stderr);
   pid_t pid = fork();
   if (pid < 0) bad("fork");
   if (!pid)
   {
      shared = child_shared;
      declog = child_log;
      install_signals();
      limit_memory();
      inner(p, child_out);
      _exit(0);
   }
   int st;
   waitpid(pid, &st, 0);
   if (WIFSIGNALED(st))
   {
      // no signal of its own making ends a run this way: somebody else ended the process
      if (++interfered > 20) { fprintf(stderr, "simulated runs are ended from outside (signal %d)\n", WTERMSIG(st)); exit(71); }
      return exec_child(p);
   }
   Outcome o = *child_out;
   if (WIFEXITED(st) && WEXITSTATUS(st) == 71) exit(71);
   if (!o.done)
   {
      memset(&o, 0, sizeof o);
      o.done = 1;
      o.crashed = 1;
      o.cat = child_shared->cat ? (u32)child_shared->cat : (u32)CRASH;
      o.violated = !child_shared->foreign;
      o.op = child_shared->op;
      o.refusals = child_shared->refusals;
      snprintf(o.cls, sizeof o.cls, "%s", child_shared->cls);
      snprintf(o.opname, sizeof o.opname, "%s", child_shared->opname);
      if (o.cat == HANG) snprintf(o.msg, sizeof o.msg, "no end within 60 s of processor time");
      else snprintf(o.msg, sizeof o.msg, "ended by signal %u", child_shared->signal);
      o.hash = mix3(o.cat, o.op, child_shared->signal);
   }
   return o;
}
static void to_explicit(Plan &p)
{
   p.explicit_decisions = true;
   p.decisions.assign(child_log->d, child_log->d + child_log->n);
   p.preempt = p.opswitch = p.refuse = p.burst = p.cap = 0;
}
static bool is_refusal(const Decision &d) { return d.kind == D_REFUSE || d.kind == D_RECLAIM_REFUSE || d.kind == D_RECLAIM_OK; }
static Plan stripped(const Plan &p)
{
   Plan q = p;
   q.decisions.clear();
   for (const Decision &d: p.decisions)
      if (p.prop == 7 ? !is_refusal(d) : d.kind != D_SWITCH) q.decisions.push_back(d);
   if (p.prop == 7) q.prop = 0;
   return q;
}
// C07 and C10 speak about faults and interleavings: without those the deviation must be gone, or it is another property's
static bool needs_counterfactual(const Plan &p, u32 cat)
{
   if (p.prop == 7) return true;
   if (p.prop == 10) return !(cat & (RACE | ISOLATION));
   return false;
}
static bool attributable(const Plan &p, u32 cat)
{
   if (!needs_counterfactual(p, cat)) return true;
   return !exec_child(stripped(p)).violated;
}

//---------------------------------------------------------------- minimising
struct Minimiser
{
   Plan best;
   Outcome out;
   u32 tried, limit;
   double until;
   bool same(const Outcome &o) const
   {
      return o.violated && !strcmp(cat_name(o.cat), cat_name(out.cat)) && !strcmp(o.cls, out.cls);
   }
   bool attempt(const Plan &c)
   {
      if (tried >= limit || now() > until) return false;
      ++tried;
      Outcome o = exec_child(c);
      if (!same(o)) return false;
      Plan q = c;
      if (needs_counterfactual(c, o.cat) && !attributable(c, o.cat)) return false;
      best = q;
      out = o;
      return true;
   }
   template<class V> bool chunks(V Plan::*m)
   {
      bool any = false;
      for (size_t n = (best.*m).size() / 2 + 1; n >= 1; n /= 2)
      {
         for (size_t i = 0; i < (best.*m).size();)
         {
            Plan c = best;
            V &v = c.*m;
            size_t e = std::min(v.size(), i + n);
            v.erase(v.begin() + i, v.begin() + e);
            if (attempt(c)) any = true;
            else i += n;
            if (now() > until || tried >= limit) return any;
         }
         if (n == 1) break;
      }
      return any;
   }
   bool objects()
   {
      bool any = false;
      for (size_t i = best.objects.size(); i-- > 0 && best.objects.size() > 1;)
      {
         bool used = false;
         for (Op &o: best.ops) if (o.obj == i) used = true;
         if (used) continue;
         Plan c = best;
         c.objects.erase(c.objects.begin() + i);
         for (Op &o: c.ops) if (o.obj > i) --o.obj;
         if (attempt(c)) any = true;
      }
      return any;
   }
   bool tasks()
   {
      if (best.ntasks <= 1) return false;
      Plan c = best;
      for (Op &o: c.ops) o.task = 0;
      c.ntasks = 1;
      c.decisions.clear();
      for (Decision &d: best.decisions) if (is_refusal(d)) c.decisions.push_back(d);
      return attempt(c);
   }
   bool arguments()
   {
      bool any = false;
      for (size_t i = 0; i < best.ops.size(); ++i)
         for (int f = 0; f < 4; ++f)
         {
            u32 Op::*m = f == 0 ? &Op::a : f == 1 ? &Op::b : f == 2 ? &Op::c : &Op::d;
            u32 v = best.ops[i].*m;
            static const u32 tryv[] = { 0, 1, 2, 3, 5, 16 };
            for (u32 t: tryv)
            {
               if (t >= v) break;
               Plan c = best;
               c.ops[i].*m = t;
               if (attempt(c)) { any = true; break; }
            }
            if (now() > until || tried >= limit) return any;
         }
      return any;
   }
   void go(double seconds)
   {
      until = now() + seconds;
      tried = 0;
      limit = 4000;
      tasks();
      for (int round = 0; round < 4; ++round)
      {
         bool any = chunks(&Plan::ops);
         any |= chunks(&Plan::decisions);
         any |= objects();
         if (round) any |= arguments();
         if (round == 1 || round == 2) any |= tasks();
         if (!any && round) break;
      }
   }
};

//---------------------------------------------------------------- search
struct WorkerStats
{
   Stats stats;
   u32 nprobes;
   struct { char name[96]; u64 n; } probe[MAXPROBE];
   OpStat ops[MAXCLASS][MAXOPS];
   unsigned char edges[65536];
   u32 nedges;
   u64 max_log_ratio, rejected, done;
};
struct Control { volatile u64 best; volatile u64 rejected; };
static void flush_stats(WorkerStats *w)
{
   w->stats = stats;
   w->nprobes = probe_count();
   for (u32 i = 0; i < w->nprobes; ++i) { snprintf(w->probe[i].name, 96, "%s", probe_name(i)); w->probe[i].n = probes.n[i]; }
   memcpy(w->ops, opstats, sizeof opstats);
   memcpy(w->edges, sim_edges, sizeof sim_edges);
   w->max_log_ratio = max_log_ratio;
}
static void resume_stats(WorkerStats *w)
{
   stats = w->stats;
   for (u32 i = 0; i < w->nprobes; ++i) probes.n[probe_id(w->probe[i].name)] = w->probe[i].n;
   memcpy(opstats, w->ops, sizeof opstats);
   memcpy(sim_edges, w->edges, sizeof sim_edges);
   max_log_ratio = w->max_log_ratio;
}
static std::string plan_text(const Plan &p)
{
   std::string s;
   char b[200];
   snprintf(b, sizeof b, "seed=%llu tasks=%u heap=%u fill=%u preempt=%u refuse=%u burst=%u cap=%u reclaim=%u keyrange=%u opts=%u objects=", (unsigned long long)p.seed, p.ntasks, p.heap_policy, p.fill, p.preempt, p.refuse, p.burst, p.cap, p.reclaim, p.keyrange, p.opts);
   s = b;
   for (size_t i = 0; i < p.objects.size(); ++i) { if (i) s += ","; s += classes()[p.objects[i]]->name; }
   s += " ops=";
   for (size_t i = 0; i < p.ops.size() && i < 14; ++i)
   {
      snprintf(b, sizeof b, "%st%u:o%u.%s", i ? " " : "", p.ops[i].task, p.ops[i].obj, opname(p, p.ops[i]).c_str());
      s += b;
   }
   if (p.ops.size() > 14) s += " ...";
   return s;
}
struct Options
{
   u32 prop = 0, workers = 8;
   u64 seed = 1, runs = 1000, start = 0;
   double time = 240, min_time = 30;
   const char *stats = 0, *replay = 0;
   bool fork_each = false, hashes = false;
};
struct RunRec { u64 hash, sched; bool nontrivial; };

static void worker(const Options &o, u32 id, u64 from, Shared *sh, WorkerStats *w, Control *ctl, RunRec *rec, double end, DecLog *log)
{
   shared = sh;
   declog = o.prop == 7 || o.prop == 10 ? log : 0;
   install_signals();
   limit_memory();
   resume_stats(w);
   u64 n = 0;
   for (u64 i = from; i < o.start + o.runs && i < ctl->best; i += o.workers)
   {
      if (now() > end) break;
      sh->index = i;
      sh->cat = 0;
      sh->code = 0;
      Plan p = generate(o.prop, o.seed, i);
      const double began = now();
      RunResult r = run(p);
      if (getenv("SIM_SLOW") && now() - began > atof(getenv("SIM_SLOW"))) fprintf(stderr, "run %llu took %.1f s\n", (unsigned long long)i, now() - began);
      rec[i - o.start].hash = r.hash ? r.hash : 1;
      rec[i - o.start].sched = mix2(r.sched, r.refusals);
      rec[i - o.start].nontrivial = r.completed && (r.sched || r.refusals);
      ++w->done;
      if (r.violated)
      {
         bool mine = true;
         if (needs_counterfactual(p, viol.cat))
         {
            Plan q = p;
            q.explicit_decisions = true;
            q.decisions.assign(log->d, log->d + log->n);
            q.preempt = q.opswitch = q.refuse = q.burst = q.cap = 0;
            q = stripped(q);
            sh->found = 2; // a crash in here means: not attributable
            Stats keep = stats;
            DecLog *l = declog;
            declog = 0;
            RunResult r2 = run(q);
            declog = l;
            stats = keep;
            sh->found = 0;
            if (r2.violated)
            {
               mine = false;
               ++w->rejected;
               __sync_fetch_and_add(&ctl->rejected, 1);
            }
         }
         if (mine)
         {
            sh->found = 1;
            sh->found_index = i;
            u64 b;
            while (i < (b = ctl->best) && !__sync_bool_compare_and_swap(&ctl->best, b, i)) {}
            break;
         }
         if (ctl->rejected > 2000) break;
      }
      if ((++n & 63) == 0) flush_stats(w);
      if (o.fork_each) { flush_stats(w); _exit(3); }
   }
   flush_stats(w);
   _exit(0);
}
static std::string json_str(const std::string &s)
{
   std::string r = "\"";
   for (unsigned char c: s)
   {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += c;
   }
   return r + "\"";
}

static int search(const Options &o)
{
   const double t0 = now(), end = t0 + o.time;
   Control *ctl = shm<Control>();
   ctl->best = ~0ull;
   RunRec *rec = shm<RunRec>(o.runs);
   WorkerStats *ws = shm<WorkerStats>(o.workers);
   Shared *sh = shm<Shared>(o.workers);
   DecLog *logs = shm<DecLog>(o.workers);
   std::map<pid_t, u32> pids;
   u32 foreign_crashes = 0, restarts = 0;
   auto spawn = [&](u32 id, u64 from)
   {
      memset(&sh[id], 0, sizeof(Shared));
      pid_t pid = fork();
      if (pid < 0) bad("fork");
      if (!pid) worker(o, id, from, &sh[id], &ws[id], ctl, rec, end, &logs[id]);
      pids[pid] = id;
   };
   for (u32 i = 0; i < o.workers; ++i) spawn(i, o.start + i);
   std::vector<u64> crash_candidates;
   while (!pids.empty())
   {
      int st;
      pid_t pid = wait(&st);
      if (pid < 0) bad("wait");
      if (!pids.count(pid)) continue;
      u32 id = pids[pid];
      pids.erase(pid);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { spawn(id, sh[id].index + o.workers); continue; }
      if (WIFEXITED(st) && WEXITSTATUS(st) == 71) { fprintf(stderr, "worker reported a machinery error\n"); return 71; }
      // ended by a signal inside a run
      u64 idx = sh[id].index;
      bool mine = !sh[id].foreign && sh[id].found != 2;
      if (mine)
      {
         Plan p = generate(o.prop, o.seed, idx);
         Outcome out = exec_child(p);
         if (!out.violated) mine = !out.done;
         else if (needs_counterfactual(p, out.cat)) { to_explicit(p); mine = attributable(p, out.cat); }
      }
      if (mine) { if (idx < ctl->best) ctl->best = idx; }
      else
      {
         ++foreign_crashes;
         ++ws[id].rejected;
      }
      if (++restarts < 3000) spawn(id, idx + o.workers);
   }
   const double t1 = now();
   // sum up
   WorkerStats *tot = shm<WorkerStats>();
   std::map<std::string, u64> pr;
   u64 done = 0, rejected = 0;
   for (u32 i = 0; i < o.workers; ++i)
   {
      u64 *a = (u64 *)&tot->stats;
      const u64 *b = (const u64 *)&ws[i].stats;
      for (size_t j = 0; j < sizeof(Stats) / sizeof(u64); ++j)
         if (&a[j] == &tot->stats.max_elems) a[j] = std::max(a[j], b[j]);
         else a[j] += b[j];
      for (u32 j = 0; j < ws[i].nprobes; ++j) pr[ws[i].probe[j].name] += ws[i].probe[j].n;
      for (u32 c = 0; c < MAXCLASS; ++c)
         for (u32 k = 0; k < MAXOPS; ++k)
         {
            OpStat &x = tot->ops[c][k];
            const OpStat &y = ws[i].ops[c][k];
            x.n += y.n;
            x.refused += y.refused;
            x.max_steps = std::max(x.max_steps, y.max_steps);
            x.max_stack = std::max(x.max_stack, y.max_stack);
         }
      for (u32 j = 0; j < 65536; ++j) tot->edges[j] |= ws[i].edges[j];
      tot->max_log_ratio = std::max(tot->max_log_ratio, ws[i].max_log_ratio);
      done += ws[i].done;
      rejected += ws[i].rejected;
   }
   const bool found = ctl->best != ~0ull;
   u64 digest = 0;
   std::set<u64> dh, ds, dn;
   for (u64 i = 0; i < o.runs; ++i)
      if (rec[i].hash)
      {
         digest = mix2(digest, mix2(i, rec[i].hash));
         dh.insert(rec[i].hash);
         if (rec[i].nontrivial) dn.insert(rec[i].hash);
         if (rec[i].sched) ds.insert(rec[i].sched);
      }
   if (o.hashes) for (u64 i = 0; i < o.runs; ++i) printf("%llu %016llx %016llx\n", (unsigned long long)(o.start + i), (unsigned long long)rec[i].hash, (unsigned long long)rec[i].sched);
   Outcome out;
   memset(&out, 0, sizeof out);
   u32 tried = 0;
   u64 ops_before = 0, dec_before = 0;
   Plan p;
   int rc = 0;
   if (found)
   {
      const u64 idx = ctl->best;
      p = generate(o.prop, o.seed, idx);
      out = exec_child(p);
      if (!out.violated)
      {
         fprintf(stderr, "violation at run %llu does not come back in a fresh process\n", (unsigned long long)idx);
         rc = 4;
      }
      else
      {
         Plan q = p;
         to_explicit(q);
         ops_before = q.ops.size();
         dec_before = q.decisions.size();
         Outcome o2 = exec_child(q);
         Minimiser m;
         m.best = q;
         m.out = o2;
         if (!o2.violated || strcmp(cat_name(o2.cat), cat_name(out.cat)))
         {
            fprintf(stderr, "explicit schedule of run %llu behaves differently\n", (unsigned long long)idx);
            return 5;
         }
         m.go(o.min_time);
         p = m.best;
         tried = m.tried;
         // what is stored is the list of decisions the run really takes
         out = exec_child(p);
         Outcome again = exec_child(p);
         if (!out.violated || out.hash != again.hash || out.cat != again.cat || strcmp(out.msg, again.msg))
         {
            fprintf(stderr, "the minimised run does not repeat itself\n");
            return 5;
         }
         char note[256];
         snprintf(note, sizeof note, "found by VERIF_SEED=%llu at run %llu; %llu operations and %llu decisions before minimising, %zu and %zu after %u trials",
                  (unsigned long long)o.seed, (unsigned long long)idx, (unsigned long long)ops_before, (unsigned long long)dec_before, p.ops.size(), p.decisions.size(), tried);
         if (o.replay) save(o.replay, p, out, idx, note);
         printf("found [%s] %s %s (run %llu, %zu ops, %zu decisions): %s\n", cat_name(out.cat), out.cls, out.opname, (unsigned long long)idx, p.ops.size(), p.decisions.size(), out.msg);
         rc = 1;
      }
   }
   if (o.stats)
   {
      FILE *f = fopen(o.stats, "w");
      if (!f) bad("cannot write %s", o.stats);
      const Stats &s = tot->stats;
#define J(n) fprintf(f, "\"" #n "\": %llu, ", (unsigned long long)s.n)
      fprintf(f, "{");
      J(runs); J(steps); J(ops); J(switches_mid); J(switches_op); J(allocs); J(refusals); J(reclaims); J(copy_refusals); J(cmp_refusals); J(refused_ops);
      J(burst_ops); J(noalloc_ops); J(overlaps); J(verifications); J(foreign); J(known); J(elements); J(fills); J(reuse); J(contended); J(max_elems);
      u32 e = 0;
      for (u32 j = 0; j < 65536; ++j) e += tot->edges[j];
      fprintf(f, "\"done\": %llu, \"rejected\": %llu, \"foreign_crashes\": %u, \"distinct_histories\": %zu, \"distinct_schedules\": %zu, \"distinct_nontrivial\": %zu, ",
              (unsigned long long)done, (unsigned long long)rejected, foreign_crashes, dh.size(), ds.size(), dn.size());
      fprintf(f, "\"edges_hit\": %u, \"edges_total\": %u, \"digest\": \"%016llx\", \"search_s\": %.3f, \"total_s\": %.3f, \"workers\": %u, \"max_log_ratio\": %llu, \"timed_out\": %s,\n",
              e, sim_edge_count(), (unsigned long long)digest, t1 - t0, now() - t0, o.workers, (unsigned long long)tot->max_log_ratio, t1 > end ? "true" : "false");
      fprintf(f, "\"probes\": {");
      const char *sep = "";
      for (auto &x: pr) { fprintf(f, "%s%s: %llu", sep, json_str(x.first).c_str(), (unsigned long long)x.second); sep = ", "; }
      fprintf(f, "},\n\"operations\": {");
      sep = "";
      for (size_t c = 0; c < classes().size(); ++c)
         for (size_t k = 0; k < classes()[c]->ops.size(); ++k)
            if (tot->ops[c][k].n)
            {
               const OpStat &x = tot->ops[c][k];
               fprintf(f, "%s%s: [%llu, %llu, %llu, %llu]", sep, json_str(std::string(classes()[c]->name) + "." + classes()[c]->ops[k].name).c_str(),
                       (unsigned long long)x.n, (unsigned long long)x.refused, (unsigned long long)x.max_steps, (unsigned long long)x.max_stack);
               sep = ", ";
            }
      fprintf(f, "},\n\"samples\": [");
      for (u32 i = 0; i < 3 && i < o.runs; ++i) fprintf(f, "%s%s", i ? ", " : "", json_str(plan_text(generate(o.prop, o.seed, o.start + i * 7))).c_str());
      fprintf(f, "]");
      if (rc == 1)
         fprintf(f, ",\n\"violation\": {\"cat\": %s, \"class\": %s, \"op\": %s, \"message\": %s, \"index\": %llu, \"ops\": %zu, \"decisions\": %zu, \"ops_before\": %llu, \"decisions_before\": %llu, \"hash\": \"%016llx\", \"tried\": %u}",
                 json_str(cat_name(out.cat)).c_str(), json_str(out.cls).c_str(), json_str(out.opname).c_str(), json_str(out.msg).c_str(),
                 (unsigned long long)ctl->best, p.ops.size(), p.decisions.size(), (unsigned long long)ops_before, (unsigned long long)dec_before, (unsigned long long)out.hash, tried);
      fprintf(f, "}\n");
      fclose(f);
   }
   return rc;
}
static int replay(const char *file)
{
   Plan p;
   std::string expect;
   u64 hash = 0;
   if (!load(file, p, expect, hash)) { fprintf(stderr, "not a replay file: %s\n", file); return 2; }
   Outcome o = exec_child(p);
   if (!o.violated) { printf("no violation; expected %s\n", expect.c_str()); return 0; }
   printf("[%s] %s %s op %u: %s\nhash %016llx (file: %016llx)\n", cat_name(o.cat), o.cls, o.opname, o.op, o.msg, (unsigned long long)o.hash, (unsigned long long)hash);
   if (expect != cat_name(o.cat) || hash != o.hash) { printf("differs from the file\n"); return 3; }
   return 1;
}
}

int main(int argc, char **argv)
{
   using namespace sim;
   define_old_vectors(); define_old_lists(); define_old_trees(); define_old_flat();
   define_lists(); define_slists(); define_queues(); define_vectors(); define_maps(); define_sets(); define_trees(); define_flat(); define_jobs();
   const char *known = getenv("SIM_KNOWN");
   known_list_erase_range = known && strstr(known, "list-erase-range-keeps-last");
   std::string cmd = argc > 1 ? argv[1] : "";
   if (cmd == "replay" && argc > 2) return replay(argv[2]);
   Options o;
   for (int i = 2; i + 1 < argc; i += 2)
   {
      std::string a = argv[i];
      const char *v = argv[i + 1];
      if (a == "--prop") o.prop = atoi(v);
      else if (a == "--seed") o.seed = strtoull(v, 0, 10);
      else if (a == "--runs") o.runs = strtoull(v, 0, 10);
      else if (a == "--start") o.start = strtoull(v, 0, 10);
      else if (a == "--workers") o.workers = atoi(v);
      else if (a == "--time") o.time = atof(v);
      else if (a == "--min-time") o.min_time = atof(v);
      else if (a == "--stats") o.stats = v;
      else if (a == "--replay") o.replay = v;
      else if (a == "--fork-each") o.fork_each = atoi(v);
      else if (a == "--huge") all_huge = atoi(v);
      else if (a == "--lengthy") all_lengthy = atoi(v);
      else if (a == "--hashes") o.hashes = atoi(v);
      else { fprintf(stderr, "unknown option %s\n", argv[i]); return 2; }
   }
   if (cmd == "search" && ((o.prop >= 1 && o.prop <= 13) || o.prop == 17 || o.prop == 18)) return search(o);
   if (cmd == "one")
   {
      Plan p = generate(o.prop, o.seed, o.start);
      printf("%s\n", plan_text(p).c_str());
      Outcome r = exec_child(p);
      printf("violated=%u [%s] %s %s: %s hash %016llx\n", r.violated, r.violated ? cat_name(r.cat) : "", r.cls, r.opname, r.msg, (unsigned long long)r.hash);
      return 0;
   }
   if (cmd == "classes")
   {
      for (auto *c: classes()) { printf("%s:", c->name); for (auto &x: c->ops) printf(" %s", x.name); printf("\n"); }
      return 0;
   }
   fprintf(stderr, "usage: simttl search|replay|one|classes ...\n");
   return 2;
}
