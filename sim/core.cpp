// Scheduler, processes, virtual files and pipes, choices.
#include "internal.h"
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <getopt.h>
#include <linux/futex.h>
#include <link.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim
{
thread_local Tls tls;
World *W = nullptr;
Run *R = nullptr;

u64 mix (u64 a, u64 b)
{
    u64 z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
u64 hash_bytes (const Bytes &s)
{
    u64 h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix (h, s.size ());
}
std::string fmt (const char *f, ...)
{
    char b[4096];
    va_list ap;
    va_start (ap, f);
    vsnprintf (b, sizeof b, f, ap);
    va_end (ap);
    return b;
}

// ---------------------------------------------------------------- choices
static u64 next_raw (const std::string &stream, u64 &idx)
{
    idx = R->idx[stream]++;
    ++R->made;
    return mix (mix (R->seed, hash_bytes (stream)), idx);
}
static u64 settle (const std::string &stream, u64 idx, u64 gen, u64 n)
{
    u64 v = gen;
    if (R->replay)
    {
        auto i = R->given.find ({stream, idx});
        v = i == R->given.end () ? 0 : (n ? i->second % n : i->second);
    }
    if (v)
        R->recorded.push_back ({stream, idx, v});
    return v;
}
static double unit (u64 r) { return (r >> 11) * (1.0 / 9007199254740992.0); }
u64 choose (const std::string &s, u64 n)
{
    HostScope hs;
    if (n <= 1) return 0;
    u64 i, r = next_raw (s, i);
    return settle (s, i, r % n, n);
}
static u64 skewed (u64 r, u64 n)
{
    if (n <= 1) return 0;
    const int bits = 64 - __builtin_clzll (n - 1);
    const int b = (r >> 58) % (bits + 1);
    u64 v = mix (r, 77);
    v = b == 0 ? 0 : (b >= 64 ? v : (v & ((1ull << b) - 1)));
    return v % n;
}
u64 skew (const std::string &s, u64 n)
{
    HostScope hs;
    if (n <= 1) return 0;
    u64 i, r = next_raw (s, i);
    return settle (s, i, skewed (r, n), n);
}
bool chance (const std::string &s, double p)
{
    HostScope hs;
    if (p <= 0) return false;
    u64 i, r = next_raw (s, i);
    return settle (s, i, unit (r) < p ? 1 : 0, 2) != 0;
}
u64 raw64 (const std::string &s)
{
    HostScope hs;
    u64 i, r = next_raw (s, i);
    return settle (s, i, r, 0);
}
u64 maybe (const std::string &s, double p, u64 n)
{
    HostScope hs;
    if (n <= 1) return 0;
    u64 i, r = next_raw (s, i);
    return settle (s, i, unit (r) < p ? 1 + mix (r, 5) % (n - 1) : 0, n);
}
u64 maybe_skew (const std::string &s, double p, u64 n)
{
    HostScope hs;
    if (n <= 1) return 0;
    u64 i, r = next_raw (s, i);
    return settle (s, i, unit (r) < p ? 1 + skewed (mix (r, 6), n - 1) : 0, n);
}

// ---------------------------------------------------------------- run state
void violate (const std::string &cls, const std::string &detail)
{
    HostScope hs;
    if (R->viol_cls.empty ())
    {
        R->viol_cls = cls;
        R->viol_detail = detail;
    }
    if (R->verb) R->log.push_back ("VIOLATED " + cls + ": " + detail);
}
bool violated () { return !R->viol_cls.empty (); }
void note (const std::string &k, u64 n) { HostScope hs; if (n) R->notes[k] += n; }
void sample (const std::string &t) { HostScope hs; R->desc += t; if (R->verb) R->log.push_back ("# " + t); }
void nontrivial () { R->nontriv = true; }
bool verbose () { return R->verb; }
bool thorough () { return R->thorough; }
void tr (const std::string &t)
{
    HostScope hs;
    R->hash = mix (R->hash, hash_bytes (t));
    if (R->verb) R->log.push_back (t);
}
void tr (int kind, u64 a, u64 b, u64 c)
{
    R->hash = mix (mix (R->hash, kind), mix (a, mix (b, c)));
    if (R->verb)
    {
        HostScope hs;
        static const char *names[] = {"?", "read", "write", "open", "close", "seek", "switch", "preempt", "exit", "region", "worker", "sleep", "kill", "alloc-fail", "fault", "stat", "unlink", "rename", "spawn", "block", "clock", "bigalloc"};
        const char *nm = kind >= 0 && kind < int (sizeof names / sizeof *names) ? names[kind] : "ev";
        R->log.push_back (fmt ("%8llu %-16s %-9s %lld %lld %lld", W ? (unsigned long long) W->events : 0ull,
            tls.cur && tls.cur->proc ? (tls.cur->proc->spec.name + "." + std::to_string (tls.cur->id)).c_str () : "-",
            nm, (long long) a, (long long) b, (long long) c));
    }
}

// ---------------------------------------------------------------- std stream images
void StdImage::save ()
{
    memcpy (cin, &std::cin, sizeof cin);
    memcpy (cout, &std::cout, sizeof cout);
    memcpy (cerr, &std::cerr, sizeof cerr);
    memcpy (clog, &std::clog, sizeof clog);
    in = stdin; out = stdout; err = stderr;
    oi = optind; oe = opterr; oo = optopt; oa = optarg;
}
void StdImage::load () const
{
    memcpy ((void *) &std::cin, cin, sizeof cin);
    memcpy ((void *) &std::cout, cout, sizeof cout);
    memcpy ((void *) &std::cerr, cerr, sizeof cerr);
    memcpy ((void *) &std::clog, clog, sizeof clog);
    stdin = in; stdout = out; stderr = err;
    optind = oi; opterr = oe; optopt = oo; optarg = oa;
}
static StdImage host_img, pristine;
static bool have_pristine = false;
static Proc *img_owner = nullptr; // whose images are live; null: host

static void images_to (Proc *p)
{
    if (img_owner == p) return;
    (img_owner ? img_owner->impl->img : host_img).save ();
    (p ? p->impl->img : host_img).load ();
    img_owner = p;
}

// ---------------------------------------------------------------- threads
static void futex_wait (std::atomic<int> &a)
{
    while (a.load (std::memory_order_acquire) == 0)
        syscall (SYS_futex, &a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    a.store (0, std::memory_order_relaxed);
}
static void futex_wake (std::atomic<int> &a)
{
    a.store (1, std::memory_order_release);
    syscall (SYS_futex, &a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

struct WorldImpl
{
    std::vector<Thread *> threads; // live ones, by id
    std::vector<Thread *> pool;
    std::atomic<int> main_go {0};
    Thread *current = nullptr;
    int next_id = 0;
    u64 last_switch_sig = 0;
};
static WorldImpl *WI = nullptr;

[[noreturn]] static void *thread_main (void *arg)
{
    Thread *t = static_cast<Thread *> (arg);
    tls.cur = t;
    for (;;)
    {
        futex_wait (t->go);
        t->body ();
        t->body = nullptr;
        HostScope hs;
        tls.in_app = false;
        extern void thread_finished (Thread *);
        thread_finished (t);
    }
}

Thread *new_thread (Proc *p, std::function<void ()> body)
{
    HostScope hs;
    Thread *t = nullptr;
    if (!WI->pool.empty ())
    {
        t = WI->pool.back ();
        WI->pool.pop_back ();
    }
    else
    {
        t = new Thread;
        pthread_attr_t a;
        pthread_attr_init (&a);
        pthread_attr_setstacksize (&a, 2u << 20);
        static auto real_create = (int (*) (pthread_t *, const pthread_attr_t *, void *(*) (void *), void *)) dlsym (RTLD_NEXT, "pthread_create");
        if (real_create (&t->pt, &a, (void *(*) (void *)) thread_main, t) != 0)
            abort ();
        pthread_attr_destroy (&a);
    }
    t->id = WI->next_id++;
    t->proc = p;
    t->world = W;
    t->done = t->dead = false;
    t->ready = nullptr;
    t->wake_at = 0;
    t->team = nullptr;
    t->tnum = 0;
    t->ws_index = 0;
    t->preempt_left = -1;
    t->body = std::move (body);
    WI->threads.push_back (t);
    if (p) p->impl->threads.push_back (t);
    return t;
}

static void hand_to_main ()
{
    images_to (nullptr);
    WI->current = nullptr;
    futex_wake (WI->main_go);
}

// The current thread (or the main context) gives the token to whoever the seed says.  Returns when it has it again.
static bool pick_and_go (bool self_gone)
{
    Thread *self = tls.cur;
    for (;;)
    {
        std::vector<Thread *> run;
        u64 min_wake = UINT64_MAX;
        for (size_t i = 0; i < WI->threads.size (); ++i)
        {
            Thread *t = WI->threads[i];
            if (t->done || t->dead) continue;
            if (t->wake_at > W->now) { min_wake = std::min (min_wake, t->wake_at); continue; }
            if (t->ready && !t->ready ()) continue;
            run.push_back (t);
        }
        if (run.empty ())
        {
            if (min_wake != UINT64_MAX) { W->now = min_wake; continue; }
            bool live = false;
            for (auto t : WI->threads) if (!t->done && !t->dead) live = true;
            if (live && W->on_quiescent && W->on_quiescent ()) continue;
            if (live) W->stuck = "deadlock";
            hand_to_main ();
            return false;
        }
        // rotate so that index 0 is "keep running" (or the next in line)
        size_t at = 0;
        const int cid = self ? self->id : -1;
        for (size_t i = 0; i < run.size (); ++i)
            if (run[i]->id >= cid) { at = i; break; }
        u64 k = 0;
        if (run.size () > 1)
        {
            const bool self_can = !self_gone && run[at] == self;
            k = self_can ? maybe ("sched", W->p_switch, run.size ()) : choose ("sched", run.size ());
        }
        Thread *t = run[(at + k) % run.size ()];
        if (t == self && !self_gone) return true;
        t->ready = nullptr;
        ++W->switches;
        W->sched_sig = mix (W->sched_sig, t->id);
        tr (6, t->id, run.size ());
        WI->current = t;
        images_to (t->proc);
        futex_wake (t->go);
        return false;
    }
}

[[noreturn]] void park_forever ()
{
    for (;;)
        syscall (SYS_pause);
}

void thread_finished (Thread *t)
{
    t->done = true;
    auto drop = [&] (std::vector<Thread *> &v) { for (size_t i = 0; i < v.size (); ++i) if (v[i] == t) { v.erase (v.begin () + i); return; } };
    drop (WI->threads);
    if (t->proc) drop (t->proc->impl->threads);
    WI->pool.push_back (t); // before the token is handed over: whoever gets it may reuse us
    pick_and_go (true);
}

void yield (const char *)
{
    HostScope hs;
    Thread *self = tls.cur;
    if (!self) return;
    if (!pick_and_go (false))
        futex_wait (self->go);
    die_if_dead ();
}
void block (const char *, std::function<bool ()> ready)
{
    HostScope hs;
    Thread *self = tls.cur;
    if (ready ()) return;
    tr (19, 0);
    self->ready = std::move (ready);
    if (!pick_and_go (true))
        futex_wait (self->go);
    self->ready = nullptr;
    die_if_dead ();
}
void sleep_ns (u64 ns)
{
    HostScope hs;
    Thread *self = tls.cur;
    if (!self || ns == 0) return;
    self->wake_at = W->now + ns;
    tr (11, ns);
    if (!pick_and_go (true))
        futex_wait (self->go);
    die_if_dead ();
}
void die_if_dead ()
{
    if (tls.cur && tls.cur->dead)
        park_forever ();
}

void budget_exceeded (const char *what)
{
    HostScope hs;
    W->stuck = std::string ("budget:") + what + (tls.cur && tls.cur->proc ? ":" + tls.cur->proc->spec.name : "");
    for (auto t : WI->threads) t->dead = true;
    hand_to_main ();
    park_forever ();
}

// ---------------------------------------------------------------- processes
std::string Proc::status () const
{
    if (st == St::running) return "running";
    if (st == St::exited) return fmt ("exit %d", code);
    return fmt ("signal %d (%s)", code, term.c_str ());
}
Bytes Proc::err_text () const { return err_sink ? err_sink->data : Bytes (); }

static void close_all (Proc &p)
{
    std::vector<int> v;
    for (auto &f : p.fds) v.push_back (f.first);
    for (int fd : v) fd_close (p, fd);
}
void finish_proc (Proc *p, St st, int code, const std::string &why)
{
    HostScope hs;
    if (p->st != St::running) return;
    p->st = st;
    p->code = st == St::exited ? (code & 0xff) : code;
    p->term = why;
    for (auto t : p->impl->threads) if (t != tls.cur) t->dead = true;
    close_all (*p);
    tr (8, st == St::exited, u64 (p->code));
}
void kill_proc (Proc *p, int sig)
{
    HostScope hs;
    if (p->st != St::running) return;
    for (auto t : p->impl->threads) t->dead = true;
    p->st = St::signalled;
    p->code = sig;
    p->term = "killed";
    close_all (*p);
    tr (12, p->id, sig);
    note (fmt ("fault.kill"));
}
static void leave_for_ever ()
{
    // current thread belongs to a finished process
    tls.cur->dead = true;
    pick_and_go (true);
    park_forever ();
}
void proc_exit_from_app (int code, bool flush)
{
    Proc *p = tls.cur->proc;
    if (p->impl->exiting) { HostScope hs; leave_for_ever (); }
    p->impl->exiting = true;
    if (flush)
    {
        // what exit() does: flush the standard streams; errors are lost
        try { std::cout.flush (); } catch (...) {}
        try { std::cerr.flush (); std::clog.flush (); } catch (...) {}
        HostScope hs;
        fflush (p->impl->fout);
        fflush (p->impl->ferr);
    }
    HostScope hs;
    finish_proc (p, St::exited, code, "exit");
    leave_for_ever ();
    __builtin_unreachable ();
}
void proc_signal_from_app (int sig, const std::string &why)
{
    HostScope hs;
    Proc *p = tls.cur ? tls.cur->proc : nullptr;
    if (!p) { fprintf (stderr, "fatal: signal %d in host: %s\n", sig, why.c_str ()); _exit (97); }
    finish_proc (p, St::signalled, sig, why);
    leave_for_ever ();
    __builtin_unreachable ();
}

void sys_event (int kind, u64 a, u64 b)
{
    HostScope hs;
    Thread *t = tls.cur;
    if (!t || !t->proc) return;
    Proc &p = *t->proc;
    ++W->events;
    ++p.events;
    W->now += 1000;
    tr (kind, a, b, p.events);
    if (!W->at_event.empty ())
    {
        auto i = W->at_event.begin ();
        while (i != W->at_event.end () && i->first <= W->events)
        {
            auto f = i->second;
            W->at_event.erase (i);
            f ();
            i = W->at_event.begin ();
        }
    }
    if (t->dead) { pick_and_go (true); park_forever (); }
    if (W->on_event) W->on_event (p);
    if (p.spec.kill_at >= 0 && p.events > u64 (p.spec.kill_at) && p.st == St::running)
    {
        kill_proc (&p, 9);
        pick_and_go (true);
        park_forever ();
    }
    if (t->dead) { pick_and_go (true); park_forever (); }
    if (W->events > W->max_events) budget_exceeded ("events");
    yield ("event");
}

// ---------------------------------------------------------------- memory-level preemption of worker threads
void preempt_point ()
{
    HostScope hs;
    Thread *t = tls.cur;
    ++W->preempts;
    tr (7, t->id);
    // next slice
    if (W->p_preempt > 0)
    {
        const u64 g = maybe_skew ("slice", 0.9, W->preempt_gap);
        t->preempt_left = g ? long (g) : 100000000;
    }
    else
        t->preempt_left = -1;
    std::vector<Thread *> run;
    for (auto u : WI->threads)
        if (u != t && !u->done && !u->dead && u->proc == t->proc && u->wake_at <= W->now && (!u->ready || u->ready ()))
            run.push_back (u);
    if (run.empty ()) return;
    Thread *u = run[choose ("preempt", run.size ())];
    u->ready = nullptr;
    W->sched_sig = mix (W->sched_sig, u->id);
    WI->current = u;
    futex_wake (u->go);
    futex_wait (t->go);
    die_if_dead ();
}

// ---------------------------------------------------------------- world
World::World ()
{
    HostScope hs;
    if (!have_pristine) { pristine.save (); have_pristine = true; }
    WI = new WorldImpl;
    W = this;
    img_owner = nullptr;
}
World::~World ()
{
    HostScope hs;
    images_to (nullptr);
    R->sim_ns += now;
    R->sig = mix (R->sig, sched_sig);
    note ("sim.switches", switches);
    note ("sim.preempts", preempts);
    note ("sim.preempts_directed", directed);
    note ("sim.regions", regions);
    note ("sim.events", events);
    // threads of killed processes stay parked; the child process ends soon
    if (W == this) W = nullptr;
}

static ssize_t ck_read (void *c, char *b, size_t n)
{
    Proc *p = tls.cur ? tls.cur->proc : nullptr;
    const i64 r = p ? fd_read (*p, int (intptr_t (c)), b, n, false) : 0;
    if (r < 0) { errno = int (-r); return -1; }
    return r;
}
static ssize_t ck_write (void *c, const char *b, size_t n)
{
    Proc *p = tls.cur ? tls.cur->proc : nullptr;
    if (!p) return 0;
    size_t done = 0; // like the kernel file behind stdio: a short write is continued by stdio, which cookies do not do
    while (done < n)
    {
        const i64 r = fd_write (*p, int (intptr_t (c)), b + done, n - done, false);
        if (r < 0) { errno = int (-r); return done; }
        done += r;
    }
    return done;
}

struct Module
{
    std::string name;
    struct Slot { void *h; std::vector<std::pair<char *, Bytes>> data; Proc *user = nullptr; };
    std::vector<Slot> slots;
};
static std::map<std::string, Module> modules;

void modules_load (const std::string &dir, const Strs &names, int nslots)
{
    for (auto &n : names)
    {
        Module m;
        m.name = n;
        for (int i = 0; i < nslots; ++i)
        {
            const std::string fn = dir + "/" + n + "." + std::to_string (i) + ".so";
            if (access (fn.c_str (), R_OK) != 0) break;
            if (n == "spocpy" && !dlopen ("libpython3.12.so.1.0", RTLD_NOW | RTLD_GLOBAL)) { fprintf (stderr, "%s\n", dlerror ()); _exit (2); }
            void *h = dlopen (fn.c_str (), RTLD_NOW | RTLD_LOCAL);
            if (!h) { fprintf (stderr, "cannot load %s: %s\n", fn.c_str (), dlerror ()); _exit (2); }
            Module::Slot s;
            s.h = h;
            struct Ctx { const char *fn; std::vector<std::pair<char *, Bytes>> *out; } ctx {fn.c_str (), &s.data};
            dl_iterate_phdr ([] (struct dl_phdr_info *info, size_t, void *vc) -> int {
                auto c = static_cast<Ctx *> (vc);
                if (!info->dlpi_name || strcmp (info->dlpi_name, c->fn) != 0) return 0;
                u64 rlo = 0, rhi = 0;
                for (int k = 0; k < info->dlpi_phnum; ++k)
                    if (info->dlpi_phdr[k].p_type == PT_GNU_RELRO)
                    {
                        rlo = info->dlpi_addr + info->dlpi_phdr[k].p_vaddr;
                        rhi = rlo + info->dlpi_phdr[k].p_memsz;
                        rhi = (rhi + 4095) & ~4095ull; // whole pages were protected
                    }
                for (int k = 0; k < info->dlpi_phnum; ++k)
                {
                    auto &ph = info->dlpi_phdr[k];
                    if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_W)) continue;
                    u64 lo = info->dlpi_addr + ph.p_vaddr, hi = lo + ph.p_memsz;
                    if (rlo <= lo && rhi > lo) lo = rhi;
                    if (lo < hi)
                        c->out->push_back ({(char *) lo, Bytes ((char *) lo, hi - lo)});
                }
                return 1;
            }, &ctx);
            // a module with an interpreter is started once, outside any simulated process, and keeps its memory
            auto boot = reinterpret_cast<void (*) ()> (dlsym (h, "module_boot"));
            if (boot) { boot (); s.data.clear (); }
            m.slots.push_back (std::move (s));
            if (boot) break;
        }
        modules[n] = std::move (m);
    }
}
void *module_symbol (const std::string &module, const std::string &symbol)
{
    auto i = modules.find (module);
    if (i == modules.end () || i->second.slots.empty ()) return nullptr;
    return dlsym (i->second.slots[0].h, symbol.c_str ());
}

struct ModMissing {};

static void *acquire (Proc *p)
{
    auto i = modules.find (p->spec.module);
    if (i == modules.end ()) { fprintf (stderr, "no module %s\n", p->spec.module.c_str ()); _exit (96); }
    for (auto &s : i->second.slots)
        if (!s.user || s.user->dead ())
        {
            s.user = p;
            for (auto &d : s.data) memcpy (d.first, d.second.data (), d.second.size ());
            void *f = dlsym (s.h, p->spec.entry.c_str ());
            if (!f) { fprintf (stderr, "no symbol %s in %s\n", p->spec.entry.c_str (), p->spec.module.c_str ()); _exit (96); }
            return f;
        }
    fprintf (stderr, "out of slots for %s\n", p->spec.module.c_str ());
    _exit (96);
}

std::pair<OfdP, OfdP> make_pipe (size_t cap, const std::string &name)
{
    auto b = std::make_shared<PipeBuf> ();
    b->cap = cap ? cap : 1;
    auto r = std::make_shared<PipeR> ();
    auto w = std::make_shared<PipeW> ();
    r->b = w->b = b;
    r->name = r->stream = name + ".r";
    w->name = w->stream = name + ".w";
    b->readers = b->writers = 1;
    return {r, w};
}
std::shared_ptr<Source> make_source (const Bytes &b, const std::string &name)
{
    auto s = std::make_shared<Source> ();
    s->data = b;
    s->name = s->stream = name;
    return s;
}
std::shared_ptr<Sink> make_sink (const std::string &name)
{
    auto s = std::make_shared<Sink> ();
    s->name = s->stream = name;
    return s;
}

Proc *World::spawn (Spec sp)
{
    HostScope hs;
    Proc *p = new Proc;
    p->spec = std::move (sp);
    p->id = int (procs.size ());
    if (!p->spec.pid) p->spec.pid = 1000 + p->id;
    p->impl = new Proc::Impl;
    if (p->spec.name.empty ()) p->spec.name = p->spec.module;
    procs.push_back (p);
    if (!p->spec.in) p->spec.in = make_source ("", p->spec.name + ".in");
    if (!p->spec.out) { p->out_sink = make_sink (p->spec.name + ".out"); p->spec.out = p->out_sink; }
    else p->out_sink = std::dynamic_pointer_cast<Sink> (p->spec.out);
    if (!p->spec.err) { p->err_sink = make_sink (p->spec.name + ".err"); p->err_sink->keep = 65536; p->spec.err = p->err_sink; }
    else p->err_sink = std::dynamic_pointer_cast<Sink> (p->spec.err);
    p->fds[0] = p->spec.in;
    p->fds[1] = p->spec.out;
    p->fds[2] = p->spec.err;
    for (int i = 0; i < 3; ++i) ++p->fds[i]->refs;
    Proc::Impl &m = *p->impl;
    cookie_io_functions_t fr {ck_read, nullptr, nullptr, nullptr}, fw {nullptr, ck_write, nullptr, nullptr};
    m.fin = fopencookie ((void *) 0, "r", fr);
    m.fout = fopencookie ((void *) 1, "w", fw);
    m.ferr = fopencookie ((void *) 2, "w", fw);
    extern void fsetlocking_off (FILE *);
    for (FILE *f : {m.fin, m.fout, m.ferr}) fsetlocking_off (f);
    const size_t bs = p->spec.stdio_buf ? p->spec.stdio_buf : 4096;
    m.bin.resize (bs);
    m.bout.resize (bs);
    setvbuf (m.fin, m.bin.data (), _IOFBF, bs);
    setvbuf (m.fout, m.bout.data (), _IOFBF, bs);
    setvbuf (m.ferr, nullptr, _IONBF, 0);
    images_to (nullptr);
    {
        StdImage save;
        save.save ();
        pristine.load ();
        std::cin.rdbuf (new (m.sbin) __gnu_cxx::stdio_sync_filebuf<char> (m.fin));
        auto ob = new (m.sbout) __gnu_cxx::stdio_sync_filebuf<char> (m.fout);
        std::cout.rdbuf (ob);
        auto eb = new (m.sberr) __gnu_cxx::stdio_sync_filebuf<char> (m.ferr);
        std::cerr.rdbuf (eb);
        std::clog.rdbuf (eb);
        stdin = m.fin; stdout = m.fout; stderr = m.ferr;
        optind = 0; opterr = 1; optopt = '?'; optarg = nullptr;
        m.img.save ();
        save.load ();
    }
    m.argv_store.push_back ("spoc_" + p->spec.module);
    for (auto &a : p->spec.args) m.argv_store.push_back (a);
    for (auto &a : m.argv_store) m.argv.push_back (&a[0]);
    m.argv.push_back (nullptr);
    m.rnd = mix (R->seed, 4242 + p->id);
    void *f = acquire (p);
    tr (18, p->id, hash_bytes (p->spec.module));
    m.main = new_thread (p, [p, f] {
        Proc::Impl &m = *p->impl;
        sys_event (18, 0);
        int rc;
        tls.in_app = true;
        if (p->spec.entry == "main")
            rc = reinterpret_cast<int (*) (int, char **)> (f) (int (m.argv.size ()) - 1, m.argv.data ());
        else
            rc = reinterpret_cast<int (*) (void *)> (f) (p->spec.user);
        proc_exit_from_app (rc, true);
    });
    if (p->spec.start_at) m.main->wake_at = p->spec.start_at;
    return p;
}

void World::run ()
{
    HostScope hs;
    tls.cur = nullptr;
    if (!pick_and_go (true))
    {
        while (WI->main_go.load (std::memory_order_acquire) == 0)
            syscall (SYS_futex, &WI->main_go, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
        WI->main_go.store (0);
    }
    images_to (nullptr);
    mem_check_all ();
}

// ---------------------------------------------------------------- file systems and descriptors
InodeP Fs::put (const std::string &path, const Bytes &data)
{
    auto i = std::make_shared<Inode> ();
    i->path = path;
    i->data = data;
    files[path] = i;
    return i;
}
const Bytes &Fs::get (const std::string &path) const
{
    static const Bytes none;
    auto i = files.find (path);
    return i == files.end () ? none : i->second->data;
}

// how much of a transfer of n bytes happens this time
static size_t clip (Ofd &o, const char *dir, size_t n)
{
    if (n > 1 && o.f.p_short > 0)
    {
        const u64 cut = maybe_skew (o.stream + dir, o.f.p_short, n);
        if (cut) { ++o.f.fired_short; note ("fault.short_transfer"); return cut; } // 1..n-1
    }
    return n;
}
static void delay (Ofd &o)
{
    if (o.f.p_delay > 0)
    {
        const u64 d = maybe_skew (o.stream + ".delay", o.f.p_delay, 1000000000ull);
        if (d) { note ("fault.delay"); sleep_ns (d); }
    }
}
static i64 rd_gate (Ofd &o, size_t &n)
{
    if (o.f.rd_fail_at >= 0)
    {
        const u64 lim = o.f.rd_fail_at;
        if (o.rd_off >= lim)
        {
            ++o.f.fired_rd;
            note (o.f.rd_errno ? "fault.read_error" : "fault.premature_eof");
            tr (14, o.f.rd_errno, o.rd_off);
            return o.f.rd_errno ? -o.f.rd_errno : 1; // 1: EOF
        }
        n = std::min<u64> (n, lim - o.rd_off);
    }
    return 0;
}
static i64 wr_gate (Ofd &o, size_t &n)
{
    if (o.f.wr_fail_at >= 0 && o.f.wr_fail_times != 0)
    {
        const u64 lim = o.f.wr_fail_at;
        if (o.wr_off >= lim)
        {
            ++o.f.fired_wr;
            if (o.f.wr_fail_times > 0) --o.f.wr_fail_times;
            note (fmt ("fault.write_error.%s", o.f.wr_errno == ENOSPC ? "ENOSPC" : o.f.wr_errno == EPIPE ? "EPIPE" : "EIO"));
            tr (14, o.f.wr_errno, o.wr_off);
            return -o.f.wr_errno;
        }
        n = std::min<u64> (n, lim - o.wr_off);
    }
    return 0;
}
static i64 sigpipe (Proc &p)
{
    note ("fault.broken_pipe");
    if (!p.spec.ignore_sigpipe)
        proc_signal_from_app (SIGPIPE, "SIGPIPE");
    return -EPIPE;
}

i64 RegOfd::read (Proc &, char *b, size_t n)
{
    if (n == 0) return 0;
    const i64 g = rd_gate (*this, n);
    if (g < 0) return g;
    if (g == 1) return 0;
    if (ino->is_dir) return -EISDIR;
    if (pos >= ino->data.size ()) return 0;
    n = std::min<u64> (n, ino->data.size () - pos);
    n = clip (*this, ".rd", n);
    memcpy (b, ino->data.data () + pos, n);
    pos += n;
    rd_off += n;
    return n;
}
i64 RegOfd::write (Proc &, const char *b, size_t n)
{
    if (n == 0) return 0;
    i64 g = wr_gate (*this, n);
    if (g < 0) return g;
    n = clip (*this, ".wr", n);
    if (flags & O_APPEND) pos = ino->data.size ();
    const u64 end = pos + n;
    if (end > ino->data.size ())
    {
        const u64 grow = end - ino->data.size ();
        if (grow > W->fs.free_bytes)
        {
            const u64 over = grow - W->fs.free_bytes;
            if (over >= n) { note ("fault.write_error.ENOSPC"); ++f.fired_wr; tr (14, ENOSPC, wr_off); return -ENOSPC; }
            n -= over;
        }
        const u64 e2 = pos + n;
        if (e2 > ino->data.size ())
        {
            if (W->fs.free_bytes != UINT64_MAX) W->fs.free_bytes -= e2 - ino->data.size ();
            ino->data.resize (e2);
        }
    }
    memcpy (&ino->data[pos], b, n);
    pos += n;
    wr_off += n;
    ++ino->mods;
    return n;
}
i64 RegOfd::seek (i64 off, int wh)
{
    i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? i64 (pos) : i64 (ino->data.size ());
    if (base + off < 0) return -EINVAL;
    pos = base + off;
    return pos;
}
i64 PipeR::read (Proc &, char *out, size_t n)
{
    if (n == 0) return 0;
    const i64 g = rd_gate (*this, n);
    if (g < 0) return g;
    if (g == 1) return 0;
    auto bb = b;
    block ("pipe", [bb] { return !bb->data.empty () || bb->writers == 0; });
    if (b->data.empty ()) return 0;
    n = std::min (n, b->data.size ());
    n = clip (*this, ".rd", n);
    memcpy (out, b->data.data (), n);
    b->data.erase (0, n);
    rd_off += n;
    return n;
}
i64 PipeW::write (Proc &p, const char *in, size_t n)
{
    if (n == 0) return 0;
    const i64 g = wr_gate (*this, n);
    if (g == -EPIPE) return sigpipe (p);
    if (g < 0) return g;
    auto bb = b;
    block ("pipe", [bb] { return bb->readers == 0 || bb->data.size () < bb->cap; });
    if (b->readers == 0) return sigpipe (p);
    n = std::min (n, b->cap - b->data.size ());
    n = clip (*this, ".wr", n);
    b->data.append (in, n);
    b->tee.append (in, n);
    b->total += n;
    wr_off += n;
    return n;
}
i64 Source::read (Proc &, char *b, size_t n)
{
    if (n == 0) return 0;
    const i64 g = rd_gate (*this, n);
    if (g < 0) return g;
    if (g == 1) return 0;
    const u64 end = gen ? UINT64_MAX : data.size ();
    if (rd_off >= avail && rd_off < end)
        block ("stall", [this] { return rd_off < avail; });
    n = std::min<u64> (n, std::min<u64> (end, avail) > rd_off ? std::min<u64> (end, avail) - rd_off : 0);
    if (n == 0) return 0;
    n = clip (*this, ".rd", n);
    if (gen) gen (rd_off, b, n);
    else memcpy (b, data.data () + rd_off, n);
    rd_off += n;
    return n;
}
i64 Sink::write (Proc &p, const char *b, size_t n)
{
    if (n == 0) return 0;
    const i64 g = wr_gate (*this, n);
    if (g == -EPIPE) return sigpipe (p);
    if (g < 0) return g;
    n = clip (*this, ".wr", n);
    if (data.size () < keep) data.append (b, std::min<u64> (n, keep - data.size ()));
    wr_off += n;
    accepted += n;
    return n;
}

OfdP fd_get (Proc &p, int fd)
{
    auto i = p.fds.find (fd);
    return i == p.fds.end () ? nullptr : i->second;
}
i64 fd_read (Proc &p, int fd, void *buf, size_t n, bool raw)
{
    HostScope hs;
    OfdP o = fd_get (p, fd);
    if (!o) return -EBADF;
    sys_event (1, fd, n);
    if (raw && o->f.p_eintr > 0 && chance (o->stream + ".eintr", o->f.p_eintr)) { ++o->f.fired_eintr; note ("fault.eintr"); return -EINTR; }
    delay (*o);
    const i64 r = o->read (p, static_cast<char *> (buf), n);
    tr (1, fd, u64 (r), r > 0 ? hash_bytes (Bytes (static_cast<char *> (buf), r)) : 0);
    return r;
}
i64 fd_write (Proc &p, int fd, const void *buf, size_t n, bool raw)
{
    HostScope hs;
    OfdP o = fd_get (p, fd);
    if (!o) return -EBADF;
    if (fd == 2) // stderr never blocks and is not a scheduling point (getopt's state is not reentrant)
    {
        tr (2, fd, n, hash_bytes (Bytes (static_cast<const char *> (buf), n)));
        return o->write (p, static_cast<const char *> (buf), n);
    }
    sys_event (2, fd, n);
    if (raw && o->f.p_eintr > 0 && chance (o->stream + ".eintr", o->f.p_eintr)) { ++o->f.fired_eintr; note ("fault.eintr"); return -EINTR; }
    delay (*o);
    const i64 r = o->write (p, static_cast<const char *> (buf), n);
    tr (2, fd, u64 (r), r > 0 ? hash_bytes (Bytes (static_cast<const char *> (buf), r)) : 0);
    return r;
}
int fd_close (Proc &p, int fd)
{
    HostScope hs;
    auto i = p.fds.find (fd);
    if (i == p.fds.end ()) return -EBADF;
    OfdP o = i->second;
    p.fds.erase (i);
    int r = 0;
    if (--o->refs == 0)
        r = o->released ();
    if (o->f.close_errno && p.st == St::running)
    {
        ++o->f.fired_close;
        note ("fault.close_error");
        tr (14, o->f.close_errno);
        r = -o->f.close_errno;
    }
    return r;
}
static std::string norm (const std::string &p)
{
    std::string q = p;
    while (q.compare (0, 2, "./") == 0) q.erase (0, 2);
    return q;
}
int fs_open (Proc &p, const std::string &path0, int flags)
{
    HostScope hs;
    const std::string path = norm (path0);
    sys_event (3, flags, hash_bytes (path));
    if (R->verb) R->log.push_back ("         open " + path);
    const bool wr = (flags & O_ACCMODE) != O_RDONLY;
    auto oe = W->fs.open_errno.find (path);
    if (oe != W->fs.open_errno.end () && oe->second) { note ("fault.open_error"); return -oe->second; }
    if (wr)
    {
        auto ce = W->fs.create_errno.find (path);
        if (ce != W->fs.create_errno.end () && ce->second) { note ("fault.open_error"); return -ce->second; }
    }
    if (path == "/dev/null")
    {
        auto s = make_sink ("null");
        s->keep = 0;
        const int fd = 100000 + p.impl->next_fd++;
        p.fds[fd] = s;
        s->refs = 1;
        return fd;
    }
    auto i = W->fs.files.find (path);
    InodeP ino;
    if (i == W->fs.files.end ())
    {
        if (!(flags & O_CREAT)) return -ENOENT;
        const size_t sl = path.rfind ('/');
        if (sl != std::string::npos && sl > 0)
        {
            auto d = W->fs.files.find (path.substr (0, sl));
            if (d == W->fs.files.end () || !d->second->is_dir) return -ENOENT;
        }
        ino = W->fs.put (path, "");
    }
    else
    {
        ino = i->second;
        if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
        if (ino->is_dir && wr) return -EISDIR;
        if ((flags & O_TRUNC) && wr)
        {
            if (W->fs.free_bytes != UINT64_MAX) W->fs.free_bytes += ino->data.size ();
            ino->data.clear ();
            ino->truncated = true;
            ++ino->mods;
        }
    }
    auto o = std::make_shared<RegOfd> ();
    o->ino = ino;
    o->flags = flags;
    o->name = path;
    o->stream = p.spec.name + ":" + path;
    auto ff = W->fs.faults.find (path);
    if (ff != W->fs.faults.end ()) o->f = ff->second;
    const int fd = 100000 + p.impl->next_fd++;
    p.fds[fd] = o;
    o->refs = 1;
    return fd;
}
std::vector<Scenario> &scenarios ()
{
    static std::vector<Scenario> v;
    return v;
}
} // namespace sim
