// OpenMP runtime of the simulated processes: teams of simulated threads, interleaved by the seed.
#include "internal.h"
#include <omp.h>

namespace sim
{
struct WorkShare
{
    bool init = false;
    bool up = true;
    i64 start = 0, end = 0, incr = 1, chunk = 1, next = 0;
    u64 ustart = 0, uend = 0, uincr = 1, unext = 0;
    int sections = 0, next_section = 1;
    bool single_taken = false;
    int done = 0;
};
struct Team
{
    int n = 1;
    int level = 1;
    std::vector<WorkShare> ws;
    int arrived = 0;
    u64 generation = 0;
    int finished = 0;
    int copy_owner = -1;
    void *copy_data = nullptr;
};
static std::map<void *, Thread *> locks;
static int lock_key[4];

static Thread *cur () { return tls.cur; }
static bool sim_thread () { return tls.cur != nullptr && tls.cur->proc != nullptr; }

static void start_slice (Thread *t)
{
    if (W->p_preempt > 0 && t->team && t->team->n > 1)
    {
        const u64 g = maybe_skew ("slice", W->p_preempt, W->preempt_gap);
        t->preempt_left = g ? long (g) : 100000000;
    }
    else
        t->preempt_left = -1;
}

static void acquire (void *k)
{
    HostScope hs;
    block ("lock", [k] { auto i = locks.find (k); return i == locks.end () || i->second == nullptr; });
    locks[k] = cur ();
}
static void release (void *k) { HostScope hs; locks[k] = nullptr; }

static void barrier (Team *tm)
{
    HostScope hs;
    const u64 g = tm->generation;
    if (++tm->arrived == tm->n)
    {
        tm->arrived = 0;
        ++tm->generation;
        yield ("barrier");
        return;
    }
    block ("barrier", [tm, g] { return tm->generation != g; });
}

static void parallel (void (*fn) (void *), void *data, unsigned want, std::function<void (Team &)> prep = nullptr)
{
    if (!sim_thread ()) { fn (data); return; }
    Thread *me = cur ();
    Proc &p = *me->proc;
    Team *tm, *old = me->team;
    const int old_num = me->tnum;
    const u64 old_ws = me->ws_index;
    {
        HostScope hs;
        tm = new Team;
        tm->level = old ? old->level + 1 : 1;
        int n = p.impl->omp_request > 0 ? p.impl->omp_request : p.spec.threads;
        if (want) n = int (want);
        n = std::min (n, std::max (1, p.spec.threads)); // dynamic adjustment: never more than the environment grants
        if (old && old->n > 1) n = 1;
        if (n > 1 && chance ("team", 0.3)) n = 1 + int (choose ("team.n", n)); // fewer granted than asked
        tm->n = n;
        ++W->regions;
        note (fmt ("sim.team_size.%d", n));
        tr (9, n);
        if (prep) prep (*tm);
        me->team = tm;
        me->tnum = 0;
        me->ws_index = 0;
        for (int i = 1; i < n; ++i)
        {
            Thread *w = new_thread (&p, [fn, data, tm] {
                start_slice (tls.cur);
                tls.in_app = true;
                fn (data);
                tls.in_app = false;
                tls.cur->preempt_left = -1;
                tls.cur->team = nullptr;
                ++tm->finished;
            });
            w->team = tm;
            w->tnum = i;
        }
        start_slice (me);
        if (n > 1) yield ("region");
    }
    fn (data);
    {
        HostScope hs;
        me->preempt_left = -1;
        if (tm->n > 1)
            block ("join", [tm] { return tm->finished == tm->n - 1; });
        me->team = old;
        me->tnum = old_num;
        me->ws_index = old_ws;
        if (old) start_slice (me);
    }
}

static Team *solo ()
{
    // a work-sharing construct outside any region
    static thread_local Team *t = nullptr;
    HostScope hs;
    if (!t) t = new Team;
    return t;
}
static WorkShare &ws_get (Team *&tm, bool advance)
{
    HostScope hs;
    tm = cur ()->team ? cur ()->team : solo ();
    if (advance) ++cur ()->ws_index;
    const u64 i = cur ()->ws_index;
    if (tm->ws.size () <= i) tm->ws.resize (i + 1);
    return tm->ws[i];
}
static void ws_end (bool wait)
{
    Team *tm = cur ()->team ? cur ()->team : solo ();
    if (wait && tm->n > 1) barrier (tm);
}

// kind: 0 static, 1 dynamic/runtime/guided
static bool loop_next (i64 *s, i64 *e)
{
    Team *tm;
    {
        HostScope hs;
        if (tm = cur ()->team, tm && tm->n > 1) yield ("chunk");
    }
    WorkShare &w = ws_get (tm, false);
    if (w.up ? w.next >= w.end : w.next <= w.end) return false;
    *s = w.next;
    i64 stop = w.next + w.chunk * w.incr;
    if (w.up ? stop > w.end : stop < w.end) stop = w.end;
    *e = stop;
    w.next = stop;
    return true;
}
static bool loop_start (i64 start, i64 end, i64 incr, i64 chunk, i64 *s, i64 *e)
{
    Team *tm;
    WorkShare &w = ws_get (tm, true);
    if (!w.init)
    {
        w.init = true;
        w.up = incr > 0;
        w.start = w.next = start;
        w.end = end;
        w.incr = incr;
        w.chunk = chunk > 0 ? chunk : 1;
    }
    return s ? loop_next (s, e) : true;
}
static bool uloop_next (u64 *s, u64 *e)
{
    Team *tm;
    {
        HostScope hs;
        if (tm = cur ()->team, tm && tm->n > 1) yield ("chunk");
    }
    WorkShare &w = ws_get (tm, false);
    if (w.unext == w.uend) return false;
    *s = w.unext;
    u64 stop = w.unext;
    for (i64 k = 0; k < w.chunk && stop != w.uend; ++k)
    {
        const u64 left = w.up ? w.uend - stop : stop - w.uend;
        const u64 step = w.up ? w.uincr : 0 - w.uincr;
        if (step >= left) stop = w.uend;
        else stop += w.uincr;
    }
    *e = stop;
    w.unext = stop;
    return true;
}
static bool uloop_start (bool up, u64 start, u64 end, u64 incr, u64 chunk, u64 *s, u64 *e)
{
    Team *tm;
    WorkShare &w = ws_get (tm, true);
    if (!w.init)
    {
        w.init = true;
        w.up = up;
        if (up ? start >= end : start <= end) start = end;
        w.ustart = w.unext = start;
        w.uend = end;
        w.uincr = incr;
        w.chunk = chunk > 0 ? i64 (chunk) : 1;
    }
    return s ? uloop_next (s, e) : true;
}
static unsigned sect_next ()
{
    Team *tm;
    {
        HostScope hs;
        if (tm = cur ()->team, tm && tm->n > 1) yield ("section");
    }
    WorkShare &w = ws_get (tm, false);
    return w.next_section <= w.sections ? w.next_section++ : 0;
}
static unsigned sect_start (unsigned n)
{
    Team *tm;
    WorkShare &w = ws_get (tm, true);
    if (!w.init) { w.init = true; w.sections = int (n); }
    return sect_next ();
}
} // namespace sim
using namespace sim;

extern "C" {
typedef unsigned long long ull;
void GOMP_parallel (void (*fn) (void *), void *d, unsigned n, unsigned) { parallel (fn, d, n); }
void GOMP_parallel_sections (void (*fn) (void *), void *d, unsigned n, unsigned count, unsigned)
{
    // the body starts with GOMP_sections_next on work share 0
    parallel (fn, d, n, [count] (Team &t) { t.ws.resize (1); t.ws[0].init = true; t.ws[0].sections = int (count); });
}
#define PLOOP(name) \
    void GOMP_parallel_loop_##name (void (*fn) (void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) \
    { parallel (fn, d, n, [=] (Team &t) { t.ws.resize (1); auto &w = t.ws[0]; w.init = true; w.up = i > 0; w.start = w.next = s; w.end = e; w.incr = i; w.chunk = c > 0 ? c : 1; }); }
PLOOP (dynamic) PLOOP (guided) PLOOP (nonmonotonic_dynamic) PLOOP (nonmonotonic_guided) PLOOP (static)
#define PLOOPR(name) \
    void GOMP_parallel_loop_##name (void (*fn) (void *), void *d, unsigned n, long s, long e, long i, unsigned) \
    { parallel (fn, d, n, [=] (Team &t) { t.ws.resize (1); auto &w = t.ws[0]; w.init = true; w.up = i > 0; w.start = w.next = s; w.end = e; w.incr = i; w.chunk = 1; }); }
PLOOPR (runtime) PLOOPR (nonmonotonic_runtime) PLOOPR (maybe_nonmonotonic_runtime)
#define LOOP(name) \
    bool GOMP_loop_##name##_start (long s, long e, long i, long c, long *a, long *b) { return loop_start (s, e, i, c, (i64 *) a, (i64 *) b); } \
    bool GOMP_loop_##name##_next (long *a, long *b) { return loop_next ((i64 *) a, (i64 *) b); } \
    bool GOMP_loop_ull_##name##_start (bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { return uloop_start (up, s, e, i, c, (u64 *) a, (u64 *) b); } \
    bool GOMP_loop_ull_##name##_next (ull *a, ull *b) { return uloop_next ((u64 *) a, (u64 *) b); }
LOOP (static) LOOP (dynamic) LOOP (guided) LOOP (nonmonotonic_dynamic) LOOP (nonmonotonic_guided) LOOP (ordered_static) LOOP (ordered_dynamic) LOOP (ordered_guided)
#define LOOPR(name) \
    bool GOMP_loop_##name##_start (long s, long e, long i, long *a, long *b) { return loop_start (s, e, i, 1, (i64 *) a, (i64 *) b); } \
    bool GOMP_loop_##name##_next (long *a, long *b) { return loop_next ((i64 *) a, (i64 *) b); } \
    bool GOMP_loop_ull_##name##_start (bool up, ull s, ull e, ull i, ull *a, ull *b) { return uloop_start (up, s, e, i, 1, (u64 *) a, (u64 *) b); } \
    bool GOMP_loop_ull_##name##_next (ull *a, ull *b) { return uloop_next ((u64 *) a, (u64 *) b); }
LOOPR (runtime) LOOPR (nonmonotonic_runtime) LOOPR (maybe_nonmonotonic_runtime)
void GOMP_loop_end () { ws_end (true); }
void GOMP_loop_end_nowait () { ws_end (false); }
bool GOMP_loop_end_cancel () { ws_end (true); return false; }
unsigned GOMP_sections_start (unsigned n) { return sect_start (n); }
unsigned GOMP_sections_next () { return sect_next (); }
void GOMP_sections_end () { ws_end (true); }
void GOMP_sections_end_nowait () { ws_end (false); }
bool GOMP_single_start ()
{
    Team *tm;
    { HostScope hs; if (tm = cur ()->team, tm && tm->n > 1) yield ("single"); }
    WorkShare &w = ws_get (tm, true);
    if (w.single_taken) return false;
    return w.single_taken = true;
}
void *GOMP_single_copy_start ()
{
    Team *tm = cur ()->team ? cur ()->team : solo ();
    if (GOMP_single_start ()) return nullptr;
    barrier (tm);
    return tm->copy_data;
}
void GOMP_single_copy_end (void *d)
{
    Team *tm = cur ()->team ? cur ()->team : solo ();
    tm->copy_data = d;
    if (tm->n > 1) barrier (tm);
}
void GOMP_barrier () { Team *tm = cur ()->team; if (tm && tm->n > 1) barrier (tm); }
bool GOMP_barrier_cancel () { GOMP_barrier (); return false; }
void GOMP_critical_start () { acquire (&lock_key[0]); }
void GOMP_critical_end () { release (&lock_key[0]); }
void GOMP_critical_name_start (void **p) { acquire (p); }
void GOMP_critical_name_end (void **p) { release (p); }
void GOMP_atomic_start () { acquire (&lock_key[1]); }
void GOMP_atomic_end () { release (&lock_key[1]); }
void GOMP_ordered_start () { acquire (&lock_key[2]); }
void GOMP_ordered_end () { release (&lock_key[2]); }
bool GOMP_cancel (int, bool) { return false; }
bool GOMP_cancellation_point (int) { return false; }
void GOMP_task (void (*fn) (void *), void *data, void (*cpy) (void *, void *), long size, long align, bool, unsigned, void **, int, void *)
{
    if (cpy)
    {
        void *raw;
        { HostScope hs; raw = malloc (size + align); }
        void *a = (void *) (((u64) raw + align - 1) / align * align);
        cpy (a, data);
        fn (a);
        HostScope hs;
        free (raw);
    }
    else fn (data);
}
void GOMP_taskloop_ull (void (*)(void *), void *, void (*) (void *, void *), long, long, unsigned, unsigned long, int, ull, ull, ull) { proc_signal_from_app (6, "taskloop unsupported"); }
void GOMP_taskwait () {}
void GOMP_taskyield () {}
void GOMP_taskgroup_start () {}
void GOMP_taskgroup_end () {}

int omp_get_num_threads () { return sim_thread () && cur ()->team ? cur ()->team->n : 1; }
int omp_get_thread_num () { return sim_thread () && cur ()->team ? cur ()->tnum : 0; }
int omp_get_max_threads () { if (!sim_thread ()) return 1; Proc &p = *cur ()->proc; return p.impl->omp_request > 0 ? p.impl->omp_request : p.spec.threads; }
int omp_get_num_procs () { return sim_thread () ? cur ()->proc->spec.threads : 1; }
int omp_in_parallel () { return sim_thread () && cur ()->team && cur ()->team->n > 1; }
int omp_get_level () { return sim_thread () && cur ()->team ? cur ()->team->level : 0; }
int omp_get_thread_limit () { return 64; }
void omp_set_num_threads (int n) { if (sim_thread ()) cur ()->proc->impl->omp_request = n; }
void omp_set_dynamic (int) {}
int omp_get_dynamic () { return 1; }
void omp_set_nested (int) {}
int omp_get_nested () { return 0; }
void omp_set_schedule (omp_sched_t, int) {}
void omp_set_max_active_levels (int) {}
double omp_get_wtime () { return W ? W->now * 1e-9 : 0.0; }
void omp_init_lock (omp_lock_t *l) { memset (l, 0, sizeof *l); }
void omp_destroy_lock (omp_lock_t *) {}
void omp_set_lock (omp_lock_t *l) { acquire (l); }
void omp_unset_lock (omp_lock_t *l) { release (l); }
int omp_test_lock (omp_lock_t *l) { HostScope hs; auto i = locks.find (l); if (i != locks.end () && i->second) return 0; locks[l] = cur (); return 1; }
}
