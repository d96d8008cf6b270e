#pragma once
#include "sim.h"
#include <atomic>
#include <ext/stdio_sync_filebuf.h>
#include <iostream>
#include <pthread.h>

namespace sim
{
struct Team;
struct Thread
{
    int id = 0;
    Proc *proc = nullptr;
    World *world = nullptr;
    pthread_t pt {};
    std::atomic<int> go {0};
    bool done = false, started = false, idle = true;
    std::function<bool ()> ready;     // empty: runnable
    u64 wake_at = 0;
    std::function<void ()> body;
    Team *team = nullptr;
    int tnum = 0;
    u64 ws_index = 0;                 // work share position within the team
    long preempt_left = -1;           // accesses until the next forced switch, -1: none
    bool in_region_preempt = false;
    bool dead = false;                // its process is gone: never scheduled again
};

struct Tls
{
    Thread *cur = nullptr;
    bool in_app = false;              // running code of the system under test
};
extern thread_local Tls tls __attribute__ ((tls_model ("initial-exec")));

struct HostScope
{
    bool saved;
    HostScope () : saved (tls.in_app) { tls.in_app = false; }
    ~HostScope () { tls.in_app = saved; }
};
struct AppScope
{
    bool saved;
    AppScope () : saved (tls.in_app) { tls.in_app = true; }
    ~AppScope () { tls.in_app = saved; }
};

struct StdImage
{
    alignas (16) char cin[sizeof (std::istream)], cout[sizeof (std::ostream)], cerr[sizeof (std::ostream)], clog[sizeof (std::ostream)];
    FILE *in, *out, *err;
    int oi, oe, oo;
    char *oa;
    void save ();
    void load () const;
};

struct Proc::Impl
{
    StdImage img;
    FILE *fin = nullptr, *fout = nullptr, *ferr = nullptr;
    std::vector<char> bin, bout;
    alignas (16) char sbin[sizeof (__gnu_cxx::stdio_sync_filebuf<char>)], sbout[sizeof (__gnu_cxx::stdio_sync_filebuf<char>)], sberr[sizeof (__gnu_cxx::stdio_sync_filebuf<char>)];
    Thread *main = nullptr;
    std::vector<Thread *> threads;
    int next_fd = 3;
    int slot = -1;
    Strs argv_store;
    std::vector<char *> argv;
    u64 rnd = 0;
    bool exiting = false;
    int omp_request = 0;              // omp_set_num_threads
};

// core.cpp
void yield (const char *why);                                     // scheduling point (host scope)
void block (const char *why, std::function<bool ()> ready);       // until ready
void sleep_ns (u64 ns);
Thread *new_thread (Proc *p, std::function<void ()> body);
void sys_event (int kind, u64 a = 0, u64 b = 0);                  // an event of the current process; may be killed here
void finish_proc (Proc *p, St st, int code, const std::string &why);
[[noreturn]] void park_forever ();
void die_if_dead ();
[[noreturn]] void proc_exit_from_app (int code, bool flush);
[[noreturn]] void proc_signal_from_app (int sig, const std::string &why);
void preempt_point ();
bool team_active (Thread *t);
void budget_exceeded (const char *what);

i64 fd_read (Proc &p, int fd, void *buf, size_t n, bool raw);
i64 fd_write (Proc &p, int fd, const void *buf, size_t n, bool raw);
int fd_close (Proc &p, int fd);
int fs_open (Proc &p, const std::string &path, int flags);        // fd or -errno
OfdP fd_get (Proc &p, int fd);

// memory.cpp
void mem_init ();
void mem_check_all ();
bool alloc_should_fail (size_t n, int kind);

// modules
void modules_load (const std::string &dir, const Strs &names, int slots);

// driver
struct Run
{
    u64 seed = 0;
    bool replay = false;
    std::map<std::pair<std::string, u64>, u64> given;
    std::unordered_map<std::string, u64> idx;
    std::vector<Choice> recorded;      // the non default ones
    u64 made = 0;
    u64 hash = 14695981039346656037ull;
    std::map<std::string, u64> notes;
    std::string viol_cls, viol_detail;
    std::string desc;
    bool nontriv = false, verb = false, thorough = false;
    u64 sim_ns = 0, sig = 0;
    std::vector<std::string> log;
};
extern Run *R;
} // namespace sim
