// Deterministic simulator: public interface used by the scenarios.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <cerrno>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace sim
{
using u8 = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;
using Bytes = std::string; // raw bytes
using Strs = std::vector<std::string>;

u64 mix (u64 a, u64 b);
u64 hash_bytes (const Bytes &s);
std::string fmt (const char *f, ...) __attribute__ ((format (printf, 1, 2)));

// ---------------------------------------------------------------- choices
// Every decision of a run is choose(stream,...). Value 0 is the "nothing unusual" default. When generating, a value is a
// pure function of (run seed, stream, index in stream); when replaying it comes from the recorded list, default 0.
u64 choose (const std::string &stream, u64 n);               // uniform in [0,n)
u64 skew (const std::string &stream, u64 n);                 // [0,n), all magnitudes equally likely
void patience (int secs); // this run may take that much processor time
bool chance (const std::string &stream, double p);           // true with probability p
u64 raw64 (const std::string &stream);                       // any 64 bit value
u64 maybe (const std::string &stream, double p, u64 n);      // 0 with probability 1-p, otherwise uniform in [1,n)
u64 maybe_skew (const std::string &stream, double p, u64 n); // 0 with probability 1-p, otherwise skewed in [1,n)

struct Choice { std::string stream; u64 idx; u64 val; };

// ---------------------------------------------------------------- run-wide state
void violate (const std::string &cls, const std::string &detail); // records the first violation of the run
bool violated ();
void note (const std::string &key, u64 n = 1);                    // coverage counters and probes
void sample (const std::string &text);                            // describes the run, for evidence and replay
void nontrivial ();                                               // this run exercised what its property is about
void tr (const std::string &text);                                // event trace: hashed, printed in verbose replay
void tr (int kind, u64 a, u64 b = 0, u64 c = 0);
bool verbose ();

// ---------------------------------------------------------------- files, pipes, devices
struct Inode
{
    std::string path;
    Bytes data;
    u64 mods = 0;             // how often its content was changed by a process
    bool truncated = false;
    bool is_dir = false;
};
using InodeP = std::shared_ptr<Inode>;

// What can go wrong on one direction of a device, file or pipe end. Offsets count bytes moved through it.
struct Faults
{
    i64 rd_fail_at = -1;      // reads reaching this offset fail ...
    int rd_errno = 0;         // ... with this errno; 0: end of file
    i64 wr_fail_at = -1;      // writes reaching this offset fail ...
    int wr_errno = 0;         // ... with this errno
    int wr_fail_times = -1;   // how often (-1: for ever)
    int close_errno = 0;      // close fails with this
    double p_short = 0;       // probability of a short transfer
    double p_eintr = 0;       // probability of EINTR (raw descriptors only)
    double p_delay = 0;       // probability that a transfer takes a while (others run meanwhile)
    // counters: what really fired
    u64 fired_rd = 0, fired_wr = 0, fired_close = 0, fired_short = 0, fired_eintr = 0;
};

struct Proc;
struct Ofd
{
    std::string name;
    std::string stream;       // choice stream prefix
    Faults f;
    u64 rd_off = 0, wr_off = 0;
    int refs = 0;
    virtual ~Ofd () {}
    virtual i64 read (Proc &, char *, size_t) { return -EBADF; }   // may block; -errno
    virtual i64 write (Proc &, const char *, size_t) { return -EBADF; }
    virtual i64 seek (i64, int) { return -ESPIPE; }
    virtual int released () { return 0; }                         // last close
    virtual bool is_reg () { return false; }
};
using OfdP = std::shared_ptr<Ofd>;

struct RegOfd : Ofd
{
    InodeP ino;
    u64 pos = 0;
    int flags = 0;
    i64 read (Proc &, char *, size_t) override;
    i64 write (Proc &, const char *, size_t) override;
    i64 seek (i64, int) override;
    bool is_reg () override { return true; }
};

struct PipeBuf
{
    Bytes data;
    size_t cap = 65536;
    int readers = 0, writers = 0;
    u64 total = 0;
    Bytes tee;                // everything that ever entered
};
struct PipeR : Ofd
{
    std::shared_ptr<PipeBuf> b;
    i64 read (Proc &, char *, size_t) override;
    int released () override { --b->readers; return 0; }
};
struct PipeW : Ofd
{
    std::shared_ptr<PipeBuf> b;
    i64 write (Proc &, const char *, size_t) override;
    int released () override { --b->writers; return 0; }
};

// Delivers bytes to a process: a recorded string or a generator of unbounded length.
struct Source : Ofd
{
    Bytes data;
    std::function<void (u64 off, char *buf, size_t n)> gen;  // if set: unbounded
    u64 avail = UINT64_MAX;                                  // bytes that have "arrived"; reading beyond blocks
    i64 read (Proc &, char *, size_t) override;
};
// Collects what a process writes.
struct Sink : Ofd
{
    Bytes data;
    u64 keep = UINT64_MAX;                                   // stop keeping (not accepting) beyond this many bytes
    u64 accepted = 0;
    bool closed = false;
    i64 write (Proc &, const char *, size_t) override;
    int released () override { closed = true; return 0; }
};

struct Fs
{
    std::map<std::string, InodeP> files;
    u64 free_bytes = UINT64_MAX;                              // space left on the device (ENOSPC beyond)
    std::map<std::string, Faults> faults;                     // by path: applied to every open of it
    std::map<std::string, int> open_errno;                    // by path
    std::map<std::string, int> create_errno;                  // by path, when opened for writing
    InodeP put (const std::string &path, const Bytes &data);
    bool has (const std::string &path) const { return files.count (path) != 0; }
    const Bytes &get (const std::string &path) const;
};

// ---------------------------------------------------------------- processes
struct Spec
{
    std::string name, module, entry = "main";
    Strs args;                          // without argv[0]
    void *user = nullptr;               // for entry points of node modules: int entry (void *user)
    OfdP in, out, err;                  // null: /dev/null, private sinks
    int threads = 1;                    // worker threads granted (upper bound)
    size_t mem_limit = 512u << 20;
    i64 alloc_fail_at = -1;             // fail the k-th allocation made by the process
    bool alloc_fail_forever = false;
    int alloc_kind = 0;                 // 0: any, 1: C++ heap only, 2: zlib only
    i64 kill_at = -1;                   // SIGKILL at the process' k-th event
    bool ignore_sigpipe = false;
    size_t stdio_buf = 4096;
    u8 heap_fill = 0xA5;                // what uninitialised heap contains
    u64 start_at = 0;
    u64 pid = 0;
};

enum class St { running, exited, signalled };

struct Thread;
struct Proc
{
    Spec spec;
    int id = 0;
    St st = St::running;
    int code = -1;                      // exit status & 0xff, or signal
    std::map<int, OfdP> fds;
    Bytes err_text () const;
    std::shared_ptr<Sink> err_sink, out_sink;
    u64 events = 0, allocs = 0, steps = 0;
    size_t live = 0, peak = 0, zlive = 0; // zlive: held by zlib
    u64 alloc_faults = 0;
    std::string term;                   // how it ended, for messages
    bool ok () const { return st == St::exited && code == 0; }
    bool failed () const { return st != St::running && !ok (); }
    bool clean_failure () const { return st == St::exited && code != 0; }
    bool dead () const { return st != St::running; }
    std::string status () const;
    const Bytes &out () const { return out_sink->data; }
    struct Impl;
    Impl *impl = nullptr;
};

struct World
{
    Fs fs;
    std::vector<Proc *> procs;
    u64 now = 0;                        // simulated ns
    u64 wall_offset = 1600000000ull * 1000000000ull; // wall clock = now + offset
    u64 entropy = 0;                    // what the kernel's random numbers are derived from
    u64 events = 0;
    double p_switch = 0.2;              // chance to switch process at an event
    double p_preempt = 0.0;             // how memory-level preemption of worker threads is spread (0: only at blocking)
    u64 preempt_gap = 64;
    double p_race = 0.0;                // chance of a preemption where workers touch the same memory
    u64 max_steps = 40000000, max_events = 2000000;
    bool nested_ok = false;
    std::string stuck;                  // "", "deadlock", "budget": how run() ended abnormally
    std::vector<std::string> memerrs;   // memory errors detected
    std::multimap<u64, std::function<void ()>> at_event; // foreign actions at global event numbers
    std::function<bool ()> on_quiescent; // nothing can run: make progress (true) or give up
    std::function<void (Proc &)> on_event;
    u64 steps = 0, switches = 0, preempts = 0, directed = 0, regions = 0;
    u64 sched_sig = 0;                  // signature of the interleaving
    World ();
    ~World ();
    Proc *spawn (Spec s);
    void run ();                        // until every process ended, or stuck
    std::string cwd = "";
};
extern World *W;

std::pair<OfdP, OfdP> make_pipe (size_t cap, const std::string &name); // read end, write end
std::shared_ptr<Source> make_source (const Bytes &b, const std::string &name);
std::shared_ptr<Sink> make_sink (const std::string &name);
void kill_proc (Proc *p, int sig);

// ---------------------------------------------------------------- scenarios
struct Scenario
{
    std::string prop, name;
    double weight;
    std::function<void ()> fn;
    int min_tier = 0;
};
std::vector<Scenario> &scenarios ();
struct Reg
{
    Reg (const char *prop, const char *name, double weight, std::function<void ()> fn)
    { scenarios ().push_back (Scenario {prop, name, weight, fn, 0}); }
};
#define SCENARIO(prop, name, weight) \
    static void prop##_##name (); \
    static sim::Reg reg_##prop##_##name (#prop, #name, weight, prop##_##name); \
    static void prop##_##name ()

bool thorough ();
// code of the real modules needed by node level scenarios
void *module_symbol (const std::string &module, const std::string &symbol);
} // namespace sim
