// Shared by the scenarios: environments, generic checks.
#pragma once
#include "node.h"
#include <fcntl.h>
#include <algorithm>
#include <cmath>

using namespace sim;
using node::Got;

// set by a run that moves a lot of data (every run is a process of its own): coarse chunks, rare preemptions
inline bool coarse = false;
inline void coarse_world (World &w)
{
    w.max_steps = 8000000000;
    w.max_events = 50000000;
    w.preempt_gap = 16384;
    w.p_switch = std::min (w.p_switch, 0.2);
}
// how hostile the environment of a run is
inline void env_world (World &w, const std::string &st = "env")
{
    static const double sw[] = {0.2, 0.0, 0.6, 0.95}, pre[] = {0.9, 0.0, 0.4, 0.97};
    static const u64 gap[] = {64, 8, 512, 8192};
    w.entropy = raw64 (st + ".entropy");
    w.p_switch = sw[choose (st + ".switch", 4)];
    w.p_preempt = pre[choose (st + ".preempt", 4)];
    w.preempt_gap = gap[choose (st + ".gap", 4)];
    static const double race[] = {0.3, 0.0, 0.05, 0.7};
    w.p_race = race[choose (st + ".race", 4)];
    if (coarse) coarse_world (w);
}
inline size_t env_min_buf = 1; // scenarios that move a lot of data raise it
inline void env_spec (Spec &s, const std::string &st = "env")
{
    static const u8 fills[] = {0xA5, 0x00, 0xFF, 0x01, 0x7F};
    static const size_t bufs[] = {4096, 65536, 512, 64, 1};
    s.threads = 1 + int (maybe (st + ".threads", 0.75, 8));
    s.heap_fill = fills[choose (st + ".fill", 5)];
    s.stdio_buf = std::max (env_min_buf, bufs[choose (st + ".stdio", 5)]);
    if (coarse) s.stdio_buf = std::max<size_t> (s.stdio_buf, 4096);
}
inline void chunky (Faults &f, const std::string &st)
{
    if (coarse) return;
    static const double sh[] = {0.0, 0.1, 0.5, 0.95}, de[] = {0.0, 0.0, 0.1, 0.5};
    f.p_short = sh[choose (st + ".short", 4)];
    f.p_delay = de[choose (st + ".delay", 4)];
    f.p_eintr = chance (st + ".eintr", 0.15) ? 0.2 : 0;
}
// EINTR on a raw read makes libstdc++ retry; nothing below it needs to know.

inline bool crashed (const Proc &p) { return p.st == St::signalled && p.code != 13 && p.code != 9; }
// the claims that hold for every run of every program: no memory error, no hang, no crash
inline bool sane (World &w, const std::string &where)
{
    if (!w.memerrs.empty ()) { violate ("memory:" + where, w.memerrs[0]); return false; }
    if (!w.stuck.empty ()) { violate ("hang:" + where, "the run does not end: " + w.stuck); return false; }
    for (auto p : w.procs)
        if (crashed (*p)) { violate ("crash:" + p->spec.module, p->spec.name + " ended with " + p->status ()); return false; }
    return true;
}
inline bool check (bool ok, const std::string &cls, const std::string &detail)
{
    if (!ok) violate (cls, detail);
    return ok;
}
// a fresh node process executing a plan
template<typename P> Proc *node_proc (World &w, const char *entry, P &plan, const std::string &name, OfdP in = nullptr, OfdP out = nullptr)
{
    Spec s;
    s.module = "node";
    s.entry = entry;
    s.name = name;
    s.user = &plan;
    s.in = in;
    s.out = out;
    env_spec (s);
    return w.spawn (s);
}
inline const char *rd_name (int r) { static const char *n[] = {"read_spoc_file", "read_spoc_file_uncompressed", "read_spoc_file_compressed", "read_point_record", "read_header", "read_points"}; return n[r]; }
inline const char *wr_name (int r) { static const char *n[] = {"write_spoc_file", "write_spoc_file_uncompressed", "write_spoc_file_compressed", "write_point_record"}; return n[r]; }
// a reader that fits the file
inline int pick_reader (const ref::Cloud &c, const std::string &st)
{
    static const int u[] = {node::RD_AUTO, node::RD_UNC, node::RD_RECORDS, node::RD_POINTS}, z[] = {node::RD_AUTO, node::RD_COMP, node::RD_POINTS};
    return c.compressed ? z[choose (st, 3)] : u[choose (st, 4)];
}
inline int pick_writer (const ref::Cloud &c, const std::string &st)
{
    static const int u[] = {node::WR_AUTO, node::WR_UNC, node::WR_RECORDS}, z[] = {node::WR_AUTO, node::WR_COMP};
    return c.compressed ? z[choose (st, 2)] : u[choose (st, 3)];
}
inline std::string brief (const ref::Cloud &c) { return fmt ("%zu points, %u extra, wkt %zu, %s", c.r.size (), c.extra, c.wkt.size (), c.compressed ? "compressed" : "plain"); }
// an interesting offset inside [0,n): boundaries and anywhere
inline u64 cut_offset (const std::string &st, u64 n, const ref::Layout *l = nullptr)
{
    if (n == 0) return 0;
    const u64 m = choose (st + ".kind", 5);
    u64 at;
    if (m == 1) at = n - 1 - skew (st + ".tail", n);
    else if (m == 2) at = skew (st + ".head", n);
    else if (m == 3 && l && !l->fields.empty ())
    {
        auto &f = l->fields[choose (st + ".field", l->fields.size ())];
        const u64 around = choose (st + ".around", 20);
        at = f.first + (choose (st + ".end", 2) ? 8 + f.second : 0);
        at = at + around > 10 ? at + around - 10 : 0;
    }
    else if (m == 4 && l) at = l->header + choose (st + ".rec", n > l->header ? n - l->header : 1);
    else at = choose (st + ".at", n);
    return std::min (at, n - 1);
}
