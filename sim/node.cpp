// Runs inside a simulated process: drives the public API of the library. Built like the programs (instrumented).
#include "spoc/spoc.h"
#include "spoc/affine.h"
#include "spoc/benchmark_utils.h"
#include "spoc/compression.h"
#include "spoc/file.h"
#include "spoc/io.h"
#include "spoc/radius_search.h"
#include "spoc/subsampling.h"
#include "spoc/utils.h"
#include "spoc/voxel.h"
#include "node.h"
#include <fstream>
#include <iostream>
#include <sstream>
#include <thread>

using namespace node;
namespace
{
struct Host { int s; Host () : s (sim_set_app (0)) {} ~Host () { sim_set_app (s); } };

ref::Rec rec_of (const spoc::point_record::point_record &p)
{
    ref::Rec r;
    r.x = p.x; r.y = p.y; r.z = p.z; r.c = p.c; r.p = p.p; r.i = p.i; r.r = p.r; r.g = p.g; r.b = p.b;
    r.e.assign (p.extra.begin (), p.extra.end ());
    return r;
}
spoc::point_record::point_record to_rec (const ref::Rec &r)
{
    spoc::point_record::point_record p (r.e.size ());
    p.x = r.x; p.y = r.y; p.z = r.z; p.c = r.c; p.p = r.p; p.i = r.i; p.r = r.r; p.g = r.g; p.b = r.b;
    for (size_t k = 0; k < r.e.size (); ++k) p.extra[k] = r.e[k];
    return p;
}
spoc::point_record::point_records to_recs (const std::vector<ref::Rec> &v)
{
    spoc::point_record::point_records p;
    p.reserve (v.size ());
    for (auto &r : v) p.push_back (to_rec (r));
    return p;
}
ref::Cloud cloud_of (const spoc::file::spoc_file &f)
{
    ref::Cloud c;
    c.wkt = f.get_wkt ();
    c.compressed = f.get_compressed ();
    c.extra = unsigned (f.get_extra_fields ());
    for (auto &p : f.get_point_records ()) c.r.push_back (rec_of (p));
    return c;
}
spoc::file::spoc_file to_file (const ref::Cloud &c) { return spoc::file::spoc_file (c.wkt, c.compressed, to_recs (c.r)); }

template<typename R> void caught (R &r)
{
    // called in a catch (...) block
    try { throw; }
    catch (const std::bad_alloc &e) { Host h; r.threw = r.bad_alloc = true; r.what = e.what (); }
    catch (const std::exception &e) { Host h; r.threw = true; r.what = e.what (); }
    catch (...) { Host h; r.threw = true; r.what = "not a std::exception"; }
}
template<typename T> void put (Bytes &b, const T &v) { b.append (reinterpret_cast<const char *> (&v), sizeof v); }
}

extern "C" int node_read (void *v)
{
    ReadPlan &p = *static_cast<ReadPlan *> (v);
    std::ifstream ifs;
    std::istringstream iss;
    std::istream *is = &std::cin;
    if (p.src == SRC_FILE) { ifs.open (p.path); is = &ifs; }
    if (p.src == SRC_STRING) { iss.str (p.data); is = &iss; }
    if (p.exceptions) is->exceptions (std::ios::badbit);
    for (int k = 0; k < p.count; ++k)
    {
        Got g;
        try
        {
            if (p.reader == RD_HEADER)
            {
                auto h = spoc::header::read_header (*is);
                Host hh;
                g.c.wkt = h.wkt; g.c.extra = h.extra_fields; g.c.compressed = h.compressed != 0; g.total = h.total_points;
            }
            else if (p.reader == RD_RECORDS)
            {
                auto h = spoc::header::read_header (*is);
                spoc::point_record::point_records prs;
                for (size_t i = 0; i < h.total_points; ++i)
                    prs.push_back (spoc::point_record::read_point_record (*is, h.extra_fields));
                spoc::file::spoc_file f (h.wkt, h.compressed, prs);
                Host hh;
                g.c = cloud_of (f);
                g.total = h.total_points;
            }
            else if (p.reader == RD_POINTS)
            {
                auto h = spoc::header::read_header (*is);
                auto prs = h.compressed ? spoc::io::read_compressed_points (*is, h.total_points, h.extra_fields)
                                        : spoc::io::read_uncompressed_points (*is, h.total_points, h.extra_fields);
                spoc::file::spoc_file f (h.wkt, h.compressed, prs);
                Host hh;
                g.c = cloud_of (f);
                g.total = h.total_points;
            }
            else
            {
                auto f = p.reader == RD_UNC ? spoc::io::read_spoc_file_uncompressed (*is)
                       : p.reader == RD_COMP ? spoc::io::read_spoc_file_compressed (*is)
                       : spoc::io::read_spoc_file (*is);
                Host hh;
                g.c = cloud_of (f);
                g.total = g.c.r.size ();
                for (auto &r : g.c.r) if (r.e.size () != g.c.extra) g.consistent = false;
            }
        }
        catch (...) { caught (g); }
        Host hh;
        p.got.push_back (g);
        if (g.threw) break;
    }
    if (p.want_rest)
    {
        is->exceptions (std::ios::goodbit);
        is->clear ();
        char buf[512];
        for (;;)
        {
            is->read (buf, sizeof buf);
            const auto n = is->gcount ();
            { Host hh; p.rest.append (buf, n); }
            if (n < std::streamsize (sizeof buf)) break;
        }
    }
    return 0;
}

extern "C" int node_write (void *v)
{
    WritePlan &p = *static_cast<WritePlan *> (v);
    std::ofstream ofs;
    std::ostringstream oss;
    std::ostream *os = &std::cout;
    if (p.dst == DST_FILE) { ofs.open (p.path); os = &ofs; }
    if (p.dst == DST_STRING) os = &oss;
    try
    {
        for (auto &c : p.clouds)
        {
            int s = sim_set_app (0);
            auto *f = new spoc::file::spoc_file (to_file (c));
            sim_set_app (s);
            switch (p.writer)
            {
                case WR_AUTO: spoc::io::write_spoc_file (*os, *f); break;
                case WR_UNC: spoc::io::write_spoc_file_uncompressed (*os, *f); break;
                case WR_COMP: spoc::io::write_spoc_file_compressed (*os, *f); break;
                default:
                    spoc::header::write_header (*os, f->get_header ());
                    for (auto &r : f->get_point_records ()) spoc::point_record::write_point_record (*os, r);
            }
            Host hh;
            ++p.done;
            if (p.after_write) p.after_write ();
        }
    }
    catch (...) { caught (p); }
    if (p.dst == DST_FILE) { ofs.close (); if (!ofs) p.close_ok = false; }
    if (p.dst == DST_STRING) { Host hh; p.str = oss.str (); }
    return 0;
}

extern "C" int node_comp (void *v)
{
    CompPlan &p = *static_cast<CompPlan *> (v);
    using namespace spoc::compression;
    try
    {
        if (p.api == CZ_STREAM)
        {
            std::ifstream ifs;
            std::istringstream iss;
            std::ofstream ofs;
            std::ostringstream oss;
            std::istream *is = &std::cin;
            std::ostream *os = &std::cout;
            if (p.src == SRC_FILE) { ifs.open (p.in_path); is = &ifs; }
            if (p.src == SRC_STRING) { iss.str (p.in); is = &iss; }
            if (p.dst == DST_FILE) { ofs.open (p.out_path); os = &ofs; }
            if (p.dst == DST_STRING) os = &oss;
            if (p.decompress) decompress (*is, *os);
            else compress (*is, *os, p.level);
            Host hh;
            if (p.dst == DST_STRING) p.out = oss.str ();
            if (p.after) p.after ();
        }
        else if (p.big)
        {
            // more bytes than memory: mapped, not allocated
            const unsigned char *raw[] = {p.big, p.big + p.big_size, p.big + p.big_size};
            const void *at = raw;
            asm volatile ("" : "+r" (at) : : "memory");
            static_assert (sizeof raw == sizeof (std::vector<uint8_t>));
            auto v = static_cast<const std::vector<uint8_t> *> (at);
            const auto out = p.decompress ? decompress (*v) : p.api == CZ_MEM ? compress (p.big, p.big_size, p.level) : compress (*v, p.level);
            Host hh;
            p.out.assign (out.begin (), out.end ());
        }
        else
        {
            const std::vector<uint8_t> in (p.in.begin (), p.in.end ());
            std::vector<uint8_t> out;
            if (!p.decompress) out = p.api == CZ_MEM ? compress (in.data (), in.size (), p.level) : compress (in, p.level);
            else if (p.sized) { out.resize (p.size); decompress (in, out.data (), out.size ()); }
            else out = decompress (in);
            Host hh;
            p.out.assign (out.begin (), out.end ());
        }
    }
    catch (...) { caught (p); }
    return 0;
}

namespace
{
using Points = std::vector<spoc::point::point<double>>;
Points points_of (const ref::Cloud &c)
{
    Points v;
    for (auto &r : c.r) v.push_back ({r.x, r.y, r.z});
    return v;
}
void put_pts (Bytes &o, const spoc::point_record::point_records &v) { for (auto &p : v) o += ref::record (rec_of (p)); }

void run_op (const LibOp &op, LibRes &r, bool arm, const Attempt &at)
{
    // inputs are prepared in host mode: faults hit the operation only
    std::unique_ptr<spoc::file::spoc_file> f;
    std::unique_ptr<spoc::point_record::point_records> prs;
    std::unique_ptr<std::istringstream> is;
    std::unique_ptr<std::ostringstream> os;
    std::vector<size_t> q, k;
    std::vector<uint8_t> zin, zout;
    Points pts;
    {
        Host h;
        f.reset (new spoc::file::spoc_file (to_file (op.in)));
        prs.reset (new spoc::point_record::point_records (to_recs (op.in.r)));
        is.reset (new std::istringstream (op.bytes));
        os.reset (new std::ostringstream);
        q.assign (op.q.begin (), op.q.end ());
        k.assign (op.k.begin (), op.k.end ());
        zin.assign (op.bytes.begin (), op.bytes.end ());
        pts = points_of (op.in);
        r.lists.assign (std::max (q.size (), op.in.r.size ()), {});
        r.calls.assign (std::max (q.size (), op.in.r.size ()), 0);
    }
    bool armed = false;
    auto disarm = [&] { if (armed) { unsigned long long fl = 0; r.allocs = sim_alloc_disarm (&fl); r.faults = fl; armed = false; } };
    if (arm) { sim_alloc_arm (at.fail_at, at.forever, at.kind); armed = true; }
    try
    {
        switch (op.kind)
        {
            case OP_READ:
            {
                auto g = spoc::io::read_spoc_file (*is);
                disarm ();
                Host h;
                r.cloud = cloud_of (g);
                break;
            }
            case OP_WRITE:
                spoc::io::write_spoc_file (*os, *f);
                disarm ();
                { Host h; r.out = os->str (); }
                break;
            case OP_RADIUS:
            {
                using namespace spoc::radius_search;
                auto cb = [&r] (size_t i, const std::vector<size_t> &nb) {
                    Host h;
                    if (i < r.calls.size ()) { ++r.calls[i]; r.lists[i].assign (nb.begin (), nb.end ()); }
                    else { r.calls.resize (i + 1); ++r.calls[i]; }
                };
                switch (op.variant)
                {
                    case 0: radius_search (*prs, q, k, op.a, cb, op.n); break;
                    case 1: radius_search_indexes (*prs, q, op.a, cb, op.n); break;
                    case 2: radius_search_all_neighbors (*prs, q, op.a, cb, op.n); break;
                    case 3: radius_search_all (*prs, op.a, cb, op.n); break;
                    case 4:
                    {
                        auto nb = radius_search_get_neighbors (pts, op.a);
                        disarm ();
                        Host h;
                        r.lists.clear ();
                        r.calls.assign (nb.size (), 1);
                        for (auto &l : nb) r.lists.push_back (std::vector<u64> (l.begin (), l.end ()));
                        break;
                    }
                    default: radius_search (pts, q, k, op.a, cb, op.n); break;
                }
                break;
            }
            case OP_VOXEL:
            case OP_VOXELMAP:
            {
                using namespace spoc::voxel;
                auto v = op.variant == 0 ? get_voxel_indexes (*prs, op.a)
                       : op.variant == 1 ? get_voxel_indexes (*prs, q, op.a)
                       : get_voxel_indexes (pts, spoc::extent::get_extent (pts), op.a);
                if (op.kind == OP_VOXEL)
                {
                    disarm ();
                    Host h;
                    for (auto &x : v) { put (r.out, u64 (x.i)); put (r.out, u64 (x.j)); put (r.out, u64 (x.k)); }
                }
                else
                {
                    auto s = get_voxel_index_set (v);
                    auto m = get_voxel_index_map (v);
                    disarm ();
                    Host h;
                    std::map<std::vector<u64>, std::vector<u64>> o;
                    bool ok = s.size () == m.size ();
                    for (auto &x : m) { o[{x.first.i, x.first.j, x.first.k}] = std::vector<u64> (x.second.begin (), x.second.end ()); ok = ok && s.count (x.first); }
                    put (r.out, ok);
                    for (auto &x : o) { for (u64 w : x.first) put (r.out, w); put (r.out, u64 (x.second.size ())); for (u64 w : x.second) put (r.out, w); }
                }
                break;
            }
            case OP_SUBSAMPLE:
                if (op.variant == 0)
                {
                    auto s = spoc::subsampling::get_subsample_indexes (*prs, op.a, op.n);
                    disarm ();
                    Host h;
                    for (auto i : s) put (r.out, u64 (i));
                }
                else
                {
                    auto s = spoc::subsampling::subsample_points (*prs, op.a, op.n);
                    disarm ();
                    Host h;
                    put_pts (r.out, s);
                }
                break;
            case OP_UNIQUE:
            {
                auto s = spoc::subsampling::get_unique_xyz_indexes (*prs, op.n);
                disarm ();
                Host h;
                for (auto i : s) put (r.out, u64 (i));
                break;
            }
            case OP_QUANTIZE:
                spoc::utils::quantize (*prs, op.a);
                disarm ();
                { Host h; put_pts (r.out, *prs); }
                break;
            case OP_AFFINE:
                switch (op.variant)
                {
                    case 0: spoc::affine::add_x (*prs, op.a); break;
                    case 1: spoc::affine::add_y (*prs, op.a); break;
                    case 2: spoc::affine::add_z (*prs, op.a); break;
                    case 3: spoc::affine::rotate_x (*prs, op.a); break;
                    case 4: spoc::affine::rotate_y (*prs, op.a); break;
                    case 5: spoc::affine::rotate_z (*prs, op.a); break;
                    case 6: spoc::affine::scale_x (*prs, op.a); break;
                    case 7: spoc::affine::scale_y (*prs, op.a); break;
                    case 8: spoc::affine::scale_z (*prs, op.a); break;
                    default:
                    {
                        spoc::point_record::point_record d (op.a, op.b, op.c);
                        spoc::affine::add (*prs, d);
                    }
                }
                disarm ();
                { Host h; put_pts (r.out, *prs); }
                break;
            case OP_COMPRESS:
                zout = spoc::compression::compress (zin, int (op.n) - 1);
                disarm ();
                { Host h; r.out.assign (zout.begin (), zout.end ()); }
                break;
            case OP_DECOMPRESS:
                if (op.variant) { { Host h; zout.resize (op.n); } spoc::compression::decompress (zin, zout.data (), zout.size ()); }
                else zout = spoc::compression::decompress (zin);
                disarm ();
                { Host h; r.out.assign (zout.begin (), zout.end ()); }
                break;
            case OP_FILE:
            {
                spoc::file::spoc_file g (f->get_wkt (), f->get_compressed (), f->get_point_records ());
                spoc::file::spoc_file e = g.clone_empty ();
                for (auto &x : g.get_point_records ()) e.push_back (x);
                e.resize_extra_fields (op.n);
                g = e;
                disarm ();
                Host h;
                r.cloud = cloud_of (g);
                break;
            }
        }
        disarm ();
    }
    catch (...) { disarm (); caught (r); }
    {
        Host h;
        f.reset (); prs.reset (); is.reset (); os.reset ();
    }
}
}

extern "C" int node_lib (void *v)
{
    LibPlan &p = *static_cast<LibPlan *> (v);
    std::vector<Attempt> tries;
    { Host h; tries = p.tries; if (tries.empty ()) tries.push_back (Attempt ()); }
    for (auto &t : tries)
    {
        LibRes *r;
        { Host h; p.res.emplace_back (); r = &p.res.back (); }
        run_op (p.op, *r, true, t);
        r->live = sim_live ();
    }
    return 0;
}
extern "C" int node_repeat (void *v)
{
    RepeatPlan &p = *static_cast<RepeatPlan *> (v);
    { Host h; p.live.reserve (p.times); p.threw.reserve (p.times); }
    for (int k = 0; k < p.times; ++k)
    {
        bool threw = false;
        if (p.what == 0)
        {
            { Host h; p.r.got.clear (); p.r.rest.clear (); }
            node_read (&p.r);
            for (auto &g : p.r.got) threw = threw || g.threw;
        }
        else if (p.what == 1)
        {
            { Host h; p.w.threw = false; p.w.done = 0; p.w.str.clear (); p.w.str.shrink_to_fit (); }
            node_write (&p.w);
            threw = p.w.threw;
        }
        else
        {
            { Host h; p.c.threw = false; p.c.out.clear (); p.c.out.shrink_to_fit (); }
            node_comp (&p.c);
            threw = p.c.threw;
        }
        p.live.push_back (sim_live ());
        p.threw.push_back (threw);
    }
    return 0;
}
extern "C" int node_pair (void *v)
{
    PairPlan &p = *static_cast<PairPlan *> (v);
    std::thread a ([&p] { run_op (p.a, p.ra, false, Attempt ()); });
    std::thread b ([&p] { run_op (p.b, p.rb, false, Attempt ()); });
    a.join ();
    b.join ();
    return 0;
}

namespace
{
FileState state_of (const spoc::file::spoc_file &f)
{
    FileState s;
    s.c = cloud_of (f);
    s.gmajor = f.get_major_version ();
    s.gminor = f.get_minor_version ();
    try
    {
        auto h = f.get_header ();
        s.hextra = h.extra_fields;
        s.htotal = h.total_points;
        s.hcomp = h.compressed != 0;
        s.hwkt = h.wkt;
        s.major = h.major_version;
        s.minor = h.minor_version;
    }
    catch (const std::exception &) { s.hthrew = true; }
    s.valid = f.is_valid ();
    // the column accessors must agree with the records
    const auto &p = f.get_point_records ();
    auto x = f.get_x (), y = f.get_y (), z = f.get_z ();
    auto c = f.get_c (), pp = f.get_p ();
    auto i = f.get_i (), r = f.get_r (), g = f.get_g (), b = f.get_b ();
    auto n = p.size ();
    s.columns = x.size () == n && y.size () == n && z.size () == n && c.size () == n && pp.size () == n && i.size () == n && r.size () == n && g.size () == n && b.size () == n;
    for (size_t k = 0; s.columns && k < n; ++k)
        s.columns = ref::same_bits (x[k], p[k].x) && ref::same_bits (y[k], p[k].y) && ref::same_bits (z[k], p[k].z) && c[k] == p[k].c && pp[k] == p[k].p
            && i[k] == p[k].i && r[k] == p[k].r && g[k] == p[k].g && b[k] == p[k].b;
    for (size_t k = 0; s.valid && s.columns && k < f.get_extra_fields (); ++k)
    {
        auto e = f.get_extra (k);
        s.columns = e.size () == n;
        for (size_t m = 0; s.columns && m < n; ++m) s.columns = e[m] == p[m].extra[k];
    }
    return s;
}
}
extern "C" int node_file (void *v)
{
    FilePlan &p = *static_cast<FilePlan *> (v);
    using spoc::file::spoc_file;
    std::vector<std::unique_ptr<spoc_file>> s;
    { Host h; for (int i = 0; i < p.slots; ++i) s.emplace_back (new spoc_file ()); }
    for (auto &st : p.steps)
    {
        FileObs o;
        spoc::point_record::point_record *pr;
        spoc::point_record::point_records *prs, *moved = nullptr;
        std::string *wkt;
        const spoc::point_record::point_record *got = nullptr;
        std::vector<uint64_t> *col;
        {
            Host h;
            col = new std::vector<uint64_t>;
            pr = new spoc::point_record::point_record (to_rec (st.rec));
            prs = new spoc::point_record::point_records (to_recs (st.recs));
            wkt = new std::string (st.wkt);
            moved = new spoc::point_record::point_records;
        }
        spoc_file &a = *s[st.a], &b = *s[st.b];
        sim_alloc_arm (st.fail_at, st.forever, 0);
        try
        {
            switch (st.kind)
            {
                case F_CTOR:
                {
                    std::unique_ptr<spoc_file> n (new spoc_file (*wkt, st.comp, *prs));
                    s[st.a] = std::move (n);
                    break;
                }
                case F_PUSH: a.push_back (*pr); break;
                case F_RESIZE: a.resize_extra_fields (st.n); break;
                case F_SETREC: a.set_point_record (st.n, *pr); break;
                case F_SETRECS: a.set_point_records (*prs); break;
                case F_MOVEIN: a.move_point_records (*prs); break;
                case F_MOVEOUT: *moved = a.move_point_records (); break;
                case F_SWAP: a.swap (b); break;
                case F_ASSIGN: a = b; break;
                case F_CLONE: { std::unique_ptr<spoc_file> n (new spoc_file (b.clone_empty ())); s[st.a] = std::move (n); break; }
                case F_COPY: { std::unique_ptr<spoc_file> n (new spoc_file (b)); s[st.a] = std::move (n); break; }
                case F_WKT: a.set_wkt (*wkt); break;
                case F_COMP: a.set_compressed (st.comp); break;
                case F_GETREC: got = &a.get_point_record (st.n); break;
                case F_GETEXTRA: *col = a.get_extra (st.n); break;
                case F_VERSION:
                {
                    std::unique_ptr<spoc_file> n (new spoc_file (uint8_t (st.major), uint8_t (st.minor), *wkt, st.comp, *prs));
                    s[st.a] = std::move (n);
                    break;
                }
                case F_SELF: { spoc_file &alias = a; a = alias; break; }
            }
        }
        catch (...) { caught (o); }
        unsigned long long fl = 0;
        o.allocs = sim_alloc_disarm (&fl);
        o.faults = fl;
        Host h;
        if (got) o.moved.push_back (rec_of (*got));
        o.col.assign (col->begin (), col->end ());
        if (st.kind == F_MOVEOUT) for (auto &r : *moved) o.moved.push_back (rec_of (r));
        if (st.kind == F_MOVEIN) for (auto &r : *prs) o.moved.push_back (rec_of (r));
        for (auto &f : s) o.st.push_back (state_of (*f));
        p.obs.push_back (o);
        delete pr; delete prs; delete wkt; delete moved; delete col;
    }
    Host h;
    s.clear ();
    return 0;
}

extern "C" int node_timer (void *v)
{
    TimerPlan &p = *static_cast<TimerPlan *> (v);
    std::unique_ptr<spoc::benchmark_utils::timer> t (new spoc::benchmark_utils::timer);
    for (auto &s : p.steps)
    {
        double d = -1;
        switch (s.first)
        {
            case T_START: t->start (); break;
            case T_STOP: t->stop (); break;
            case T_QUERY: d = t->elapsed_ms (); break;
            case T_NEW: t.reset (new spoc::benchmark_utils::timer); break;
            case T_SLEEP: std::this_thread::sleep_for (std::chrono::nanoseconds (s.second)); break;
            default: break;
        }
        Host h;
        if (p.hook) p.hook (s.first, s.second);
        p.obs.push_back (d);
    }
    return 0;
}
