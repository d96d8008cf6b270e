// C01-C06, C21: the library's readers, writers and compression API
#include "scen.h"
#include <sys/mman.h>
#include <unistd.h>
#include <zlib.h>
using namespace node;

static OfdP source (const Bytes &b, const std::string &name, const std::string &st)
{
    auto s = make_source (b, name);
    chunky (s->f, st);
    return s;
}
static std::shared_ptr<Sink> sink (const std::string &name, const std::string &st)
{
    auto s = make_sink (name);
    chunky (s->f, st);
    return s;
}
// prepares how a node obtains the bytes b
static OfdP read_setup (World &w, ReadPlan &p, const Bytes &b, const std::string &st)
{
    p.src = int (choose (st + ".src", 3));
    if (p.src == SRC_STRING) { p.data = b; return nullptr; }
    if (p.src == SRC_FILE)
    {
        p.path = "in.spoc";
        w.fs.put (p.path, b);
        chunky (w.fs.faults[p.path], st);
        return nullptr;
    }
    return source (b, "src", st);
}
static Bytes written (World &w, const WritePlan &p, Proc *pr)
{
    return p.dst == DST_STRING ? p.str : p.dst == DST_FILE ? w.fs.get (p.path) : pr->out ();
}

// ---------------------------------------------------------------- C01
static const double BIG = 0.0007;
SCENARIO (C01, node_roundtrip, 4)
{
    const int n = 1 + int (maybe ("files", 0.4, 4));
    WritePlan wp;
    ref::Gen g;
    const int comp = int (choose ("kind", 3)) - 1; // either, all plain, all compressed
    g.compressed = comp;
    if (chance ("big", BIG)) { coarse = true; g.p_giant = 1; }
    if (n > 1) { g.p_many = 0.02; g.p_big_extra = 0.01; }
    for (int i = 0; i < n; ++i) wp.clouds.push_back (ref::gen (fmt ("c%d", i), g));
    wp.writer = comp == -1 ? WR_AUTO : pick_writer (wp.clouds[0], "writer");
    wp.dst = int (choose ("dst", 3));
    wp.path = "out.spoc";
    Bytes bytes;
    {
        World w;
        env_world (w, "env1");
        auto snk = sink ("out", "wr");
        if (wp.dst == DST_FILE) chunky (w.fs.faults["out.spoc"], "wr");
        Proc *p = node_proc (w, "node_write", wp, "writer", nullptr, snk);
        w.run ();
        if (!sane (w, "write")) return;
        if (!check (!wp.threw && wp.close_ok && p->ok (), "write-failed", "writer failed: " + wp.what)) return;
        bytes = written (w, wp, p);
    }
    sample (fmt ("write %d file(s) [%s] with %s to %s; ", n, brief (wp.clouds[0]).c_str (), wr_name (wp.writer), wp.dst == DST_COUT ? "stdout" : wp.dst == DST_FILE ? "a file" : "a string"));
    Bytes junk;
    if (chance ("junk", 0.3)) { const u64 s = raw64 ("junk.s"), m = 1 + choose ("junk.n", 100); for (u64 i = 0; i < m; ++i) junk += char (mix (s, i)); }
    ReadPlan rp;
    rp.count = n;
    rp.reader = comp == -1 ? (choose ("rd", 2) ? RD_POINTS : RD_AUTO) : pick_reader (wp.clouds[0], "reader");
    World w;
    env_world (w, "env2");
    OfdP in = read_setup (w, rp, bytes + junk, "rd");
    node_proc (w, "node_read", rp, "reader", in);
    w.run ();
    sample (fmt ("read back with %s", rd_name (rp.reader)));
    if (!sane (w, "read")) return;
    nontrivial ();
    for (int i = 0; i < n; ++i)
    {
        if (!check (int (rp.got.size ()) > i && !rp.got[i].threw, "read-failed", fmt ("file %d of %d could not be read back: %s", i, n, int (rp.got.size ()) > i ? rp.got[i].what.c_str () : "?"))) return;
        const std::string d = ref::diff (wp.clouds[i], rp.got[i].c);
        if (!check (d.empty (), "roundtrip-differs", fmt ("file %d of %d, read back: %s", i, n, d.c_str ()))) return;
        if (!check (rp.got[i].consistent, "inconsistent", "records with different numbers of extra fields")) return;
    }
    check (rp.rest == junk, "framing", fmt ("%zu bytes follow the files, the readers left %zu", junk.size (), rp.rest.size ()));
}
SCENARIO (C01, node_pipe, 2)
{
    WritePlan wp;
    ReadPlan rp;
    const int n = 1 + int (maybe ("files", 0.4, 3));
    ref::Gen g;
    if (n > 1) g.p_big_extra = 0.01;
    for (int i = 0; i < n; ++i) wp.clouds.push_back (ref::gen (fmt ("c%d", i), g));
    rp.count = n;
    World w;
    env_world (w);
    static const size_t caps[] = {65536, 1, 7, 100, 4096};
    auto pp = make_pipe (caps[choose ("cap", 5)], "pipe");
    chunky (pp.first->f, "prd");
    chunky (pp.second->f, "pwr");
    auto wpn = node_proc (w, "node_write", wp, "writer", nullptr, pp.second);
    node_proc (w, "node_read", rp, "reader", pp.first);
    w.run ();
    sample (fmt ("%d file(s) [%s] through a pipe between a writing and a reading process", n, brief (wp.clouds[0]).c_str ()));
    if (!sane (w, "pipe")) return;
    nontrivial ();
    if (!check (!wp.threw && wpn->ok (), "write-failed", "writer failed: " + wp.what)) return;
    for (int i = 0; i < n; ++i)
    {
        if (!check (int (rp.got.size ()) > i && !rp.got[i].threw, "read-failed", "reader failed")) return;
        const std::string d = ref::diff (wp.clouds[i], rp.got[i].c);
        if (!check (d.empty (), "roundtrip-differs", d)) return;
    }
    check (rp.rest.empty (), "framing", "bytes left over");
}
static Proc *app_proc (World &w, const std::string &app, const Strs &args, OfdP in, OfdP out = nullptr)
{
    Spec s;
    s.module = s.name = app;
    s.args = args;
    s.in = in;
    s.out = out;
    env_spec (s, "env." + app);
    return w.spawn (s);
}
// spoc_compress then spoc_decompress, staged or connected
SCENARIO (C01, app_roundtrip, 3)
{
    ref::Gen g;
    g.compressed = 0;
    if (chance ("big", BIG)) { coarse = true; g.p_giant = 1; }
    ref::Cloud c = ref::gen ("c", g);
    const Bytes plain = ref::encode (c);
    Bytes z, back;
    auto one = [&] (const std::string &app, const Bytes &in, Bytes &out) {
        World w;
        env_world (w, "env." + app);
        Strs args;
        OfdP src;
        const int how = int (choose (app + ".how", 3));
        if (how == 0) src = source (in, "src", app + ".rd");
        else { w.fs.put ("in.spoc", in); chunky (w.fs.faults["in.spoc"], app + ".rd"); args = {"in.spoc"}; }
        if (how == 2) args.push_back ("out.spoc");
        auto snk = sink ("out", app + ".wr");
        Proc *p = app_proc (w, app, args, src, snk);
        w.run ();
        if (!sane (w, app)) return false;
        if (!check (p->ok (), "app-failed:" + app, app + ": " + p->status () + " " + p->err_text ())) return false;
        out = how == 2 ? w.fs.get ("out.spoc") : snk->data;
        return true;
    };
    sample ("spoc_compress, then spoc_decompress: " + brief (c));
    if (!one ("compress", plain, z)) return;
    ref::Cloud d, want = c;
    std::string why;
    want.compressed = true;
    if (!check (ref::decode_all (z, d, why), "app-output:compress", "spoc_compress wrote something that is not a SPOC file: " + why)) return;
    why = ref::diff (want, d);
    if (!check (why.empty (), "app-differs:compress", why)) return;
    if (!one ("decompress", z, back)) return;
    nontrivial ();
    if (!check (ref::decode_all (back, d, why), "app-output:decompress", "spoc_decompress wrote something that is not a SPOC file: " + why)) return;
    why = ref::diff (c, d);
    check (why.empty (), "app-differs:decompress", why);
}

// ---------------------------------------------------------------- C02
SCENARIO (C02, emit, 3)
{
    WritePlan wp;
    ref::Cloud c = ref::gen ("c");
    wp.clouds = {c};
    wp.writer = pick_writer (c, "writer");
    wp.dst = int (choose ("dst", 3));
    wp.path = "out.spoc";
    World w;
    env_world (w);
    auto snk = sink ("out", "wr");
    if (wp.dst == DST_FILE) chunky (w.fs.faults["out.spoc"], "wr");
    Proc *p = node_proc (w, "node_write", wp, "writer", nullptr, snk);
    w.run ();
    sample (fmt ("%s: %s", wr_name (wp.writer), brief (c).c_str ()));
    if (!sane (w, "write")) return;
    nontrivial ();
    if (!check (!wp.threw && p->ok (), "write-failed", wp.what)) return;
    const Bytes b = written (w, wp, p);
    ref::Cloud h = c; // the count of extra fields of an empty cloud is not kept
    if (c.r.empty ()) h.extra = b.size () > 8 + c.wkt.size () ? u8 (b[8 + c.wkt.size ()]) : 0;
    if (!c.compressed)
        check (b == ref::encode (h), "layout:plain", "the bytes written are not the documented layout");
    else
    {
        const Bytes want = ref::header (h.wkt, h.extra, h.r.size (), 1);
        if (!check (b.compare (0, want.size (), want) == 0, "layout:header", "the header written is not the documented layout")) return;
        ref::Cloud d;
        std::string why;
        if (!check (ref::decode_all (b, d, why), "layout:compressed", "an independent decoder rejects the file: " + why)) return;
        why = ref::diff (c, d);
        check (why.empty (), "layout:content", "an independent decoder sees other points: " + why);
    }
}
SCENARIO (C02, accept, 3)
{
    ref::Cloud c = ref::gen ("c");
    const ref::Peer peer = ref::gen_peer ("peer");
    ReadPlan rp;
    rp.reader = pick_reader (c, "reader");
    World w;
    env_world (w);
    OfdP in = read_setup (w, rp, ref::encode (c, peer), "rd");
    node_proc (w, "node_read", rp, "reader", in);
    w.run ();
    sample (fmt ("%s of a peer's file: %s (zlib level %d, strategy %d, window %d, flush every %d, zero fields encoded %x)", rd_name (rp.reader), brief (c).c_str (), peer.level, peer.strategy, peer.wbits, peer.flush_every, peer.force_zero));
    if (!sane (w, "read")) return;
    nontrivial ();
    if (!check (!rp.got[0].threw, "rejected", "a well formed file was rejected: " + rp.got[0].what)) return;
    const std::string d = ref::diff (c, rp.got[0].c);
    if (!check (d.empty (), "misread", d)) return;
    check (rp.rest.empty (), "framing", "bytes left over");
}
SCENARIO (C02, accept_app, 2)
{
    // programs fed by an independent peer, and what they emit
    ref::Cloud c = ref::gen ("c");
    const ref::Peer peer = ref::gen_peer ("peer");
    static const char *apps[] = {"decompress", "compress", "filter", "transform"};
    int k = int (choose ("app", 4));
    if (k == 0) c.compressed = true;
    if (k == 1 || k == 3) c.compressed = false;
    World w;
    env_world (w);
    auto snk = sink ("out", "wr");
    Strs args;
    if (k == 3) args = {"--copy-field=p,p"};
    Proc *p = app_proc (w, apps[k], args, source (ref::encode (c, peer), "src", "rd"), snk);
    w.run ();
    sample (fmt ("spoc_%s on a peer's file: %s", apps[k], brief (c).c_str ()));
    if (!sane (w, apps[k])) return;
    nontrivial ();
    if (!check (p->ok (), fmt ("rejected:%s", apps[k]), p->status () + " " + p->err_text ())) return;
    ref::Cloud want = c, d;
    if (k == 0) want.compressed = false;
    if (k == 1) want.compressed = true;
    std::string why;
    if (!check (ref::decode_all (snk->data, d, why), fmt ("layout:%s", apps[k]), "an independent decoder rejects the output: " + why)) return;
    why = ref::diff (want, d);
    check (why.empty (), fmt ("differs:%s", apps[k]), why);
    if (!want.compressed && !want.r.empty ()) check (snk->data == ref::encode (want), fmt ("layout:%s", apps[k]), "not the documented bytes");
}
SCENARIO (C02, reject, 1)
{
    ref::Cloud c = ref::gen ("c");
    Bytes b = ref::encode (c, ref::gen_peer ("peer"));
    const size_t at = choose ("at", 6);
    b[at] = char (u8 (b[at]) ^ u8 (1 + choose ("xor", 255)));
    World w;
    env_world (w);
    if (chance ("app", 0.4))
    {
        static const char *apps[] = {"decompress", "compress", "filter", "transform", "info", "srs", "tool"};
        const int k = int (choose ("which", 7));
        Strs args;
        if (k == 6) args = {"--subtract-min-xyz"};
        Proc *p = app_proc (w, apps[k], args, source (b, "src", "rd"));
        w.run ();
        sample (fmt ("spoc_%s on a file with byte %zu of the signature or version changed", apps[k], at));
        if (!sane (w, apps[k])) return;
        nontrivial ();
        check (p->clean_failure () && !p->err_text ().empty (), fmt ("accepted:%s", apps[k]), "wrong signature or version accepted: " + p->status ());
        return;
    }
    ReadPlan rp;
    rp.reader = int (choose ("reader", 6));
    OfdP in = read_setup (w, rp, b, "rd");
    node_proc (w, "node_read", rp, "reader", in);
    w.run ();
    sample (fmt ("%s on a file with byte %zu of the signature or version changed", rd_name (rp.reader), at));
    if (!sane (w, "read")) return;
    nontrivial ();
    check (rp.got[0].threw, "accepted", fmt ("%s accepted a file whose byte %zu is 0x%02x", rd_name (rp.reader), at, u8 (b[at])));
}

// ---------------------------------------------------------------- C03 (library; the programs are in scen_app.cpp)
SCENARIO (C03, reader, 4)
{
    ref::Gen g;
    g.max_pts = 40;
    const int n = 1 + int (maybe ("files", 0.2, 3));
    std::vector<ref::Cloud> cs;
    Bytes all;
    std::vector<u64> ends;
    ref::Layout lay;
    g.compressed = int (choose ("comp", 2));
    for (int i = 0; i < n; ++i)
    {
        cs.push_back (ref::gen (fmt ("c%d", i), g));
        all += ref::encode (cs.back (), ref::gen_peer (fmt ("peer%d", i)), lay);
        ends.push_back (all.size ());
    }
    if (n > 1) lay = ref::Layout ();
    ReadPlan rp;
    rp.reader = pick_reader (cs[0], "reader");
    if (chance ("hdr", 0.15)) { rp.reader = RD_HEADER; }
    rp.count = rp.reader == RD_HEADER ? 1 : n;
    rp.want_rest = false;
    rp.exceptions = chance ("exc", 0.1);
    const u64 cut = cut_offset ("cut", all.size (), n == 1 ? &lay : nullptr);
    const int err = choose ("err", 3) == 0 ? EIO : 0;
    World w;
    env_world (w);
    rp.src = int (choose ("src", 3));
    OfdP in;
    if (rp.src == SRC_STRING) rp.data = all.substr (0, cut);
    else if (rp.src == SRC_FILE)
    {
        rp.path = "in.spoc";
        Faults &f = w.fs.faults["in.spoc"];
        chunky (f, "rd");
        const bool hard = choose ("hard", 2);
        w.fs.put ("in.spoc", hard && !err ? all.substr (0, cut) : all);
        if (!hard || err) { f.rd_fail_at = i64 (cut); f.rd_errno = err; }
        else note ("fault.truncated_file");
    }
    else
    {
        in = source (all, "src", "rd");
        in->f.rd_fail_at = i64 (cut);
        in->f.rd_errno = err;
    }
    node_proc (w, "node_read", rp, "reader", in);
    w.run ();
    sample (fmt ("%s, input %s after %llu of %zu bytes: %s", rd_name (rp.reader), err && rp.src != SRC_STRING ? "fails (EIO)" : "ends", (unsigned long long) cut, all.size (), brief (cs[0]).c_str ()));
    if (!sane (w, "read")) return;
    nontrivial ();
    if (rp.reader == RD_HEADER)
    {
        const u64 need = 18 + cs[0].wkt.size ();
        const Got &r = rp.got[0];
        if (cut >= need) check (!r.threw && r.c.wkt == cs[0].wkt && r.c.extra == cs[0].extra && r.total == cs[0].r.size (), "header-rejected", "a complete header was rejected or misread");
        else check (r.threw, "accepted-truncated:read_header", "a header cut after " + std::to_string (cut) + " bytes was accepted");
        return;
    }
    for (int i = 0; i < n; ++i)
    {
        if (ends[i] <= cut)
        {
            if (!check (int (rp.got.size ()) > i && !rp.got[i].threw, "complete-rejected", "a complete file before the failure was rejected")) return;
            if (!check (ref::diff (cs[i], rp.got[i].c).empty (), "complete-misread", "a complete file before the failure was misread")) return;
        }
        else
        {
            check (int (rp.got.size ()) > i && rp.got[i].threw, fmt ("accepted-truncated:%s", rd_name (rp.reader)),
                fmt ("%s returned %zu points although its input stopped after %llu of %llu bytes", rd_name (rp.reader), int (rp.got.size ()) > i ? rp.got[i].c.r.size () : 0, (unsigned long long) cut, (unsigned long long) ends[i]));
            return;
        }
    }
}

// ---------------------------------------------------------------- C04 (library)
SCENARIO (C04, writer, 3)
{
    ref::Gen g;
    g.max_pts = 40;
    g.many = 3000;
    WritePlan wp;
    const int n = 1 + int (maybe ("files", 0.2, 3));
    const int comp = int (choose ("comp", 2));
    g.compressed = comp;
    u64 approx = 0;
    for (int i = 0; i < n; ++i) { wp.clouds.push_back (ref::gen (fmt ("c%d", i), g)); approx += ref::encode (wp.clouds.back ()).size (); }
    wp.writer = pick_writer (wp.clouds[0], "writer");
    wp.dst = int (choose ("dst", 2));
    wp.path = "out.spoc";
    Faults f;
    chunky (f, "wr");
    const bool transient = chance ("none", 0.15);
    static const int errs[] = {ENOSPC, EIO, EPIPE};
    if (!transient)
    {
        f.wr_fail_at = i64 (cut_offset ("fail", approx + 20));
        f.wr_errno = errs[choose ("errno", wp.dst == DST_FILE ? 2 : 3)];
        if (chance ("once", 0.2)) f.wr_fail_times = 1;
    }
    World w;
    env_world (w);
    auto snk = make_sink ("out");
    snk->f = f;
    const bool full = wp.dst == DST_FILE && !transient && chance ("diskfull", 0.5);
    if (full) { w.fs.free_bytes = u64 (f.wr_fail_at); f.wr_fail_at = -1; }
    if (wp.dst == DST_FILE) w.fs.faults["out.spoc"] = f;
    u64 promised = 0, accepted = 0; // at the moment a writer returned
    bool lied = false;
    size_t k = 0;
    std::shared_ptr<Sink> s2 = snk;
    WritePlan *pw = &wp;
    Bytes expect_so_far;
    wp.after_write = [&] {
        accepted = pw->dst == DST_FILE ? W->fs.get ("out.spoc").size () : s2->accepted;
        const Bytes &have = pw->dst == DST_FILE ? W->fs.get ("out.spoc") : s2->data;
        ref::Cloud d;
        std::string why;
        size_t used = 0;
        if (promised > have.size () || !ref::decode (have.substr (promised), d, why, &used) || !ref::diff (pw->clouds[k], d).empty ()) lied = true;
        promised += used;
        ++k;
    };
    Spec s;
    s.module = "node"; s.entry = "node_write"; s.name = "writer"; s.user = &wp; s.out = snk;
    env_spec (s);
    s.ignore_sigpipe = choose ("sigpipe", 2);
    w.spawn (s);
    w.run ();
    sample (fmt ("%s of %d file(s) to %s, device %s at byte %lld: %s", wr_name (wp.writer), n, wp.dst == DST_FILE ? "a file" : "stdout", transient ? "sound" : full ? "full" : strerror (f.wr_errno), (long long) (full ? i64 (w.fs.free_bytes) : f.wr_fail_at), brief (wp.clouds[0]).c_str ()));
    if (!sane (w, "write")) return;
    nontrivial ();
    check (!lied, fmt ("writer-lied:%s", wr_name (wp.writer)), fmt ("%s returned although the device had not accepted the whole file", wr_name (wp.writer)));
    if (transient) check (!wp.threw && wp.done == wp.clouds.size (), "writer-failed", "writing to a sound device failed: " + wp.what);
}

// ---------------------------------------------------------------- C05 (library)
// damages a file: header fields, lengths, counts, payload, random bytes
Bytes mutate (Bytes b, const ref::Cloud &c, const ref::Layout &l, const std::string &st)
{
    auto put = [&] (size_t at, u64 v, size_t n) { for (size_t i = 0; i < n && at + i < b.size (); ++i) b[at + i] = char (v >> (8 * i)); };
    static const u64 big[] = {0, 1, 2, 255, 256, 65535, 65536, 1000000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0x100000000ull, 0x7FFFFFFFFFFFFFFFull, 0x8000000000000000ull, 0xFFFFFFFFFFFFFFFFull, 0x0199999999999999ull, 0x666666666666667ull, 0x2000000000000000ull};
    const int n = 1 + int (maybe (st + ".more", 0.3, 4));
    for (int k = 0; k < n && !b.empty (); ++k)
    {
        const size_t wl = c.wkt.size ();
        auto num = [&] (u64 cur) -> u64 {
            switch (choose (st + ".how", 5))
            {
                case 0: return big[choose (st + ".big", sizeof big / sizeof *big)];
                case 1: return cur + 1 + skew (st + ".plus", 100000);
                case 2: return cur - 1 - skew (st + ".minus", 100);
                case 3: return cur ^ (1ull << choose (st + ".bit", 64));
                default: return raw64 (st + ".any");
            }
        };
        switch (choose (st + ".what", 9))
        {
            case 0: put (9 + wl, num (c.r.size ()), 8); break;                              // point count
            case 1: put (8 + wl, num (c.extra), 1); break;                                  // extra fields
            case 2: put (6, num (wl), 2); break;                                            // WKT length
            case 3: put (17 + wl, num (c.compressed), 1); break;                            // compression flag
            case 4: if (!l.fields.empty ()) { auto &f = l.fields[choose (st + ".field", l.fields.size ())]; put (f.first, num (f.second), 8); break; } [[fallthrough]];
            case 5: { const size_t at = choose (st + ".at", b.size ()); b[at] = char (raw64 (st + ".byte")); break; }
            case 6: b.resize (cut_offset (st + ".trunc", b.size ())); break;
            case 7: { const size_t at = choose (st + ".dup", b.size ()); const size_t m = 1 + skew (st + ".dupn", 64); b.insert (at, b.substr (at, m)); break; }
            default: { const size_t at = choose (st + ".del", b.size ()); b.erase (at, 1 + skew (st + ".deln", 64)); break; }
        }
    }
    return b;
}
SCENARIO (C05, reader, 4)
{
    ref::Gen g;
    g.max_pts = 30;
    ref::Cloud c = ref::gen ("c", g);
    ref::Layout l;
    Bytes b = mutate (ref::encode (c, ref::gen_peer ("peer"), l), c, l, "mut");
    if (chance ("noise", 0.05)) { b.clear (); const u64 s = raw64 ("noise.s"), m = choose ("noise.n", 400); for (u64 i = 0; i < m; ++i) b += char (mix (s, i)); if (choose ("noise.sig", 2)) b.replace (0, std::min<size_t> (6, b.size ()), std::string ("SPOC\0\1", 6)); }
    ReadPlan rp;
    rp.reader = int (choose ("reader", 6));
    rp.count = 1;
    World w;
    w.max_steps = 120000000;
    env_world (w);
    OfdP in = read_setup (w, rp, b, "rd");
    Spec s;
    s.module = "node"; s.entry = "node_read"; s.name = "reader"; s.user = &rp; s.in = in;
    env_spec (s);
    s.mem_limit = size_t (8 + choose ("mem", 40)) << 20;
    w.spawn (s);
    w.run ();
    sample (fmt ("%s on a damaged file (%zu bytes; was %s)", rd_name (rp.reader), b.size (), brief (c).c_str ()));
    if (!sane (w, rd_name (rp.reader))) return;
    nontrivial ();
    const Got &r = rp.got[0];
    note (r.threw ? "outcome.rejected" : "outcome.accepted");
    if (r.threw) { check (r.what != "not a std::exception", "odd-exception", "threw something that is not a std::exception"); return; }
    ref::Cloud d;
    std::string why;
    size_t used = 0;
    if (rp.reader == RD_HEADER)
    {
        if (!check (b.size () >= 18 && b.size () >= 18u + u8 (b[6]) + 256u * u8 (b[7]), "invented:read_header", "a header was returned although the bytes end inside it")) return;
        const size_t wl = u8 (b[6]) + 256u * u8 (b[7]);
        u64 tot;
        memcpy (&tot, &b[9 + wl], 8);
        check (r.c.wkt == b.substr (8, wl) && r.c.extra == u8 (b[8 + wl]) && r.total == tot, "misread:read_header", "header fields do not match the bytes");
        return;
    }
    if (rp.reader == RD_RECORDS && b.size () >= 18 && (b.size () >= 18u + u8 (b[6]) + 256u * u8 (b[7])))
        b[17 + u8 (b[6]) + 256u * u8 (b[7])] = 0; // the record reader is told to read plain records
    if (!check (ref::decode (b, d, why, &used, true), fmt ("invented:%s", rd_name (rp.reader)), fmt ("%zu points returned, but %s", r.c.r.size (), why.c_str ()))) return;
    d.compressed = r.c.compressed;
    why = ref::diff (d, r.c);
    if (!check (why.empty (), fmt ("misread:%s", rd_name (rp.reader)), why)) return;
    check (rp.rest.size () == b.size () - used, "framing", "did not consume exactly the file");
}

// ---------------------------------------------------------------- C06
// Adler-32 is 32 bits and weak on repetitive data: damage may leave a stream that is complete and whose checksum
// matches. Such a file is a valid encoding of other points; then those points, by an independent decoder, are right
static bool collision (const Bytes &b, ref::Cloud got)
{
    ref::Cloud d;
    std::string why;
    if (!ref::decode (b, d, why, nullptr, true)) return false;
    got.compressed = d.compressed;
    if (!ref::diff (d, got).empty ()) return false;
    note ("outcome.checksum_collision");
    return true;
}
SCENARIO (C06, payload, 4)
{
    ref::Gen g;
    g.max_pts = 60;
    g.min_pts = 1;
    g.compressed = 1;
    ref::Cloud c = ref::gen ("c", g);
    ref::Peer peer = ref::gen_peer ("peer");
    ref::Layout l;
    const Bytes whole = ref::encode (c, peer, l);
    std::vector<size_t> cand;
    for (size_t k = 0; k < l.fields.size (); ++k) if (l.fields[k].second) cand.push_back (k);
    if (cand.empty ()) return;
    const size_t fk = cand[choose ("field", cand.size ())];
    const size_t at = l.fields[fk].first, n = l.fields[fk].second;
    Bytes z = whole.substr (at + 8, n);
    const int kind = int (choose ("damage", 7));
    std::string what;
    switch (kind)
    {
        case 0: { const size_t p = cut_offset ("pos", n); z[p] = char (u8 (z[p]) ^ (1u << choose ("bit", 8))); what = fmt ("bit flipped in byte %zu", p); break; }
        case 1: { const size_t p = cut_offset ("pos", n); z[p] = char (u8 (z[p]) ^ u8 (1 + choose ("xor", 255))); what = fmt ("byte %zu changed", p); break; }
        case 2: { const size_t p = std::max<size_t> (1, cut_offset ("pos", n)); z.resize (p); what = fmt ("cut to %zu bytes", p); break; }
        case 3: { const size_t p = cut_offset ("pos", n); z.erase (p, 1 + skew ("len", 20)); if (z.empty ()) z = "x"; what = fmt ("bytes lost at %zu", p); break; }
        case 4: { const size_t p = cut_offset ("pos", n); z.insert (p, z.substr (p, 1 + skew ("len", 20))); what = fmt ("bytes repeated at %zu", p); break; }
        case 5: { const size_t p = cut_offset ("pos", n), m = 1 + skew ("len", 64); for (size_t i = p; i < std::min (n, p + m); ++i) z[i] = 0; what = fmt ("zeroed from %zu", p); break; }
        default:
        {
            const size_t m = 1 + skew ("len", 64);
            if (n >= 2 * m) { const size_t p = choose ("pos2", n - 2 * m + 1); std::swap_ranges (z.begin () + p, z.begin () + p + m, z.begin () + p + m); }
            what = "blocks swapped";
        }
    }
    const bool patch = z.size () != n && choose ("patch", 3) != 0;
    Bytes b = whole.substr (0, at);
    const u64 len = patch ? z.size () : n;
    b.append ((const char *) &len, 8);
    b += z + whole.substr (at + 8 + n);
    note ("fault.storage_damage");
    World w;
    env_world (w);
    if (chance ("app", 0.2))
    {
        auto snk = sink ("out", "wr");
        Proc *p = app_proc (w, "decompress", {}, source (b, "src", "rd"), snk);
        w.run ();
        sample (fmt ("spoc_decompress, field %zu %s%s: %s", fk, what.c_str (), patch ? ", length patched" : "", brief (c).c_str ()));
        if (!sane (w, "decompress")) return;
        nontrivial ();
        note (p->ok () ? "outcome.accepted" : "outcome.rejected");
        if (p->ok ())
        {
            ref::Cloud d, want = c;
            want.compressed = false;
            std::string why;
            if (ref::decode_all (snk->data, d, why)) why = ref::diff (want, d);
            if (!why.empty () && collision (b, d)) return;
            check (why.empty (), "silent-damage:decompress", "damaged payload, exit status 0, but " + why);
        }
        return;
    }
    ReadPlan rp;
    static const int rd[] = {RD_AUTO, RD_COMP, RD_POINTS};
    rp.reader = rd[choose ("reader", 3)];
    rp.want_rest = false;
    OfdP in = read_setup (w, rp, b, "rd");
    node_proc (w, "node_read", rp, "reader", in);
    w.run ();
    sample (fmt ("%s, field %zu %s%s: %s", rd_name (rp.reader), fk, what.c_str (), patch ? ", length patched" : "", brief (c).c_str ()));
    if (!sane (w, "read")) return;
    nontrivial ();
    note (rp.got[0].threw ? "outcome.rejected" : "outcome.accepted");
    if (!rp.got[0].threw)
    {
        const std::string d = ref::diff (c, rp.got[0].c);
        if (!d.empty () && collision (b, rp.got[0].c)) return;
        check (d.empty (), "silent-damage", fmt ("field %zu %s, but %s returned: %s", fk, what.c_str (), rd_name (rp.reader), d.c_str ()));
    }
}
SCENARIO (C06, api, 2)
{
    // zlib streams of the general compression API
    const u64 n = choose ("big", 8) == 0 ? skew ("n", 200000) : skew ("n", 3000);
    const u64 s = raw64 ("s"), alpha = 1 + choose ("alpha", 256);
    Bytes in;
    for (u64 i = 0; i < n; ++i) in += char (mix (s, i) % alpha);
    ref::Peer peer = ref::gen_peer ("peer");
    Bytes z = ref::deflate_bytes (in, peer);
    const size_t m = z.size ();
    const int kind = int (choose ("damage", 4));
    const size_t p = cut_offset ("pos", m);
    if (kind == 0) z[p] = char (u8 (z[p]) ^ (1u << choose ("bit", 8)));
    else if (kind == 1) z.resize (p);
    else if (kind == 2) z.erase (p, 1 + skew ("len", 20));
    else z.insert (p, z.substr (p, 1 + skew ("len", 20)));
    note ("fault.storage_damage");
    CompPlan cp;
    cp.decompress = true;
    cp.api = choose ("api", 2) ? CZ_STREAM : CZ_MEM;
    cp.sized = cp.api == CZ_MEM && choose ("sized", 2);
    cp.size = in.size ();
    cp.in = z;
    cp.src = choose ("src", 2) ? SRC_CIN : SRC_STRING;
    cp.dst = DST_STRING;
    World w;
    env_world (w);
    node_proc (w, "node_comp", cp, "node", source (z, "src", "rd"));
    w.run ();
    sample (fmt ("decompress (%s) of a damaged stream of %zu bytes (%zu plain), damage kind %d at %zu", cp.api == CZ_STREAM ? "stream" : "memory", m, in.size (), kind, p));
    if (!sane (w, "decompress")) return;
    nontrivial ();
    note (cp.threw ? "outcome.rejected" : "outcome.accepted");
    Bytes chk;
    if (!cp.threw && cp.out != in && ref::inflate_bytes (z, chk, in.size () + 1000000, true) && chk == cp.out) { note ("outcome.checksum_collision"); return; }
    if (!cp.threw) check (cp.out == in, fmt ("silent-damage:%s", cp.api == CZ_STREAM ? "stream" : "memory"), fmt ("decompress returned %zu bytes that are not the original %zu", cp.out.size (), in.size ()));
}

// ---------------------------------------------------------------- C21
static Bytes payload (const std::string &st)
{
    u64 n;
    switch (choose (st + ".size", 12))
    {
        case 0: n = skew (st + ".n", 2000); break;
        case 1: n = (1u << 20) - 3 + choose (st + ".n", 7); break;         // around the internal buffer size
        case 2: n = (2u << 20) - 3 + choose (st + ".n", 7); break;
        case 3: n = skew (st + ".n", 300000); break;
        case 4: n = choose (st + ".n", 4); break;
        default: n = skew (st + ".n", 20000); break;
    }
    const u64 s = raw64 (st + ".s"), alpha = 1 + choose (st + ".alpha", 256), run = 1 + skew (st + ".run", 100);
    Bytes b;
    b.reserve (n);
    for (u64 i = 0; i < n; ++i) b += char (mix (s, i / run) % alpha);
    return b;
}
static void comp_setup (World &w, CompPlan &cp, const Bytes &in, OfdP &src, std::shared_ptr<Sink> &snk, const std::string &st)
{
    cp.in = in;
    cp.api = int (choose (st + ".api", 3));
    if (cp.api == CZ_STREAM)
    {
        cp.src = int (choose (st + ".src", 3));
        cp.dst = int (choose (st + ".dst", 3));
        cp.in_path = "in.bin";
        cp.out_path = "out.bin";
        if (cp.src == SRC_FILE) { w.fs.put ("in.bin", in); chunky (w.fs.faults["in.bin"], st + ".rd"); }
        if (cp.src == SRC_CIN) src = source (in, "src", st + ".rd");
        snk = make_sink ("out");
        chunky (snk->f, st + ".wr");
        chunky (w.fs.faults["out.bin"], st + ".wr");
    }
}
static Bytes comp_out (World &w, const CompPlan &cp, std::shared_ptr<Sink> snk)
{
    if (cp.api != CZ_STREAM || cp.dst == DST_STRING) return cp.out;
    return cp.dst == DST_FILE ? w.fs.get ("out.bin") : snk->data;
}
// more bytes than fit in 32 bits
static unsigned char *reserve (u64 n)
{
    void *m = mmap (nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return m == MAP_FAILED ? nullptr : static_cast<unsigned char *> (m);
}
static void giant_compress ()
{
    const u64 n = (1ull << 32) + (choose ("size", 3) == 0 ? 0 : choose ("over", 100000));
    unsigned char *m = reserve (n);
    if (!m) return;
    // zeros, except for some pages
    const u64 sd = raw64 ("data");
    for (int k = 0; k < 12; ++k)
    {
        const u64 at = k == 0 ? 0 : k == 1 ? n - 100 : k == 2 ? (1ull << 32) - 50 : k < 6 ? (u64 (k - 2) << 30) - 50 : ref::h (sd, k) % (n - 100);
        for (u64 i = 0; i < 100 && at + i < n; ++i) m[at + i] = (unsigned char) (ref::h (sd ^ 7, at + i));
    }
    CompPlan cp;
    cp.level = 1;
    cp.api = choose ("api", 2) ? CZ_MEM : CZ_VEC;
    cp.big = m;
    cp.big_size = n;
    World w;
    env_world (w, "env1");
    Proc *p = node_proc (w, "node_comp", cp, "compress");
    w.run ();
    sample (fmt ("compress (api %d) %llu bytes", cp.api, (unsigned long long) n));
    if (!sane (w, "compress")) return;
    nontrivial ();
    note ("giant.compress");
    if (!check (p->ok () && !cp.threw, "compress-failed", "compress failed: " + cp.what)) return;
    z_stream s {};
    inflateInit (&s);
    s.next_in = (Bytef *) cp.out.data ();
    s.avail_in = uInt (cp.out.size ());
    std::vector<unsigned char> buf (1 << 20);
    u64 got = 0;
    int ret = Z_OK;
    while (ret == Z_OK)
    {
        s.next_out = buf.data ();
        s.avail_out = uInt (buf.size ());
        ret = inflate (&s, Z_NO_FLUSH);
        const u64 k = buf.size () - s.avail_out;
        if (got + k > n || memcmp (m + got, buf.data (), k) != 0) { check (false, "compress-output", fmt ("%llu bytes: the stream differs between bytes %llu and %llu", (unsigned long long) n, (unsigned long long) got, (unsigned long long) (got + k))); inflateEnd (&s); return; }
        got += k;
    }
    inflateEnd (&s);
    check (ret == Z_STREAM_END && got == n && s.avail_in == 0, "compress-output", fmt ("compress was given %llu bytes and its output holds %llu of them", (unsigned long long) n, (unsigned long long) got));
}
static void giant_decompress ()
{
    // a valid zlib stream: empty stored blocks without end and some data after them
    const u64 period = 20480 * 64, reps = 3300, lead = 4096;
    const int fd = memfd_create ("blocks", 0);
    if (fd < 0) return;
    Bytes blocks;
    for (u64 i = 0; i < period / 5; ++i) blocks += Bytes ("\0\0\0\xff\xff", 5);
    if (write (fd, blocks.data (), blocks.size ()) != ssize_t (blocks.size ())) { close (fd); return; }
    unsigned char *m = reserve (lead + period * reps + 4096 * 20);
    if (!m) { close (fd); return; }
    for (u64 i = 0; i < reps; ++i)
        if (mmap (m + lead + i * period, period, PROT_READ, MAP_PRIVATE | MAP_FIXED, fd, 0) == MAP_FAILED) { close (fd); return; }
    close (fd);
    const Bytes data = payload ("in").substr (0, 4000);
    const Bytes z = ref::deflate_bytes (data, ref::Peer {});
    // the header and a first stored block with 4089 - 5 * k bytes of data
    Bytes head = z.substr (0, 2), first;
    const u64 room = lead - 2 - 5;
    for (u64 i = 0; i < room; ++i) first += char (ref::h (77, i));
    head += char (0); head += char (room & 255); head += char (room >> 8); head += char (~room & 255); head += char ((~room >> 8) & 255);
    head += first;
    memcpy (m, head.data (), lead);
    Bytes tail;
    tail += char (1); tail += char (data.size () & 255); tail += char (data.size () >> 8); tail += char (~data.size () & 255); tail += char ((~data.size () >> 8) & 255);
    tail += data;
    const Bytes want = first + data;
    const uLong a = adler32 (adler32 (0, nullptr, 0), (const Bytef *) want.data (), uInt (want.size ()));
    for (int k = 3; k >= 0; --k) tail += char (a >> (8 * k));
    const bool cut = choose ("cut", 3) == 2;
    if (cut) tail.resize (tail.size () - 1 - choose ("short", tail.size ()));
    memcpy (m + lead + period * reps, tail.data (), tail.size ());
    CompPlan dp;
    dp.decompress = true;
    dp.big = m;
    dp.big_size = lead + period * reps + tail.size ();
    World w;
    env_world (w, "env2");
    Proc *p = node_proc (w, "node_comp", dp, "decompress");
    w.run ();
    sample (fmt ("decompress a stream of %llu bytes%s", (unsigned long long) dp.big_size, cut ? ", cut" : ""));
    if (!sane (w, "decompress")) return;
    nontrivial ();
    note ("giant.decompress");
    if (cut) { check (dp.threw, "accepted-bad:memory", "decompress returned normally: a stream of more than 4 GiB, cut"); return; }
    if (!check (p->ok () && !dp.threw, "decompress-failed", fmt ("decompress failed for a valid stream of %llu bytes: %s", (unsigned long long) dp.big_size, dp.what.c_str ()))) return;
    check (dp.out == want, "not-lossless", "decompressed bytes differ");
}
SCENARIO (C21, roundtrip, 3)
{
    if (chance ("giant", 0.001))
    {
        patience (140);
        if (choose ("which", 2)) giant_decompress (); else giant_compress ();
        return;
    }
    const Bytes in = payload ("in");
    if (in.size () > 50000) env_min_buf = 4096;
    CompPlan cp, dp;
    cp.level = int (choose ("level", 11)) - 1;
    Bytes z;
    {
        World w;
        env_world (w, "env1");
        OfdP src;
        std::shared_ptr<Sink> snk;
        comp_setup (w, cp, in, src, snk, "c");
        Proc *p = node_proc (w, "node_comp", cp, "compress", src, snk);
        w.run ();
        if (!sane (w, "compress")) return;
        if (!check (p->ok () && !cp.threw, "compress-failed", "compress failed: " + cp.what)) return;
        z = comp_out (w, cp, snk);
    }
    Bytes chk;
    if (!check (ref::inflate_bytes (z, chk, in.size () + 1) && chk == in, "compress-output", "compress did not produce one zlib stream of its input")) return;
    if (choose ("peer", 4) == 0) z = ref::deflate_bytes (in, ref::gen_peer ("peer"));
    World w;
    env_world (w, "env2");
    OfdP src;
    std::shared_ptr<Sink> snk;
    comp_setup (w, dp, z, src, snk, "d");
    dp.decompress = true;
    dp.sized = dp.api != CZ_STREAM && choose ("sized", 2);
    dp.size = in.size ();
    Proc *p = node_proc (w, "node_comp", dp, "decompress", src, snk);
    w.run ();
    sample (fmt ("compress (api %d, level %d) and decompress (api %d) %zu bytes", cp.api, cp.level, dp.api, in.size ()));
    if (!sane (w, "decompress")) return;
    nontrivial ();
    if (!check (p->ok () && !dp.threw, "decompress-failed", "decompress failed: " + dp.what)) return;
    check (comp_out (w, dp, snk) == in, "not-lossless", "decompressed bytes differ");
}
SCENARIO (C21, bad_input, 2)
{
    const Bytes in = payload ("in");
    if (in.size () > 50000) env_min_buf = 4096;
    ref::Peer peer = ref::gen_peer ("peer");
    Bytes z = ref::deflate_bytes (in, peer);
    const int kind = int (choose ("kind", 4));
    std::string what;
    CompPlan dp;
    World w;
    OfdP src;
    std::shared_ptr<Sink> snk;
    dp.decompress = true;
    if (kind == 0) { const u64 at = cut_offset ("cut", z.size ()); z.resize (at); what = fmt ("stream cut at %llu", (unsigned long long) at); note ("fault.truncated_stream"); }
    else if (kind == 1) { const u64 s = raw64 ("rs"), n = choose ("rn", 60); z.clear (); for (u64 i = 0; i < n; ++i) z += char (mix (s, i)); what = "not a zlib stream"; }
    else if (kind == 2) { what = "size announced wrongly"; }
    else { what = "input fails"; }
    comp_setup (w, dp, z, src, snk, "d");
    if (kind == 2) { dp.api = CZ_MEM; dp.sized = true; dp.size = in.size () + (choose ("more", 2) ? 1 + skew ("d", 5000) : (in.empty () ? 1 : -(1 + i64 (skew ("d", in.size ()))))); }
    if (kind == 3)
    {
        dp.api = CZ_STREAM;
        if (dp.src == SRC_STRING || !src) { dp.src = SRC_CIN; src = source (z, "src", "d.rd2"); }
        if (!snk) snk = sink ("out", "d.wr2");
        src->f.rd_fail_at = i64 (cut_offset ("at", z.size ()));
        src->f.rd_errno = choose ("eof", 3) ? EIO : 0;
    }
    Bytes chk;
    const bool valid = kind != 2 && kind != 3 && ref::inflate_bytes (z, chk, in.size () + 1000000);
    env_world (w);
    node_proc (w, "node_comp", dp, "decompress", src, snk);
    w.run ();
    sample (fmt ("decompress (api %d): %s", dp.api, what.c_str ()));
    if (!sane (w, "decompress")) return;
    nontrivial ();
    if (!valid) check (dp.threw, fmt ("accepted-bad:%s", dp.api == CZ_STREAM ? "stream" : "memory"), "decompress returned normally: " + what);
}
SCENARIO (C21, compress_faults, 2)
{
    const Bytes in = payload ("in");
    if (in.size () > 50000) env_min_buf = 4096;
    CompPlan cp;
    cp.level = int (choose ("level", 11)) - 1;
    World w;
    env_world (w);
    OfdP src;
    std::shared_ptr<Sink> snk;
    const int kind = int (choose ("kind", 4));
    comp_setup (w, cp, in, src, snk, "c");
    Spec s;
    if (kind == 0) { cp.level = choose ("lv", 2) ? 10 + int (choose ("lv2", 1000)) : -2 - int (choose ("lv2", 1000)); }
    else if (kind == 1)
    {
        cp.api = CZ_STREAM;
        cp.src = SRC_FILE; // through stdin the C library reports a failing read as its end
        cp.in_path = "in.bin";
        w.fs.put (cp.in_path, in);
        Faults &f = w.fs.faults[cp.in_path];
        chunky (f, "c.rd2");
        f.rd_fail_at = i64 (cut_offset ("at", in.size () + 1));
        f.rd_errno = EIO;
    }
    else if (kind == 2 || kind == 3)
    {
        cp.api = CZ_STREAM;
        cp.decompress = kind == 3;
        if (kind == 3) { cp.in = ref::deflate_bytes (in, ref::gen_peer ("peer")); }
        cp.src = SRC_STRING;
        cp.dst = DST_COUT;
        snk = make_sink ("out");
        chunky (snk->f, "c.wr2");
        snk->f.wr_fail_at = i64 (choose ("at", 4) == 0 ? 0 : skew ("at2", in.size () + 1));
        snk->f.wr_errno = choose ("errno", 2) ? ENOSPC : EIO;
    }
    bool lied = false;
    if (cp.api == CZ_STREAM && !snk) { cp.dst = DST_STRING; }
    auto *pc = &cp;
    cp.after = [&, pc] {
        if (pc->dst != DST_COUT || pc->api != CZ_STREAM) return;
        Bytes chk;
        if (pc->decompress ? snk->data != in : !ref::inflate_bytes (snk->data, chk, in.size () + 1) || chk != in) lied = true;
    };
    s.module = "node"; s.entry = "node_comp"; s.name = "node"; s.user = &cp; s.in = src; s.out = snk;
    env_spec (s);
    w.spawn (s);
    w.run ();
    static const char *k[] = {"invalid level", "input fails", "output refused", "output refused"};
    sample (fmt ("%s (api %d) of %zu bytes: %s", cp.decompress ? "decompress" : "compress", cp.api, in.size (), k[kind]));
    if (!sane (w, cp.decompress ? "decompress" : "compress")) return;
    nontrivial ();
    if (kind <= 1) check (cp.threw, fmt ("not-reported:%s", kind == 0 ? "level" : "input"), std::string ("no exception although: ") + k[kind]);
    else check (!lied, cp.decompress ? "lied:decompress" : "lied:compress", "the call returned although the output stream had refused data");
}

// ---------------------------------------------------------------- C29: readers, writers and the compression API, again and again
SCENARIO (C29, streams, 5)
{
    RepeatPlan p;
    World w;
    env_world (w);
    w.max_steps = 400000000;
    p.what = int (choose ("what", 3));
    std::string what;
    ref::Gen g;
    g.max_pts = 40;
    g.many = 200;
    const int how = int (choose ("how", 4)); // 0: nothing, 1: ends, 2: fails or refuses, 3: damaged
    auto hurt = [&] (Bytes &b, Faults &f) {
        if (b.empty () || how == 0) return;
        const u64 at = cut_offset ("cut", b.size ());
        if (how == 1) b.resize (at);
        else if (how == 2) { f.rd_fail_at = i64 (at); f.rd_errno = EIO; }
        else b[at] = char (b[at] ^ (1 << choose ("bit", 8)));
    };
    auto refuse = [&] (Faults &f, u64 n) {
        if (how == 1) f.close_errno = EIO;
        if (how >= 2) { f.wr_fail_at = i64 (cut_offset ("cut", n + 1)); f.wr_errno = choose ("eio", 2) ? EIO : ENOSPC; if (how == 3) f.wr_fail_times = 1; }
    };
    static const char *hows[] = {"", ", input ends or close fails", ", a device error", ", damaged or refused once"};
    if (p.what == 0)
    {
        const ref::Cloud c = ref::gen ("c", g);
        Bytes b = ref::encode (c, ref::gen_peer ("peer"));
        p.r.src = choose ("src", 2) ? SRC_FILE : SRC_STRING;
        p.r.reader = choose ("fits", 4) ? pick_reader (c, "reader") : int (choose ("any", 6));
        p.r.path = "in.spoc";
        p.r.exceptions = choose ("exceptions", 4) == 0;
        hurt (b, w.fs.faults["in.spoc"]);
        p.r.data = b;
        w.fs.put ("in.spoc", b);
        chunky (w.fs.faults["in.spoc"], "rd");
        what = fmt ("%s of [%s]%s", rd_name (p.r.reader), brief (c).c_str (), hows[how]);
    }
    else if (p.what == 1)
    {
        const ref::Cloud c = ref::gen ("c", g);
        p.w.clouds.push_back (c);
        p.w.dst = choose ("dst", 3) ? DST_FILE : DST_STRING;
        p.w.path = "out.spoc";
        p.w.writer = pick_writer (c, "writer");
        chunky (w.fs.faults["out.spoc"], "wr");
        refuse (w.fs.faults["out.spoc"], ref::encode (c).size ());
        what = fmt ("%s of [%s]%s", wr_name (p.w.writer), brief (c).c_str (), hows[how]);
    }
    else
    {
        Bytes in;
        // now and then more than the library's buffers hold, of bytes that do not shrink
        const bool big = choose ("big", 48) == 0;
        const u64 n = big ? (1 << 20) + skew ("extra", 2600000) : skew ("n", 40000), sd = raw64 ("seed"), al = big ? 256 : 1 + choose ("alpha", 256);
        for (u64 i = 0; i < n; ++i) in += char (ref::h (sd, i) % al);
        CompPlan &c = p.c;
        c.decompress = choose ("decompress", 2);
        c.level = int (choose ("level", 13)) - 2;
        if (big) { c.decompress = false; c.level = int (choose ("level", 3)); }
        if (c.decompress) in = ref::deflate_bytes (in, ref::gen_peer ("peer"));
        c.api = int (choose ("api", 3));
        c.sized = c.decompress && c.api != CZ_STREAM && choose ("sized", 2);
        c.size = choose ("fits", 3) ? n : skew ("size", 50000);
        c.src = choose ("src", 2) ? SRC_FILE : SRC_STRING;
        c.dst = choose ("dst", 2) ? DST_FILE : DST_STRING;
        c.in_path = "in.bin";
        c.out_path = "out.bin";
        const bool out = c.api == CZ_STREAM && c.dst == DST_FILE && choose ("side", 2);
        if (out) refuse (w.fs.faults["out.bin"], n);
        else hurt (in, w.fs.faults["in.bin"]);
        c.in = in;
        w.fs.put ("in.bin", in);
        if (!big) { chunky (w.fs.faults["in.bin"], "rd"); chunky (w.fs.faults["out.bin"], "wr"); }
        what = fmt ("%s (api %d, level %d) of %zu bytes%s%s", c.decompress ? "decompress" : "compress", c.api, c.level, in.size (), hows[how], out ? " (output)" : "");
    }
    Proc *q = node_proc (w, "node_repeat", p, "again");
    w.run ();
    sample (what + ", five times");
    if (w.stuck.starts_with ("budget:")) { note ("outcome.long"); return; } // damage may promise more points than fit the budget
    if (!sane (w, "again")) return;
    if (!check (q->ok () && p.live.size () == 5, "aborted:again", what + ": the process ended with " + q->status ())) return;
    nontrivial ();
    if (p.threw[4]) note ("outcome.threw");
    u64 lost = ~0ull;
    for (size_t k = 2; k < 5; ++k) lost = std::min (lost, p.live[k] > p.live[k - 1] ? p.live[k] - p.live[k - 1] : 0);
    check (lost == 0, p.what == 0 ? "lost:read" : p.what == 1 ? "lost:write" : "lost:compression", what + fmt (": every repetition leaves %llu more bytes allocated", (unsigned long long) lost));
}
