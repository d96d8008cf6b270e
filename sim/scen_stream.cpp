// C08, C09 (noise), C12, C13, C16: streams, pipelines, peers that vanish, reproducibility
#include "job.h"
using namespace job;
using ref::Cloud;
using ref::Rec;

namespace
{
u64 rec_size (const Cloud &c) { return 40 + 8ull * c.extra; }
u64 head_size (const Cloud &c) { return 18 + c.wkt.size (); }
struct Stage
{
    Job j;
    Bytes in, out;
};
// stages of a pipeline, each executed alone on the complete output of the one before, and judged
bool staged (std::vector<Stage> &v, bool report_end, u64 max_pts, const Strs &only = {})
{
    Cloud cur = tame_cloud ("cloud", max_pts);
    if (!only.empty ()) cur.compressed = false;
    bool tame = true;
    const int n = 2 + int (choose ("stages", 4));
    std::map<std::string, int> used;
    for (int k = 0; k < n; ++k)
    {
        Strs apps = only;
        if (apps.empty ())
        {
            apps = cur.compressed ? Strs {"decompress", "filter", "tool", "srs"} : Strs {"compress", "transform", "noop", "filter", "tool", "srs"};
            if (report_end && k == n - 1) { apps.push_back ("info"); apps.push_back ("info"); }
        }
        const std::string st = fmt ("s%d", k);
        const std::string app = apps[choose (st, apps.size ())];
        if (++used[app] > 3) break;
        Opt o;
        o.c = &cur;
        o.stdio = o.valid = true;
        o.tame = tame;
        if (app == "tool")
        {
            static const int cmds[] = {0, 2, 1, 3, 4};
            o.cmd = cmds[choose (st + ".cmd", tame ? 5 : 3)];
        }
        Stage s;
        s.j = make (app, st, o);
        for (auto &i : s.j.in) if (!i.path.empty ()) return false;
        s.j.in[0].b = v.empty () ? ref::encode (cur) : v.back ().out; // exactly what the one before wrote
        s.in = s.j.in[0].b;
        const Model m = s.j.model (s.j.in);
        if (m.any) break;
        Env e;
        e.quiet = true;
        const Res r = run (s.j, e);
        if (!r.sane) return false;
        if (app == "info" && !tame) check (r.ok, "stage:info", show (s.j) + ": " + r.status + " " + r.err); // only compared with the pipeline
        else if (!judge (s.j, m, r, "stage")) return false;
        if (violated ()) return false;
        s.out = r.outs.at ("");
        tame = tame && !s.j.inexact;
        v.push_back (s);
        if (app == "info") break;
        std::string why;
        Cloud next;
        if (!ref::decode_all (s.out, next, why)) { violate ("stage:" + app, show (s.j) + ": " + why); return false; }
        cur = next;
    }
    return v.size () >= 2;
}
std::string tell (const std::vector<Stage> &v)
{
    std::string s;
    for (auto &t : v)
    {
        s += (s.empty () ? "spoc_" : " | spoc_") + t.j.app;
        for (auto &a : t.j.args) s += " " + (a.size () > 40 ? a.substr (0, 40) + "..." : a);
    }
    return s + " on " + brief (v[0].j.in[0].c);
}
struct Pipeline
{
    World w;
    std::vector<Proc *> p;
    std::vector<std::shared_ptr<PipeBuf>> pipe; // behind each stage but the last
    std::shared_ptr<Source> src;
    std::shared_ptr<Sink> snk;
};
void connect (Pipeline &l, const std::vector<std::pair<std::string, Strs>> &stages, const std::function<void (size_t, Spec &)> &tweak = nullptr)
{
    env_world (l.w);
    l.w.max_steps = 400000000;
    l.w.max_events = 6000000;
    OfdP next = l.src;
    for (size_t k = 0; k < stages.size (); ++k)
    {
        Spec s;
        s.module = stages[k].first;
        s.name = fmt ("%s.%zu", stages[k].first.c_str (), k);
        s.args = stages[k].second;
        env_spec (s, fmt ("env%zu", k));
        s.in = next;
        if (k + 1 < stages.size ())
        {
            static const size_t caps[] = {65536, 4096, 1, 100, 17, 1000};
            const size_t cap = std::max (env_min_buf, caps[choose (fmt ("cap%zu", k), 6)]);
            auto pp = make_pipe (cap, fmt ("pipe%zu", k));
            chunky (pp.first->f, fmt ("pr%zu", k));
            chunky (pp.second->f, fmt ("pw%zu", k));
            l.pipe.push_back (std::dynamic_pointer_cast<PipeR> (pp.first)->b);
            s.out = pp.second;
            next = pp.first;
        }
        else s.out = l.snk;
        s.start_at = maybe_skew (fmt ("start%zu", k), 0.3, 1000000000ull);
        if (tweak) tweak (k, s);
        l.p.push_back (l.w.spawn (s));
    }
}
}

// ---------------------------------------------------------------- C08
SCENARIO (C08, pipeline, 6)
{
    std::vector<Stage> v;
    const bool ok = staged (v, true, 60);
    if (violated () || !ok) { sample ("no pipeline"); return; }
    sample (tell (v));
    Pipeline l;
    l.src = make_source (v[0].in, "stdin");
    chunky (l.src->f, "rd");
    l.snk = make_sink ("stdout");
    chunky (l.snk->f, "wr");
    std::vector<std::pair<std::string, Strs>> st;
    for (auto &s : v) st.push_back ({s.j.app, s.j.args});
    connect (l, st);
    l.w.run ();
    if (!sane (l.w, "pipeline")) return;
    nontrivial ();
    note (fmt ("stages.%zu", v.size ()));
    for (size_t k = 0; k < v.size (); ++k)
    {
        if (!check (l.p[k]->ok (), "stage-fails:" + v[k].j.app, tell (v) + fmt (": stage %zu ends with ", k + 1) + l.p[k]->status () + " " + l.p[k]->err_text ())) return;
        const Bytes &got = k + 1 < v.size () ? l.pipe[k]->tee : l.snk->data;
        if (!check (got == v[k].out, "differs:" + v[k].j.app, tell (v) + fmt (": stage %zu writes %zu bytes that are not the %zu it writes when run alone", k + 1, got.size (), v[k].out.size ()))) return;
    }
}
// a tee'd stream whose stages cancel
SCENARIO (C08, inverse, 2)
{
    ref::Gen g;
    g.compressed = 0;
    g.max_pts = 60;
    const Cloud c = ref::gen ("c", g);
    const Bytes in = ref::encode (c);
    std::vector<std::pair<std::string, Strs>> st;
    bool z = false;
    const int n = 2 + int (choose ("stages", 4));
    std::map<std::string, int> used;
    for (int k = 0; k < n || z; ++k)
    {
        const std::string app = z ? "decompress" : (choose ("kind", 2) || used["compress"] == 3) ? "noop" : "compress";
        if (app == "noop" && used[app] == 3) break;
        ++used[app];
        if (app != "noop") z = !z;
        st.push_back ({app, {}});
    }
    Pipeline l;
    l.src = make_source (in, "stdin");
    chunky (l.src->f, "rd");
    l.snk = make_sink ("stdout");
    chunky (l.snk->f, "wr");
    connect (l, st);
    l.w.run ();
    std::string t;
    for (auto &s : st) t += (t.empty () ? "" : " | ") + s.first;
    sample (t + " on " + brief (c));
    if (!sane (l.w, "pipeline")) return;
    nontrivial ();
    for (auto p : l.p) if (!check (p->ok (), "stage-fails:" + p->spec.module, t + ": " + p->spec.name + " ends with " + p->status () + " " + p->err_text ())) return;
    Cloud d;
    std::string why;
    if (ref::decode_all (l.snk->data, d, why)) why = ref::diff (c, d);
    if (why.empty () && !c.r.empty () && l.snk->data != in) why = "other bytes";
    check (why.empty (), "not-inverse", t + " on " + brief (c) + ": " + why);
}

// ---------------------------------------------------------------- C09: noise
SCENARIO (C09, noise, 2)
{
    const bool uni = choose ("uniform", 2);
    static const double mags[] = {1, 0.125, 64, 1000};
    const double m = mags[choose ("mag", 4)];
    const int ax = int (choose ("axis", 4)); // 0: all
    Cloud c = tame_cloud ("c", 20);
    c.compressed = false;
    const u64 n = 120 + choose ("n", 200);
    Rec proto;
    proto.x = double (choose ("x", 100));
    proto.e.resize (c.extra);
    c.r.assign (n, proto); // the same point again and again: what differs is the noise
    for (u64 i = 0; i < n; ++i) c.r[i].c = u32 (i);
    Job j;
    j.app = "transform";
    const std::string seed = choose ("seeded", 2) ? fmt ("%llu", (unsigned long long) choose ("seed", 1000000)) : "";
    if (!seed.empty ()) j.args = {"-a", seed};
    j.args.push_back (fmt ("--%s-noise%s=%g", uni ? "uniform" : "gaussian", ax == 0 ? "" : ax == 1 ? "-x" : ax == 2 ? "-y" : "-z", m));
    In in;
    in.c = c;
    in.b = ref::encode (c);
    j.in.push_back (in);
    const Res r = run (j);
    sample (show (j));
    if (!r.sane) return;
    nontrivial ();
    if (!check (r.ok, "noise-fails", show (j) + ": " + r.status + " " + r.err)) return;
    Cloud d;
    std::string why;
    if (!check (ref::decode_all (r.outs.at (""), d, why) && d.r.size () == n, "noise-output", show (j) + ": " + why)) return;
    std::vector<std::vector<double>> seen;
    for (int a = 0; a < 3; ++a)
    {
        std::vector<double> v;
        for (u64 i = 0; i < n; ++i)
        {
            const double *p[] = {&c.r[i].x, &c.r[i].y, &c.r[i].z}, *q[] = {&d.r[i].x, &d.r[i].y, &d.r[i].z};
            v.push_back (*q[a] - *p[a]);
        }
        const char nm = "xyz"[a];
        if (ax && ax != a + 1)
        {
            for (double x : v) if (!check (x == 0, "noise-axis", show (j) + fmt (": %c changed by %g", nm, x))) return;
            continue;
        }
        double lo = 0, hi = 0, sum = 0, sq = 0;
        std::set<double> distinct;
        for (double x : v) { lo = std::min (lo, x); hi = std::max (hi, x); sum += x; sq += x * x; distinct.insert (x); }
        const double sd = std::sqrt (sq / double (n));
        const std::string w = show (j) + fmt (": noise on %c in [%g,%g], root mean square %g, mean %g, %zu distinct values of %llu", nm, lo, hi, sd, sum / double (n), distinct.size (), (unsigned long long) n);
        if (!check (distinct.size () + 3 >= n, "noise-repeats", w)) return;
        if (!check (lo < 0 && hi > 0, "noise-one-sided", w)) return;
        // far beyond six standard errors
        if (uni && !check (lo >= -m - 1e-9 * m && hi <= m * (1 + 1e-9) && hi > m * 0.8 && lo < -m * 0.8 && std::fabs (sum / double (n)) < 0.4 * m, "noise-range", w)) return;
        if (!uni && !check (hi < 8 * m && lo > -8 * m && sd > 0.5 * m && sd < 1.6 * m && std::fabs (sum / double (n)) < 0.6 * m, "noise-range", w)) return;
        for (auto &o : seen)
        {
            u64 eq = 0;
            for (u64 i = 0; i < n; ++i) if (std::fabs (o[i] - v[i]) < 1e-12 * m) ++eq;
            if (!check (eq <= 2, "noise-shared", w + ": the axes get the same noise")) return;
        }
        seen.push_back (v);
    }
    for (u64 i = 0; i < n; ++i)
    {
        Rec a = c.r[i], b = d.r[i];
        a.x = a.y = a.z = b.x = b.y = b.z = 0;
        if (!check (ref::same (a, b), "noise-else", show (j) + fmt (": record %llu: another field changed", (unsigned long long) i))) return;
    }
}

// ---------------------------------------------------------------- C12
namespace
{
// a valid transformation with options that need no model beyond make_transform's
Job streamer (const std::string &st, const Cloud &c)
{
    Opt o;
    o.c = &c;
    o.stdio = o.valid = true;
    return make (choose (st, 3) == 2 ? "noop" : "transform", st, o);
}
}
SCENARIO (C12, stall, 4)
{
    Cloud c = tame_cloud ("c", 30);
    c.compressed = false;
    if (choose ("long", 3))
    {
        if (c.r.empty ()) c.r.resize (1);
        for (auto &r : c.r) r.e.resize (c.extra);
        const bool far = chance ("far", 0.004);
        const u64 n = far ? 65536 + skew ("n", 5000) : 300 + skew ("n", 3000);
        if (far) coarse = true;
        const std::vector<Rec> some = c.r;
        c.r.clear ();
        for (u64 i = 0; i < n; ++i) { c.r.push_back (some[i % some.size ()]); c.r.back ().p = u32 (i); }
    }
    Job j = streamer ("j", c);
    const Model m = j.model (j.in);
    if (m.fail || m.any || m.outs.empty ()) { sample (show (j)); return; }
    const Bytes full = j.in[0].b;
    const u64 hs = head_size (c), rs = rec_size (c);
    World w;
    env_world (w);
    w.max_steps = 400000000;
    w.max_events = 4000000;
    Spec s;
    env_min_buf = c.r.size () > 60000 ? 4096 : c.r.size () > 300 ? 64 : 1;
    env_spec (s);
    s.module = s.name = j.app;
    s.args = j.args;
    auto src = make_source (full, "stdin");
    chunky (src->f, "rd");
    auto snk = make_sink ("stdout");
    chunky (snk->f, "wr");
    s.in = src;
    s.out = snk;
    const u64 slack = 2 * s.stdio_buf + 2048;
    int stalls = 1 + int (choose ("stalls", 4));
    auto next = [&] (u64 from) { return from + 1 + (choose ("where", 2) ? skew ("arrive", full.size () + 1) : choose ("arrive", full.size () + 1)); };
    src->avail = next (0) - 1;
    std::string bad;
    w.on_quiescent = [&] {
        if (src->avail >= full.size ()) return false;
        note ("fault.stall");
        const u64 k = src->avail < hs ? 0 : (src->avail - hs) / rs, owed = src->avail < hs ? 0 : hs + k * rs;
        if (snk->accepted + slack < owed && bad.empty ()) bad = fmt ("%llu of %zu bytes have arrived, %llu complete records, but only %llu of %llu bytes were delivered", (unsigned long long) src->avail, full.size (), (unsigned long long) k, (unsigned long long) snk->accepted, (unsigned long long) owed);
        if (snk->accepted > owed && bad.empty ()) bad = fmt ("%llu bytes delivered, but only %llu can be known", (unsigned long long) snk->accepted, (unsigned long long) owed);
        src->avail = --stalls > 0 ? next (src->avail) : UINT64_MAX;
        return true;
    };
    Proc *p = w.spawn (s);
    w.run ();
    sample (show (j) + ": input stalls");
    if (!sane (w, j.app)) return;
    nontrivial ();
    if (!check (bad.empty (), "held-back:" + j.app, show (j) + ": " + bad)) return;
    if (!check (p->ok (), "fails:" + j.app, show (j) + ": the input stalled and resumed; " + p->status () + " " + p->err_text ())) return;
    const std::string d = compare (m.outs.at (""), snk->data);
    check (d.empty (), "lost:" + j.app, show (j) + ": the input stalled and resumed; " + d);
}
// the averages are reported while the stream goes on, by the clock
SCENARIO (C12, averages, 1)
{
    Cloud c = tame_cloud ("c", 30);
    c.compressed = false;
    if (c.r.empty ()) { c.r.resize (1); c.r[0].e.resize (c.extra); }
    const bool far = chance ("far", 0.01);
    if (far) coarse = true;
    if (far || choose ("long", 2))
    {
        const u64 n = far ? 65536 + skew ("n", 5000) : 300 + skew ("n", 2000);
        const std::vector<Rec> some = c.r;
        c.r.clear ();
        for (u64 i = 0; i < n; ++i) { c.r.push_back (some[i % some.size ()]); c.r.back ().x += double (i); }
    }
    const Bytes full = ref::encode (c);
    const u64 hs = head_size (c), rs = rec_size (c);
    World w;
    env_world (w);
    w.max_steps = 400000000;
    w.max_events = 4000000;
    Spec s;
    env_min_buf = far ? 4096 : 64;
    env_spec (s);
    s.module = s.name = "stream_averaging";
    auto src = make_source (full, "stdin");
    chunky (src->f, "rd");
    auto snk = make_sink ("stdout"), log = make_sink ("stderr");
    s.in = src;
    s.out = snk;
    s.err = log;
    int stalls = 1 + int (choose ("stalls", 6));
    auto next = [&] (u64 from) { return from + 1 + (choose ("where", 2) ? skew ("arrive", full.size () + 1) : choose ("arrive", full.size () + 1)); };
    src->avail = next (0) - 1;
    const std::string what = "stream_averaging [" + brief (c) + "]";
    // the reports: each is true of the records that have arrived
    auto reports = [&] (std::string &bad) {
        std::vector<u64> at;
        size_t from = 0;
        double sum[3] = {0, 0, 0};
        u64 k = 0;
        while (bad.empty ())
        {
            const size_t to = log->data.find ('\n', from);
            if (to == Bytes::npos) break;
            const std::string l = log->data.substr (from, to - from);
            from = to + 1;
            if (l.empty () || !isdigit ((unsigned char) l[0])) continue;
            std::string plain;
            for (char ch : l) if (ch != ',') plain += ch;
            const u64 n = strtoull (plain.c_str (), nullptr, 10);
            if (n <= k || n > c.r.size ()) { bad = "reported " + l + fmt (" after %llu records", (unsigned long long) k); break; }
            for (; k < n; ++k) { sum[0] += c.r[k].x; sum[1] += c.r[k].y; sum[2] += c.r[k].z; }
            const std::string want = fmt ("%llu\t%g\t%g\t%g", (unsigned long long) n, sum[0] / double (n), sum[1] / double (n), sum[2] / double (n));
            if (plain != want) bad = "reported " + l + ", true is " + want;
            at.push_back (n);
        }
        return at;
    };
    std::string bad;
    u64 owed = 0; // a record that came after a long pause is reported
    w.on_quiescent = [&] {
        const auto at = reports (bad);
        const u64 k = std::min<u64> (src->avail, full.size ()) < hs ? 0 : (std::min<u64> (src->avail, full.size ()) - hs) / rs;
        if (bad.empty () && !at.empty () && at.back () > k) bad = fmt ("reported %llu records when only %llu had arrived", (unsigned long long) at.back (), (unsigned long long) k);
        if (bad.empty () && owed && k >= owed && (at.empty () || at.back () < owed)) bad = fmt ("%llu records have arrived, some of them after a long pause, but the last report is of %llu", (unsigned long long) k, (unsigned long long) (at.empty () ? 0 : at.back ()));
        if (src->avail >= full.size ()) return false;
        note ("fault.stall");
        const u64 d = choose ("pause", 3) ? skew ("ms", 30000) : 0;
        w.now += d * 1000000;
        if (d >= 3000) owed = k + 1;
        src->avail = --stalls > 0 ? next (src->avail) : UINT64_MAX;
        return true;
    };
    Proc *p = w.spawn (s);
    w.run ();
    sample (what);
    if (!sane (w, "stream_averaging")) return;
    nontrivial ();
    const auto at = reports (bad);
    if (!check (bad.empty (), "average", what + ": " + bad)) return;
    if (!check (p->ok (), "fails:stream_averaging", what + ": the input stalled and resumed; " + p->status () + " " + p->err_text ())) return;
    note ("reports", at.size ());
    check (!owed || c.r.size () < owed || (!at.empty () && at.back () >= owed), "average", what + fmt (": no report of the records after record %llu, which came after a long pause", (unsigned long long) owed));
}
SCENARIO (C12, memory, 2)
{
    // heap use of a short and of a long stream
    Cloud c = tame_cloud ("c", 12);
    c.compressed = false;
    if (c.r.empty ()) { c.r.resize (1); c.r[0].e.resize (c.extra); }
    const std::vector<Rec> some = c.r;
    Job j = streamer ("j", c);
    if (j.model (j.in).fail) { sample (show (j)); return; }
    if (choose ("averaging", 5) == 4) { j.app = "stream_averaging"; j.args.clear (); }
    env_min_buf = 512;
    size_t peak[2];
    const u64 ns[] = {200, 2000 + choose ("n", 4000)};
    for (int k = 0; k < 2; ++k)
    {
        World w;
        w.max_steps = 800000000;
        w.max_events = 4000000;
        w.p_preempt = 0;
        Spec s;
        s.module = s.name = j.app;
        s.args = j.args;
        auto src = make_source ("", "stdin");
        const Bytes head = ref::header (c.wkt, c.extra, ns[k], 0);
        Bytes body;
        for (auto &r : some) body += ref::record (r);
        const u64 total = head.size () + ns[k] * rec_size (c);
        src->gen = [=] (u64 off, char *b, size_t n) { for (size_t i = 0; i < n; ++i, ++off) b[i] = off < head.size () ? head[off] : body[(off - head.size ()) % body.size ()]; };
        src->avail = UINT64_MAX;
        src->f.rd_fail_at = i64 (total);
        auto snk = make_sink ("stdout");
        snk->keep = 0;
        s.in = src;
        s.out = snk;
        Proc *p = w.spawn (s);
        w.run ();
        if (!sane (w, j.app)) return;
        if (!check (p->ok (), "fails:" + j.app, show (j) + fmt (": %llu records: ", (unsigned long long) ns[k]) + p->status () + " " + p->err_text ())) return;
        if (j.app != "stream_averaging" && !check (snk->accepted == total, "lost:" + j.app, show (j) + fmt (": %llu of %llu bytes", (unsigned long long) snk->accepted, (unsigned long long) total))) return;
        peak[k] = p->peak;
    }
    sample (show (j) + fmt (": %llu and %llu records use %zu and %zu bytes", (unsigned long long) ns[0], (unsigned long long) ns[1], peak[0], peak[1]));
    nontrivial ();
    check (peak[1] <= peak[0] + 4096, "memory-grows:" + j.app, show (j) + fmt (": %llu records take %zu bytes of memory, %llu records %zu", (unsigned long long) ns[0], peak[0], (unsigned long long) ns[1], peak[1]));
}
SCENARIO (C12, absurd, 2)
{
    // a stream that promises more than will ever come
    static const u64 totals[] = {~0ull, 1ull << 63, 1ull << 40, 0x100000000ull, 0xFFFFFFFFull, 1000000000ull};
    Cloud c = tame_cloud ("c", 12);
    c.compressed = false;
    if (c.r.empty ()) { c.r.resize (1); c.r[0].e.resize (c.extra); }
    Job j = streamer ("j", c);
    const u64 n = skew ("n", 2000), total = totals[choose ("total", 6)];
    const std::vector<Rec> some = c.r;
    c.r.clear ();
    for (u64 i = 0; i < n; ++i) c.r.push_back (some[i % some.size ()]);
    env_min_buf = n > 200 ? 64 : 1;
    j.in[0].c = c;
    Model m = j.model (j.in);
    if (m.fail || m.any) { sample (show (j)); return; }
    Bytes b = ref::encode (c);
    b.replace (9 + c.wkt.size (), 8, (const char *) &total, 8);
    b += ref::record (some[0]).substr (0, choose ("part", rec_size (c)));
    j.in[0].b = b;
    Env e;
    e.tweak = [&] (World &w, Spec &s) { s.mem_limit = (4u << 20) + 4 * s.stdio_buf; w.max_steps = 400000000; };
    const Res r = run (j, e);
    sample (show (j) + fmt (": promises %llu records, delivers %llu", (unsigned long long) total, (unsigned long long) n));
    if (!r.sane) return;
    nontrivial ();
    if (!check (r.clean && !r.err.empty (), "accepted:" + j.app, show (j) + fmt (": promises %llu records, delivers %llu: ", (unsigned long long) total, (unsigned long long) n) + r.status)) return;
    // what was delivered is the right prefix, and it is everything that could be known
    Bytes got = r.outs.at ("");
    const u64 hs = head_size (c);
    const std::string w = show (j) + fmt (": promises %llu records, delivers %llu; ", (unsigned long long) total, (unsigned long long) n);
    if (!check (got.size () == hs + n * rec_size (c), "lost:" + j.app, w + fmt ("%zu bytes come out instead of %llu", got.size (), (unsigned long long) (hs + n * rec_size (c))))) return;
    if (!check (got.compare (9 + c.wkt.size (), 8, (const char *) &total, 8) == 0, "header:" + j.app, w + "the header is altered")) return;
    got.replace (9 + c.wkt.size (), 8, (const char *) &n, 8);
    const std::string d = compare (m.outs.at (""), got);
    check (d.empty (), "lost:" + j.app, w + d);
}
namespace
{
// what the generator writes, up to n bytes
Bytes generated (u64 n)
{
    World w;
    w.max_events = 4000000;
    w.max_steps = 400000000;
    Spec s;
    s.module = s.name = "generate_infinite_points";
    auto snk = make_sink ("gen.out");
    s.out = snk;
    snk->f.wr_fail_at = i64 (n);
    snk->f.wr_errno = EPIPE;
    w.spawn (s);
    w.run ();
    sane (w, "generate_infinite_points");
    return snk->data;
}
}
SCENARIO (C12, infinite, 2)
{
    const u64 want = 26 + 72 * skew ("want", 1500) + choose ("part", 72);
    env_min_buf = 64;
    const Bytes g = generated (want);
    if (violated ()) return;
    if (!check (g.size () == want && g.compare (0, 4, "SPOC") == 0, "generator", fmt ("the generator wrote %zu bytes instead of %llu", g.size (), (unsigned long long) want))) return;
    Cloud c;
    c.wkt = "Test WKT";
    c.extra = 4;
    for (u64 at = 26; at + 72 <= g.size (); at += 72)
    {
        Rec r;
        memcpy (&r.x, g.data () + at, 8); memcpy (&r.y, g.data () + at + 8, 8); memcpy (&r.z, g.data () + at + 16, 8);
        memcpy (&r.c, g.data () + at + 24, 4); memcpy (&r.p, g.data () + at + 28, 4);
        memcpy (&r.i, g.data () + at + 32, 2); memcpy (&r.r, g.data () + at + 34, 2); memcpy (&r.g, g.data () + at + 36, 2); memcpy (&r.b, g.data () + at + 38, 2);
        r.e.resize (4);
        for (int k = 0; k < 4; ++k) memcpy (&r.e[k], g.data () + at + 40 + 8 * k, 8);
        c.r.push_back (r);
    }
    Job j = streamer ("j", c);
    const Model m = j.model (j.in);
    if (m.fail || m.any) { sample (show (j)); return; }
    Pipeline l;
    l.snk = make_sink ("stdout");
    chunky (l.snk->f, "wr");
    l.src = nullptr;
    l.snk->keep = want;
    // the consumer has had enough at "want" bytes: it goes away
    l.snk->f.wr_fail_at = i64 (want);
    l.snk->f.wr_errno = EPIPE;
    connect (l, {{"generate_infinite_points", {}}, {j.app, j.args}}, [&] (size_t k, Spec &s) { s.mem_limit = (2u << 20) + 4 * s.stdio_buf; s.ignore_sigpipe = choose (fmt ("sigpipe%zu", k), 2); });
    l.w.run ();
    sample (show (j) + fmt (" behind the generator, %llu bytes wanted", (unsigned long long) want));
    if (!sane (l.w, "pipeline")) return;
    nontrivial ();
    for (auto p : l.p) if (!check (!p->ok (), "success:" + p->spec.module, p->spec.name + " reports success although its reader has gone")) return;
    if (!check (l.snk->data.size () == want, "lost:" + j.app, show (j) + fmt (" behind the generator: %zu of %llu bytes: ", l.snk->data.size (), (unsigned long long) want) + l.p[0]->err_text () + l.p[1]->err_text ())) return;
    Bytes got = l.snk->data.substr (0, 26 + c.r.size () * 72);
    const u64 n = c.r.size (), inf = ~0ull;
    if (want < 26) return;
    if (!check (got.compare (17, 8, (const char *) &inf, 8) == 0, "header:" + j.app, "the header is altered")) return;
    got.replace (17, 8, (const char *) &n, 8);
    const std::string d = compare (m.outs.at (""), got);
    check (d.empty (), "differs:" + j.app, show (j) + " behind the generator: " + d);
}

// ---------------------------------------------------------------- C13
SCENARIO (C13, reader_gone, 4)
{
    // the reader of the program's output goes away after some bytes
    Opt o;
    o.valid = o.stdio = true;
    static const Strs apps = {"transform", "noop", "compress", "decompress", "filter", "tool", "srs", "info", "merge"};
    const std::string app = apps[choose ("app", apps.size ())];
    if (app == "merge" || app == "info") o.stdio = false;
    if (app == "tool") { static const int cmds[] = {0, 1, 2, 3, 4, 5}; o.cmd = cmds[choose ("cmd", 6)]; o.stdio = o.cmd != 5; }
    Job j = make (app, "j", o);
    const Model m = j.model (j.in);
    if (m.any || m.fail || !m.outs.count ("")) { sample (show (j)); return; }
    Env q;
    q.quiet = true;
    const Res base = run (j, q);
    if (!base.sane || !base.ok || base.outs.at ("").empty ()) { sample (show (j)); return; }
    const u64 size = base.outs.at ("").size (), at = choose ("kind", 4) == 1 ? 0 : cut_offset ("at", size);
    const bool ignore = choose ("sigpipe", 2);
    Env e;
    e.tweak = [&] (World &, Spec &s) { s.ignore_sigpipe = ignore; s.out->f.wr_fail_at = i64 (at); s.out->f.wr_errno = EPIPE; };
    const Res r = run (j, e);
    const std::string what = fmt ("its reader goes away after %llu of %llu bytes%s", (unsigned long long) at, (unsigned long long) size, ignore ? "" : " (SIGPIPE)");
    sample (show (j) + ": " + what);
    if (!r.sane) return;
    nontrivial ();
    if (!check (!r.ok, "success:" + j.app, show (j) + ": " + what + ", but it exits 0")) return;
    if (r.clean) check (!r.err.empty (), "silent:" + j.app, show (j) + ": " + what + "; no message");
    if (ignore) check (r.clean, "died:" + j.app, show (j) + ": " + what + "; " + r.status);
    const Bytes &got = r.outs.at ("");
    check (got.size () <= at && got == base.outs.at ("").substr (0, got.size ()), "invented:" + j.app, show (j) + ": " + what + "; what it had written is not a prefix");
}
SCENARIO (C13, reader_gone_stream, 3)
{
    // a stream without end: the reader's departure must end it
    static const u64 totals[] = {~0ull, 1ull << 40, 1000000000ull};
    Cloud c = tame_cloud ("c", 12);
    c.compressed = false;
    if (c.r.empty ()) { c.r.resize (1); c.r[0].e.resize (c.extra); }
    Job j = streamer ("j", c);
    const Model m = j.model (j.in);
    if (m.fail || m.any) { sample (show (j)); return; }
    env_min_buf = 64;
    const u64 total = totals[choose ("total", 3)];
    const Bytes head = ref::header (c.wkt, c.extra, total, 0);
    Bytes body;
    for (auto &r : c.r) body += ref::record (r);
    World w;
    env_world (w);
    w.max_steps = 400000000;
    w.max_events = 600000;
    Spec s;
    env_spec (s);
    s.module = s.name = j.app;
    s.args = j.args;
    auto src = make_source ("", "stdin");
    chunky (src->f, "rd");
    src->gen = [=] (u64 off, char *b, size_t n) { for (size_t i = 0; i < n; ++i, ++off) b[i] = off < head.size () ? head[off] : body[(off - head.size ()) % body.size ()]; };
    auto snk = make_sink ("stdout");
    chunky (snk->f, "wr");
    snk->keep = 0;
    const u64 at = choose ("early", 3) ? skew ("at", 60000) : 0;
    snk->f.wr_fail_at = i64 (at);
    snk->f.wr_errno = choose ("eio", 4) == 3 ? ENOSPC : EPIPE;
    s.ignore_sigpipe = choose ("sigpipe", 2);
    s.in = src;
    s.out = snk;
    Proc *p = w.spawn (s);
    w.run ();
    const std::string what = fmt ("%llu records promised, the reader goes away after %llu bytes", (unsigned long long) total, (unsigned long long) at);
    sample (show (j) + ": " + what);
    if (!sane (w, j.app)) return;
    nontrivial ();
    if (!check (!p->ok (), "success:" + j.app, show (j) + ": " + what + ", but it exits 0")) return;
    // read further than what was delivered: two buffers and a record
    const u64 bound = at + 4 * s.stdio_buf + 2 * rec_size (c) + head.size () + 8192;
    check (src->rd_off <= bound, "reads-on:" + j.app, show (j) + ": " + what + fmt (", but it read %llu bytes of input", (unsigned long long) src->rd_off));
}
SCENARIO (C13, writer_gone, 3)
{
    // the writer of its input goes away early, with an end of file
    Opt o;
    o.valid = o.stdio = true;
    static const Strs apps = {"transform", "noop", "compress", "decompress", "filter", "tool", "srs", "info", "stream_averaging"};
    const std::string app = apps[choose ("app", apps.size ())];
    Job j = make (app == "stream_averaging" ? "noop" : app, "j", o);
    j.app = app;
    In *in = nullptr;
    for (auto &i : j.in) if (i.path.empty () && !i.text) in = &i;
    if (!in || (app == "info" && j.in.size () > 1)) { sample (show (j)); return; }
    const u64 need = in->need ();
    const u64 at = cut_offset ("cut", need, in->header_only ? nullptr : &in->lay);
    Env e;
    e.tweak = [&] (World &, Spec &s) { s.in->f.rd_fail_at = i64 (at); s.in->f.rd_errno = choose ("reset", 3) == 2 ? ECONNRESET : 0; };
    const Res r = run (j, e);
    const std::string what = fmt ("its input ends after %llu of %llu bytes", (unsigned long long) at, (unsigned long long) need);
    sample (show (j) + ": " + what);
    if (!r.sane) return;
    nontrivial ();
    check (r.clean && !r.err.empty (), "success:" + app, show (j) + ": " + what + ", " + r.status);
}
SCENARIO (C13, pipeline_killed, 4)
{
    // one stage of a pipeline is killed
    std::vector<Stage> v;
    const bool ok = staged (v, false, 60, choose ("streaming", 2) ? Strs {"transform", "noop", "transform"} : Strs ());
    if (violated () || !ok) { sample ("no pipeline"); return; }
    Pipeline l;
    l.src = make_source (v[0].in, "stdin");
    chunky (l.src->f, "rd");
    l.snk = make_sink ("stdout");
    chunky (l.snk->f, "wr");
    std::vector<std::pair<std::string, Strs>> st;
    for (auto &s : v) st.push_back ({s.j.app, s.j.args});
    const size_t victim = choose ("victim", v.size ());
    const u64 at = choose ("when", 2) ? skew ("at", 2000) : choose ("at", 300);
    connect (l, st, [&] (size_t k, Spec &s) { if (k == victim) s.kill_at = i64 (at); s.ignore_sigpipe = choose (fmt ("sigpipe%zu", k), 2); });
    l.w.run ();
    const std::string what = tell (v) + fmt (": stage %zu killed at its event %llu", victim + 1, (unsigned long long) at);
    sample (what);
    if (!sane (l.w, "pipeline")) return;
    if (!l.p[victim]->ok ()) nontrivial ();
    for (size_t k = 0; k < v.size (); ++k)
    {
        const Bytes &out = k + 1 < v.size () ? l.pipe[k]->tee : l.snk->data;
        const bool in_full = k == 0 || l.pipe[k - 1]->tee == v[k - 1].out;
        if (!check (out.size () <= v[k].out.size () && v[k].out.compare (0, out.size (), out) == 0, "invented:" + v[k].j.app, what + fmt ("; stage %zu wrote something else than when run alone", k + 1))) return;
        const std::string s = fmt ("; stage %zu ends with ", k + 1) + l.p[k]->status () + " " + l.p[k]->err_text ();
        if (l.p[k]->ok ())
        {
            if (!check (out == v[k].out, "success:" + v[k].j.app, what + s + ", but did not deliver its output")) return;
            if (!check (in_full, "success:" + v[k].j.app, what + s + ", but did not receive its input")) return;
        }
        else if (k != victim)
        {
            const bool reader_lives = k + 1 < v.size () ? l.p[k + 1]->ok () : true;
            // nothing happened to it: it has to succeed
            if (!check (!(in_full && reader_lives && (k == 0 || l.p[k - 1]->ok ())), "fails:" + v[k].j.app, what + s + ", though its neighbours are sound")) return;
        }
    }
}
SCENARIO (C13, infinite_killed, 3)
{
    env_min_buf = 64;
    std::vector<std::pair<std::string, Strs>> st = {{"generate_infinite_points", {}}};
    const int mid = int (choose ("mid", 4));
    for (int k = 0; k < mid; ++k)
        if (choose ("kind", 2)) st.push_back ({"noop", {}});
        else st.push_back ({"transform", {"--add-x=1"}});
    const bool avg = choose ("averaging", 2);
    if (avg) st.push_back ({"stream_averaging", {}});
    if (st.size () == 1) st.push_back ({"noop", {}});
    Pipeline l;
    l.snk = make_sink ("stdout");
    l.snk->keep = 0;
    const size_t victim = choose ("victim", st.size ());
    const u64 at = choose ("when", 2) ? skew ("at", 4000) : choose ("at", 200);
    connect (l, st, [&] (size_t k, Spec &s) { if (k == victim) s.kill_at = i64 (at); s.ignore_sigpipe = choose (fmt ("sigpipe%zu", k), 2); });
    l.w.max_events = 600000;
    l.w.run ();
    std::string what;
    for (auto &s : st) what += (what.empty () ? "" : " | ") + s.first;
    what += fmt (": %s killed at its event %llu", st[victim].first.c_str (), (unsigned long long) at);
    sample (what);
    if (!sane (l.w, "pipeline")) return;
    nontrivial ();
    for (auto p : l.p)
        if (!check (!p->ok (), "success:" + p->spec.module, what + "; " + p->spec.name + " reports success")) return;
}

// ---------------------------------------------------------------- C16
SCENARIO (C16, same, 6)
{
    Opt o;
    o.randomised = choose ("random", 2);
    o.rough = choose ("rough", 2);
    static const Strs all = all_apps, rnd = {"transform", "filter"};
    Job j = make (o.randomised ? rnd[choose ("app", 2)] : all[choose ("app", all.size ())], "j", o);
    Res r[2];
    for (int k = 0; k < 2; ++k)
    {
        Env e;
        e.st = fmt ("env%d", k);
        e.tweak = [&] (World &w, Spec &s) {
            s.pid = 100 + choose (fmt ("pid%d", k), 30000);
            w.wall_offset = raw64 (fmt ("wall%d", k)) >> 2;
            w.now = choose (fmt ("mono%d", k), 3) ? raw64 (fmt ("mono%d.v", k)) >> 8 : 0;
        };
        r[k] = run (j, e);
        if (!r[k].sane) return;
    }
    sample (show (j) + ": in two environments");
    nontrivial ();
    if (!check (r[0].status == r[1].status, "status:" + j.app, show (j) + ": once " + r[0].status + ", once " + r[1].status)) return;
    if (!r[0].ok) { note ("outcome.failure"); return; }
    for (auto &x : r[0].outs)
    {
        auto y = r[1].outs.find (x.first);
        if (!check (y != r[1].outs.end () && y->second == x.second, "output:" + j.app, show (j) + ": two executions give different output")) return;
    }
    check (r[0].outs.size () == r[1].outs.size (), "output:" + j.app, show (j) + ": two executions create different files");
}
SCENARIO (C16, generator, 1)
{
    Bytes b[2];
    const u64 want = 26 + 72 * skew ("want", 300);
    for (int k = 0; k < 2; ++k)
    {
        World w;
        env_world (w, fmt ("env%d", k));
        w.wall_offset = raw64 (fmt ("wall%d", k)) >> 2;
        Spec s;
        s.module = s.name = "generate_infinite_points";
        env_spec (s, fmt ("env%d", k));
        s.pid = 100 + choose (fmt ("pid%d", k), 30000);
        auto snk = make_sink ("out");
        chunky (snk->f, fmt ("wr%d", k));
        s.out = snk;
        snk->f.wr_fail_at = i64 (want);
        snk->f.wr_errno = EPIPE;
        w.spawn (s);
        w.run ();
        if (!sane (w, "generate_infinite_points")) return;
        b[k] = snk->data;
    }
    sample (fmt ("the generator, %llu bytes, in two environments", (unsigned long long) want));
    nontrivial ();
    check (b[0] == b[1] && b[0].size () == want, "generator", fmt ("two executions of the generator differ within %llu bytes", (unsigned long long) want));
}
SCENARIO (C16, seeds, 3)
{
    // enough random draws that two seeds cannot agree by accident
    const int kind = int (choose ("kind", 4)); // 0 uniform, 1 gaussian, 2 subsample, 3 unique
    Cloud c;
    c.extra = unsigned (choose ("extra", 3));
    c.compressed = kind >= 2 && choose ("z", 2);
    const u64 groups = 48 + choose ("groups", 40);
    for (u64 g = 0; g < groups; ++g)
        for (u64 k = 0; k < 3; ++k)
        {
            Rec r;
            r.x = double (g) * 2;
            r.p = u32 (3 * g + k);
            r.e.resize (c.extra);
            c.r.push_back (r);
        }
    static const char *op[] = {"--uniform-noise=1", "--gaussian-noise=1", "--subsample=1", "--unique-xyz"};
    auto seed = [&] (const std::string &st, u64 not_this) -> u64 {
        u64 v = choose (st + ".near", 2) ? 1 + choose (st, 10) : 1 + choose (st, 2000000000);
        return v == not_this ? v + 1 : v;
    };
    u64 s1 = seed ("s1", 0), s2 = seed ("s2", s1);
    if (choose ("related", 2))
    {
        // equal in their low or high bits; the standard engine takes seeds modulo 2^31 - 1
        static const int sh[] = {8, 16, 24, 30, 31, 32, 33, 40, 48};
        s2 = s1 + ((1 + choose ("related.k", 200)) << sh[choose ("related.shift", 9)]);
        if (choose ("swap", 2)) std::swap (s1, s2);
    }
    auto engine = [] (u64 s) { s %= 2147483647; return s ? s : 1; };
    while (engine (s1) == engine (s2)) ++s2;
    Bytes out[2];
    Res r[2];
    for (int k = 0; k < 2; ++k)
    {
        Job j;
        j.app = kind < 2 ? "transform" : "filter";
        j.args = {"-a", std::to_string (k ? s2 : s1), op[kind]};
        In in;
        in.c = c;
        in.b = ref::encode (c);
        j.in.push_back (in);
        Env e;
        e.st = fmt ("env%d", k);
        r[k] = run (j, e);
        if (!r[k].sane) return;
        if (!check (r[k].ok, "fails:" + j.app, show (j) + ": " + r[k].status + " " + r[k].err)) return;
        out[k] = r[k].outs.at ("");
    }
    sample (fmt ("%s with seeds %llu and %llu on %llu groups", op[kind], (unsigned long long) s1, (unsigned long long) s2, (unsigned long long) groups));
    nontrivial ();
    check (out[0] != out[1], fmt ("seed-ignored:%s", op[kind]), fmt ("%s gives the same output with seeds %llu and %llu", op[kind], (unsigned long long) s1, (unsigned long long) s2));
}
