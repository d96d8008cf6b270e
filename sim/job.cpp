#include "job.h"
#include <cstdlib>

namespace job
{
using ref::Cloud;
using ref::Rec;
const std::vector<std::string> all_apps = {"compress", "decompress", "transform", "filter", "tool", "tile", "merge", "srs", "info", "diff", "noop"};

void no_nan (Cloud &c)
{
    for (auto &r : c.r)
        for (double *d : {&r.x, &r.y, &r.z})
        {
            if (std::isnan (*d)) *d = 1.5;
            if (std::isinf (*d)) *d = 1e6;
            if (*d == 0) *d = 0.0;
        }
}
static bool big_wanted = false; // by the next cloud that is drawn
static Cloud rough_cloud (const std::string &st, u64 max_pts)
{
    ref::Gen g;
    if (big_wanted) { g.p_giant = 1; big_wanted = false; }
    g.max_pts = max_pts;
    g.rough = true;
    g.many = 400;
    g.p_many = 0.3;
    return ref::gen (st, g);
}
Cloud tame_cloud (const std::string &st, u64 max_pts)
{
    ref::Gen g;
    if (big_wanted) { g.p_giant = 1; big_wanted = false; }
    g.max_pts = max_pts;
    g.tame = true;
    g.p_big_extra = 0.02;
    g.p_big_wkt = 0.02;
    g.many = 400;
    Cloud c = ref::gen (st, g);
    return c;
}
static Cloud wild_cloud (const std::string &st, u64 max_pts)
{
    ref::Gen g;
    if (big_wanted) { g.p_giant = 1; big_wanted = false; }
    g.max_pts = max_pts;
    g.p_big_extra = 0.02;
    g.p_big_wkt = 0.02;
    g.many = 400;
    return ref::gen (st, g);
}
std::string show (const Job &j)
{
    std::string s = "spoc_" + j.app;
    for (auto &a : j.args) s += " " + (a.size () > 60 ? a.substr (0, 60) + "..." : a);
    for (auto &i : j.in)
        s += i.text ? fmt (" [%s: %zu bytes of text]", i.path.c_str (), i.b.size ()) : fmt (" [%s: %s]", i.path.empty () ? "stdin" : i.path.c_str (), brief (i.c).c_str ());
    return s;
}

// ---------------------------------------------------------------- comparing
bool complete_spoc (const Bytes &b)
{
    Cloud c;
    std::string why;
    return ref::decode (b, c, why);
}
static bool near (double a, double b, double tol)
{
    if (tol < 0) return ref::same_bits (a, b);
    if (std::isnan (tol)) return true;
    if (std::isnan (a) && std::isnan (b)) return true;
    return a == b || std::fabs (a - b) <= tol;
}
std::string compare (const Want &w, const Bytes &got)
{
    if (!w.spoc) return w.fn (got);
    Cloud d;
    std::string why;
    if (!ref::decode_all (got, d, why)) return "not a SPOC file: " + why;
    if (w.tol.empty ())
    {
        why = ref::diff (w.c, d);
        if (why.empty () && !w.c.compressed && !w.c.r.empty () && got != ref::encode (w.c)) return "not the documented bytes";
        return why;
    }
    Cloud x = w.c;
    if (x.r.size () == d.r.size ())
        for (size_t i = 0; i < x.r.size (); ++i)
        {
            double *a[] = {&x.r[i].x, &x.r[i].y, &x.r[i].z}, *b[] = {&d.r[i].x, &d.r[i].y, &d.r[i].z};
            for (int k = 0; k < 3; ++k)
                if (w.tol[i][k] >= 0 || std::isnan (w.tol[i][k]))
                    if (near (*a[k], *b[k], w.tol[i][k])) *a[k] = *b[k];
        }
    return ref::diff (x, d);
}
// text equal up to white space and rounding of numbers
std::string number_text_diff (const std::string &want, const std::string &got)
{
    struct Tok { bool num; std::string s; };
    auto toks = [] (const std::string &t) {
        std::vector<Tok> v;
        for (size_t i = 0; i < t.size ();)
        {
            if (isspace ((unsigned char) t[i])) { ++i; continue; }
            if (isdigit ((unsigned char) t[i]))
            {
                size_t k = i;
                while (k < t.size () && (isdigit ((unsigned char) t[k]) || t[k] == '.')) ++k;
                if (k < t.size () && (t[k] == 'e' || t[k] == 'E'))
                {
                    size_t m = k + 1;
                    if (m < t.size () && (t[m] == '+' || t[m] == '-')) ++m;
                    if (m < t.size () && isdigit ((unsigned char) t[m])) { while (m < t.size () && isdigit ((unsigned char) t[m])) ++m; k = m; }
                }
                v.push_back ({true, t.substr (i, k - i)});
                i = k;
            }
            else v.push_back ({false, t.substr (i++, 1)});
        }
        return v;
    };
    const auto a = toks (want), b = toks (got);
    for (size_t i = 0; i < a.size () || i < b.size (); ++i)
    {
        bool same = i < a.size () && i < b.size () && a[i].num == b[i].num;
        if (same && a[i].s != b[i].s)
        {
            same = false;
            if (a[i].num && (a[i].s.find_first_of (".e") != std::string::npos || b[i].s.find_first_of (".e") != std::string::npos))
            {
                const double x = atof (a[i].s.c_str ()), y = atof (b[i].s.c_str ());
                same = std::fabs (x - y) <= 1e-9 * std::max (std::fabs (x), std::fabs (y)) + 1e-12;
            }
        }
        if (!same)
        {
            auto from = [] (const std::vector<Tok> &t, size_t i) { std::string s; for (size_t k = i > 12 ? i - 12 : 0; k < t.size () && k < i + 12; ++k) s += t[k].s; return s; };
            return "expected ..." + from (a, i) + "... got ..." + from (b, i) + "...";
        }
    }
    return "";
}

// ---------------------------------------------------------------- running
Res run (const Job &j, const Env &e)
{
    Res r;
    World w;
    w.max_steps = 150000000;
    Spec s;
    if (!e.quiet) { env_world (w, e.st); env_spec (s, e.st); }
    if (coarse) { coarse_world (w); s.stdio_buf = std::max<size_t> (s.stdio_buf, 4096); }
    s.module = s.name = j.app;
    s.args = j.args;
    for (auto &i : j.in)
        if (i.path.empty ())
        {
            auto src = make_source (i.b, "stdin");
            if (!e.quiet) chunky (src->f, e.st + ".rd");
            s.in = src;
        }
        else if (!e.files)
        {
            w.fs.put (i.path, i.b);
            if (!e.quiet) chunky (w.fs.faults[i.path], e.st + ".rd." + i.path);
        }
    if (e.files) for (auto &f : *e.files) w.fs.put (f.first, f.second);
    else for (auto &f : j.pre) w.fs.put (f.first, f.second);
    auto snk = make_sink ("stdout");
    if (!e.quiet)
    {
        chunky (snk->f, e.st + ".wr");
        for (auto &o : {"out.spoc", "out.zpoc"}) chunky (w.fs.faults[o], e.st + ".wr." + o);
    }
    s.out = snk;
    if (e.tweak) e.tweak (w, s);
    Proc *p = w.spawn (s);
    if (e.started) e.started (w, p);
    w.run ();
    r.sane = sane (w, j.app);
    r.ok = p->ok ();
    r.clean = p->clean_failure ();
    r.code = p->code;
    r.status = p->status ();
    r.err = p->err_text ();
    r.events = p->events;
    r.allocs = p->allocs;
    r.alloc_faults = p->alloc_faults;
    r.peak = p->peak;
    std::set<std::string> ins;
    for (auto &i : j.in)
        if (!i.path.empty ())
        {
            ins.insert (i.path);
            if (!w.fs.has (i.path) || w.fs.get (i.path) != (e.files && e.files->count (i.path) ? e.files->at (i.path) : i.b)) r.inputs_intact = false;
        }
    r.outs[""] = snk->data;
    for (auto &f : w.fs.files)
        if (!ins.count (f.first) && !f.second->is_dir) r.outs[f.first] = f.second->data;
    return r;
}
std::string wrong (const Job &j, const Model &m, const Res &r)
{
    if (!r.inputs_intact) return "an input file was modified";
    if (m.any) return "";
    if (m.fail)
    {
        if (!r.clean) return "the request cannot be honoured, but the program ended with " + r.status;
        if (r.err.empty ()) return "failed without a message";
        return "";
    }
    if (!(m.code ? r.clean && r.code == m.code : r.ok)) return fmt ("expected exit status %d, but: %s %s", m.code, r.status.c_str (), r.err.substr (0, 200).c_str ());
    for (auto &o : m.outs)
    {
        auto it = r.outs.find (o.first);
        if (it == r.outs.end ()) return "output file " + o.first + " is missing";
        const std::string d = compare (o.second, it->second);
        if (!d.empty ()) return (o.first.empty () ? std::string ("stdout") : o.first) + ": " + d;
    }
    for (auto &o : r.outs)
        if (!m.outs.count (o.first))
        {
            auto p = j.pre.find (o.first);
            if (o.first.empty () ? !o.second.empty () : p == j.pre.end () || p->second != o.second) return "unexpected output: " + (o.first.empty () ? std::string ("stdout") : o.first);
        }
    return "";
}
bool judge (const Job &j, const Model &m, const Res &r, const std::string &where)
{
    if (!r.sane) return false;
    const std::string d = wrong (j, m, r);
    return check (d.empty (), where + ":" + j.app, show (j) + ": " + d);
}

// ---------------------------------------------------------------- building jobs
static std::string num (double v) { return fmt ("%.17g", v); }
static std::string num (u64 v) { return std::to_string (v); }
// how input and output are given; returns the output's name
static std::string io (Job &j, const std::string &st, const Cloud &c, const Opt &o)
{
    In i;
    i.c = c;
    i.b = ref::encode (c, o.stdio ? ref::Peer () : ref::gen_peer (st + ".peer"), i.lay);
    const int how = o.stdio ? 0 : int (choose (st + ".how", 3));
    if (chance (st + ".v", 0.05)) j.args.insert (j.args.begin (), "-v");
    std::string out;
    if (how)
    {
        i.path = c.compressed ? "in.zpoc" : "in.spoc";
        j.args.push_back (i.path);
        if (how == 2)
        {
            out = "out.spoc";
            j.args.push_back (out);
            if (chance (st + ".pre", 0.3))
            {
                Bytes junk;
                const u64 sd = raw64 (st + ".junk"), n = 1 + skew (st + ".junkn", 3000);
                for (u64 k = 0; k < n; ++k) junk += char (mix (sd, k));
                if (choose (st + ".junkspoc", 2)) junk = ref::encode (tame_cloud (st + ".old", 10));
                j.pre[out] = junk;
                j.clobber.insert (out);
            }
        }
    }
    j.in.push_back (i);
    return out;
}
static Model just (const std::string &out, const Cloud &c)
{
    Model m;
    m.outs[out].spoc = true;
    m.outs[out].c = c;
    return m;
}
static Model failure () { Model m; m.fail = true; return m; }

static Job make_conv (const std::string &app, const std::string &st, const Opt &o)
{
    Job j;
    j.app = app;
    const bool comp = app == "compress";
    Cloud c = o.c ? *o.c : o.rough ? rough_cloud (st + ".c", o.max_pts) : wild_cloud (st + ".c", o.max_pts);
    if (!o.c) c.compressed = (o.valid || !chance (st + ".wrong", 0.03)) ? !comp : comp;
    j.total = true;
    const std::string out = io (j, st, c, o);
    j.model = [=] (const std::vector<In> &in) {
        if (in[0].c.compressed == comp) return failure ();
        Cloud d = in[0].c;
        d.compressed = comp;
        return just (out, d);
    };
    return j;
}
static Job make_noop (const std::string &st, const Opt &o)
{
    Job j;
    j.app = "noop";
    j.streams = j.total = true;
    Cloud c = o.c ? *o.c : o.rough ? rough_cloud (st + ".c", o.max_pts) : wild_cloud (st + ".c", o.max_pts);
    if (!o.c) c.compressed = !o.valid && chance (st + ".wrong", 0.03);
    Opt p = o;
    p.stdio = true;
    io (j, st, c, p);
    j.args.clear ();
    j.model = [] (const std::vector<In> &in) { return in[0].c.compressed ? failure () : just ("", in[0].c); };
    return j;
}

// ---- transform
struct TOp
{
    int k = 0;                  // kind
    int ax = 0;                 // axis
    double v = 0;
    char f = 'c', g = 'c';      // fields
    unsigned fi = 0, gi = 0;    // extra indexes
    std::vector<u64> vs;
    bool bad = false;           // malformed: must fail
    std::string text;
};
static u64 get (const Rec &r, char f, unsigned i, bool &ok)
{
    switch (f)
    {
        case 'c': return r.c; case 'p': return r.p; case 'i': return r.i; case 'r': return r.r; case 'g': return r.g; case 'b': return r.b;
        default: if (i >= r.e.size ()) { ok = false; return 0; } return r.e[i];
    }
}
static void put (Rec &r, char f, unsigned i, u64 v, bool &ok)
{
    switch (f)
    {
        case 'c': r.c = u32 (v); break; case 'p': r.p = u32 (v); break; case 'i': r.i = u16 (v); break;
        case 'r': r.r = u16 (v); break; case 'g': r.g = u16 (v); break; case 'b': r.b = u16 (v); break;
        default: if (i >= r.e.size ()) ok = false; else r.e[i] = v;
    }
}
static u64 fmax (char f) { return f == 'c' || f == 'p' ? 0x7FFFFFFF : f == 'e' ? 0x7FFFFFFF : 0xFFFF; }
static std::string fname (char f, unsigned i) { return f == 'e' ? fmt ("e%u", i) : std::string (1, f); }
static void pick_field (const std::string &st, char &f, unsigned &i, unsigned extra, bool valid)
{
    static const char fs[] = "cpirgbe";
    f = fs[choose (st + ".f", 7)];
    if (f == 'e')
    {
        if (extra == 0 && (valid || !chance (st + ".oob", 0.1))) { f = 'c'; return; }
        i = extra && !(!valid && chance (st + ".oob2", 0.05)) ? unsigned (choose (st + ".fi", extra)) : extra + unsigned (skew (st + ".fi2", 300));
    }
}
static Job make_transform (const std::string &st, const Opt &o)
{
    Job j;
    j.app = "transform";
    j.streams = true;
    j.total = true;
    Cloud c = o.c ? *o.c : o.rough ? rough_cloud (st + ".c", o.max_pts) : wild_cloud (st + ".c", o.max_pts);
    if (!o.c) c.compressed = !o.valid && chance (st + ".wrong", 0.02);
    static const double offs[] = {1, -1, 0.5, 100, -12.25, 0, 1e-3, 3.7e5, -1e9, 0.1};
    static const double scal[] = {2, -1, 0.5, 1, 0, 1000, 0.1, 3.3, -0.25};
    static const double rot[] = {90, 180, 45, -30, 360, 0, 1, 12.5, -270};
    static const double prec[] = {0.5, 1, 0.25, 0.1, 2, 0.01, 100, 0.125};
    const int n = 1 + int (maybe (st + ".nops", 0.6, chance (st + ".lots", 0.1) ? 12 : 4));
    std::vector<TOp> ops;
    const std::string axis = "xyz";
    bool seeded = false;
    for (int k = 0; k < n; ++k)
    {
        const std::string s = fmt ("%s.op%d", st.c_str (), k);
        TOp t;
        t.k = int (choose (s, 9));
        if (o.randomised && k == 0) t.k = 7 + int (choose (s + ".rk", 2));
        t.ax = int (choose (s + ".ax", 3));
        const std::string ax (1, axis[t.ax]);
        switch (t.k)
        {
            case 0: // copy-field
                pick_field (s + ".1", t.f, t.fi, c.extra, o.valid);
                pick_field (s + ".2", t.g, t.gi, c.extra, o.valid);
                t.text = "--copy-field=" + fname (t.f, t.fi) + "," + fname (t.g, t.gi);
                if (!o.valid && chance (s + ".bad", 0.02)) { t.bad = true; t.text = "--copy-field=" + (choose (s + ".b2", 2) ? ax + ",c" : "c," + ax); }
                break;
            case 1: t.v = offs[choose (s + ".v", 10)]; t.text = "--add-" + ax + "=" + num (t.v); break;
            case 2: t.v = scal[choose (s + ".v", 9)]; t.text = "--scale-" + ax + "=" + num (t.v); break;
            case 3: t.v = rot[choose (s + ".v", 9)]; t.text = "--rotate-" + ax + "=" + num (t.v); break;
            case 4: t.v = prec[choose (s + ".v", 8)]; t.text = "--quantize-xyz=" + num (t.v); break;
            case 5: // set
                if (choose (s + ".xyz", 3) == 0) { t.f = ax[0]; t.v = offs[choose (s + ".v", 10)]; t.text = "--set=" + ax + "," + num (t.v); }
                else
                {
                    pick_field (s + ".1", t.f, t.fi, c.extra, o.valid);
                    static const u64 far[] = {0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xDEADBEEF, 0x100000000, 0x1FFFFFFFFFFFFF, 0x7FFFFFFFFFFFFC00, 0x8000000000000000, 0xFFFFFFFFFFFFF800};
                    const int wide = int (choose (s + ".big", 4));
                    t.vs = {wide == 0 ? fmax (t.f) : wide == 1 && t.f == 'e' ? far[choose (s + ".far", 9)] : wide == 1 && (t.f == 'c' || t.f == 'p') ? far[choose (s + ".far", 4)] : choose (s + ".v", std::min<u64> (fmax (t.f), 50))};
                    t.v = double (t.vs[0]);
                    t.text = "--set=" + fname (t.f, t.fi) + "," + num (t.vs[0]);
                }
                if (!o.valid && chance (s + ".bad", 0.02)) { t.bad = true; t.text = choose (s + ".b2", 2) ? "--set=q,1" : "--set=c,one"; }
                break;
            case 6: // replace, replace-not
            {
                pick_field (s + ".1", t.f, t.fi, c.extra, o.valid);
                const bool neg = choose (s + ".not", 2);
                const int m = neg ? 2 + int (choose (s + ".m", 4)) : 2;
                for (int q = 0; q < m; ++q)
                {
                    bool ok = true;
                    u64 v = choose (s + ".val", 8);
                    if (!c.r.empty () && choose (s + ".have", 2)) { const u64 w = get (c.r[choose (s + ".of", c.r.size ())], t.f, t.fi, ok); if (w <= 0x7FFFFFFF) v = w; }
                    t.vs.push_back (std::min<u64> (v, q == m - 1 ? fmax (t.f) : 0x7FFFFFFF));
                }
                t.k = neg ? 9 : 6;
                t.text = (neg ? "--replace-not=" : "--replace=") + fname (t.f, t.fi);
                for (auto v : t.vs) t.text += "," + num (v);
                if (!o.valid && chance (s + ".bad", 0.02)) { t.bad = true; t.text = choose (s + ".b2", 2) ? "--replace=" + ax + ",1,2" : "--replace-not=c,1"; }
                else if (neg && !o.valid && chance (s + ".unread", 0.03))
                {
                    // a value that can't be read after others that can
                    static const char *w[] = {"three", "3000000000", "", "99999999999999999999", "e1", "c"};
                    t.bad = true;
                    t.text += std::string (",") + w[choose (s + ".w", 6)];
                    if (t.text.back () == ',') t.text += ",7";
                }
                break;
            }
            default: // noise
            {
                static const double mag[] = {1, 0.01, 50, 0};
                t.v = mag[choose (s + ".v", 4)];
                if (o.randomised && k == 0) t.v = 1;
                t.ax = int (choose (s + ".axn", 4)); // 0: all
                t.text = std::string (t.k == 7 ? "--uniform-noise" : "--gaussian-noise") + (t.ax ? "-" + axis.substr (t.ax - 1, 1) : "") + "=" + num (t.v);
                if (!seeded && choose (s + ".seed", 2))
                {
                    seeded = true;
                    static const u64 odd[] = {0, 1, 2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, 9223372036854775807ull};
                    const std::string sd = num (choose (s + ".rso", 4) == 3 ? odd[choose (s + ".rsx", 7)] : 1 + choose (s + ".rs", 100000));
                    const int form = int (choose (s + ".form", 3));
                    if (form == 0) { j.args.push_back ("-a"); j.args.push_back (sd); }
                    else if (form == 1) j.args.push_back ("--random-seed=" + sd);
                    else { j.args.push_back ("--random-seed"); j.args.push_back (sd); }
                }
            }
        }
        if (chance (s + ".split", 0.1)) { const size_t e = t.text.find ('='); j.args.push_back (t.text.substr (0, e)); j.args.push_back (t.text.substr (e + 1)); }
        else j.args.push_back (t.text);
        if (t.k == 4 || t.k == 3 || t.k >= 7 || t.k == 1 || t.k == 2) j.inexact = true;
        ops.push_back (t);
    }
    const std::string out = io (j, st, c, o);
    j.model = [ops, out] (const std::vector<In> &in) {
        const Cloud &c = in[0].c;
        if (c.compressed) return failure ();
        for (auto &t : ops) if (t.bad) return failure ();
        Model m = just (out, c);
        Want &w = m.outs[out];
        w.tol.assign (c.r.size (), {-1, -1, -1});
        bool ok = true;
        for (size_t i = 0; i < c.r.size (); ++i)
        {
            Rec &r = w.c.r[i];
            double *p[] = {&r.x, &r.y, &r.z};
            auto &tol = w.tol[i];
            auto touch = [&] (int a) { if (tol[a] == -1) tol[a] = 0; };
            for (auto &t : ops)
                switch (t.k)
                {
                    case 0: { const u64 v = get (r, t.f, t.fi, ok); put (r, t.g, t.gi, v, ok); break; }
                    case 1: touch (t.ax); *p[t.ax] += t.v; if (tol[t.ax] > 0) tol[t.ax] += 1e-12 * std::fabs (*p[t.ax]); break;
                    case 2: touch (t.ax); *p[t.ax] *= t.v; tol[t.ax] *= std::fabs (t.v); break;
                    case 3:
                    {
                        const int a = t.ax == 0 ? 1 : 0, b = t.ax == 2 ? 1 : 2; // the plane
                        const double th = t.v * M_PI / 180.0, u = *p[a], v = *p[b];
                        touch (a); touch (b);
                        const double e = tol[a] + tol[b] + 1e-12 * (std::fabs (u) + std::fabs (v));
                        *p[a] = u * cos (th) - v * sin (th);
                        *p[b] = u * sin (th) + v * cos (th);
                        tol[a] = tol[b] = e;
                        if (std::isinf (u) || std::isinf (v) || std::fabs (u) > 1e300 || std::fabs (v) > 1e300) tol[a] = tol[b] = NAN;
                        break;
                    }
                    case 4:
                        for (int a = 0; a < 3; ++a)
                        {
                            touch (a);
                            const double q = *p[a] / t.v;
                            const bool dyadic = t.v == 0.5 || t.v == 1 || t.v == 0.25 || t.v == 2 || t.v == 0.125;
                            const bool edge = std::fabs (q - std::round (q)) <= 1e-9 * std::max (1.0, std::fabs (q)); // rounding decides
                            if (tol[a] > 0 || (!dyadic && edge)) tol[a] += t.v * (1 + 1e-9) + 1e-12 * std::fabs (*p[a]);
                            else if (!dyadic) tol[a] = 1e-12 * std::fabs (*p[a]);
                            *p[a] = std::trunc (q) * t.v;
                            if (std::isnan (*p[a]) || std::isinf (q)) tol[a] = NAN;
                        }
                        break;
                    case 5:
                        if (t.f == 'x' || t.f == 'y' || t.f == 'z') { const int a = t.f - 'x'; tol[a] = 0; *p[a] = t.v; }
                        else put (r, t.f, t.fi, t.vs[0], ok);
                        break;
                    case 6: { const u64 v = get (r, t.f, t.fi, ok); if (ok && v == t.vs[0]) put (r, t.f, t.fi, t.vs[1], ok); break; }
                    case 9:
                    {
                        const u64 v = get (r, t.f, t.fi, ok);
                        bool keep = false;
                        for (size_t q = 0; q + 1 < t.vs.size (); ++q) if (v == t.vs[q]) keep = true;
                        if (!keep) put (r, t.f, t.fi, t.vs.back (), ok);
                        break;
                    }
                    default:
                        if (t.v != 0)
                            for (int a = 0; a < 3; ++a)
                                if (t.ax == 0 || t.ax == a + 1)
                                { touch (a); tol[a] += t.v * (t.k == 7 ? 1.0 : 12.0) * (1 + 1e-9) + 1e-12 * std::fabs (*p[a]); }
                        break;
                }
        }
        if (!ok) return failure ();
        // a field the file does not have: an error even without records is as good
        for (auto &t : ops)
            if (c.r.empty () && ((t.f == 'e' && t.fi >= c.extra) || (t.g == 'e' && t.gi >= c.extra))) { m.any = true; }
        return m;
    };
    return j;
}

// ---- filter
static std::array<i64, 3> voxel (const Rec &r, const Rec &lo, double res)
{
    return {i64 (std::floor ((r.x - lo.x) / res)), i64 (std::floor ((r.y - lo.y) / res)), i64 (std::floor ((r.z - lo.z) / res))};
}
static void bounds (const std::vector<Rec> &v, Rec &lo, Rec &hi)
{
    if (v.empty ()) return;
    lo = hi = v[0];
    for (auto &r : v)
    {
        lo.x = std::min (lo.x, r.x); lo.y = std::min (lo.y, r.y); lo.z = std::min (lo.z, r.z);
        hi.x = std::max (hi.x, r.x); hi.y = std::max (hi.y, r.y); hi.z = std::max (hi.z, r.z);
    }
}
static Job make_filter (const std::string &st, const Opt &o)
{
    Job j;
    j.app = "filter";
    // without voxels any coordinates will do: almost equal, infinite, denormal, -0.0
    const bool wild = !o.c && !o.rough && chance (st + ".wild", 0.25);
    Cloud c = o.c ? *o.c : o.rough || (wild && choose (st + ".wildr", 2)) ? rough_cloud (st + ".c", o.max_pts) : wild ? wild_cloud (st + ".c", o.max_pts) : tame_cloud (st + ".c", o.max_pts);
    if (wild)
    {
        j.inexact = true;
        for (auto &r : c.r) for (double *d : {&r.x, &r.y, &r.z}) if (std::isnan (*d)) *d = -0.0;
    }
    bool uniq = chance (st + ".u", wild ? 0.8 : 0.4), sub = o.tame && !wild && chance (st + ".s", 0.45);
    if (o.randomised) (wild || choose (st + ".which", 2) ? uniq : sub) = true;
    std::set<u64> keep, drop;
    auto classes = [&] (std::set<u64> &s, const char *w, const char *sh, const char *lg) {
        const int n = int (maybe (st + w, 0.4, 4));
        for (int k = 0; k < n; ++k)
        {
            u64 v = choose (st + w + ".v", 9);
            if (!c.r.empty () && choose (st + w + ".have", 2)) { const u64 x = c.r[choose (st + w + ".of", c.r.size ())].c; if (x <= 0x7FFFFFFF) v = x; }
            s.insert (v);
            if (choose (st + w + ".long", 2)) j.args.push_back (std::string (lg) + "=" + num (v));
            else { j.args.push_back (sh); j.args.push_back (num (v)); }
        }
    };
    classes (keep, ".k", "-k", "--keep-class");
    classes (drop, ".r", "-r", "--remove-class");
    if (uniq) j.args.push_back (choose (st + ".ul", 2) ? "--unique-xyz" : "-u");
    double res = 0;
    if (sub)
    {
        static const double rs[] = {1, 0.5, 16, 4, 128, 0.0625};
        res = rs[choose (st + ".res", 6)];
        j.args.push_back ("--subsample=" + num (res));
    }
    u64 seed = 0;
    if (chance (st + ".seeded", o.randomised ? 0.8 : uniq != sub ? 0.3 : 0))
    {
        static const u64 odd[] = {0, 2147483647ull, 4294967295ull, 4294967296ull, 9223372036854775807ull};
        seed = choose (st + ".seedo", 5) == 4 ? odd[choose (st + ".seedx", 5)] : 1 + choose (st + ".seed", 1000000);
        j.args.push_back ("-a");
        j.args.push_back (num (seed));
    }
    if (uniq && sub && seed) sub = true; // never: seeds are drawn for one of them only
    int cax = -1;
    char cop = '<';
    double cv = 0;
    int bad = 0;
    if (chance (st + ".c?", 0.4))
    {
        cax = int (choose (st + ".cax", 3));
        cop = choose (st + ".cop", 2) ? '<' : '>';
        cv = double (i64 (choose (st + ".cv", 200)) - 100) / 4;
        if (!c.r.empty () && choose (st + ".chave", 2)) { const Rec &r = c.r[choose (st + ".cof", c.r.size ())]; cv = cax == 0 ? r.x : cax == 1 ? r.y : r.z; }
        if (std::isinf (cv) || std::fabs (cv) < 1e-300) cv = 0;
        std::string t = std::string (1, "xyz"[cax]) + " " + cop + " " + num (cv);
        if (!o.valid && chance (st + ".cbad", 0.05))
        {
            static const char *b[] = {"x >", "q > 1", "x = 1", "x > abc", "x > 1 2", "x>1"};
            t = b[choose (st + ".cbadw", 6)];
            bad = 1;
        }
        j.args.push_back ("-c");
        j.args.push_back (t);
    }
    const bool both = uniq && sub && seed;
    const std::string out = io (j, st, c, o);
    j.model = [=] (const std::vector<In> &in) {
        if (bad) return failure ();
        Cloud c = in[0].c;
        std::vector<Rec> v;
        auto survives = [&] (const Rec &r) { const double x = cax == 0 ? r.x : cax == 1 ? r.y : r.z; return cax < 0 || !(cop == '<' ? x < cv : x > cv); };
        for (auto &r : c.r) if ((keep.empty () || keep.count (r.c)) && !drop.count (r.c)) v.push_back (r);
        if (both) { Model m; m.any = true; return m; }
        auto ukey = [] (const Rec &r) { return std::array<double, 3> {r.x, r.y, r.z}; };
        if (seed == 0)
        {
            if (uniq)
            {
                std::set<std::array<double, 3>> seen;
                std::vector<Rec> t;
                for (auto &r : v) if (seen.insert (ukey (r)).second) t.push_back (r);
                v = t;
            }
            if (sub)
            {
                Rec lo, hi;
                bounds (v, lo, hi);
                std::set<std::array<i64, 3>> seen;
                std::vector<Rec> t;
                for (auto &r : v) if (seen.insert (voxel (r, lo, res)).second) t.push_back (r);
                v = t;
            }
            c.r.clear ();
            for (auto &r : v) if (survives (r)) c.r.push_back (r);
            return just (out, c);
        }
        // a random representative per group
        std::map<std::array<double, 3>, std::vector<Rec>> groups;
        Rec lo, hi;
        bounds (v, lo, hi);
        for (auto &r : v)
        {
            if (uniq) groups[ukey (r)].push_back (r);
            else { auto q = voxel (r, lo, res); groups[{double (q[0]), double (q[1]), double (q[2])}].push_back (r); }
        }
        Model m;
        m.outs[out].fn = [=] (const Bytes &b) -> std::string {
            Cloud d;
            std::string why;
            if (!ref::decode_all (b, d, why)) return "not a SPOC file: " + why;
            if (d.wkt != c.wkt || d.compressed != c.compressed) return "WKT or compression changed";
            if (!d.r.empty () && d.extra != c.extra) return "number of extra fields changed";
            auto g = groups;
            for (auto &r : d.r)
            {
                std::array<double, 3> k = ukey (r);
                if (!uniq) { auto q = voxel (r, lo, res); k = {double (q[0]), double (q[1]), double (q[2])}; }
                auto it = g.find (k);
                if (it == g.end ()) return "a second record of a group, or one that is not in the input";
                bool found = false;
                for (auto &x : it->second) if (ref::same (x, r)) found = true;
                if (!found) return "a record that is not in the input";
                if (!survives (r)) return "a record that the coordinate filter removes";
                g.erase (it);
            }
            for (auto &x : g)
            {
                bool all = true;
                for (auto &r : x.second) if (!survives (r)) all = false;
                if (all) return "a group without representative";
            }
            return "";
        };
        return m;
    };
    return j;
}

// ---- tool
static Job make_tool (const std::string &st, const Opt &o)
{
    Job j;
    j.app = "tool";
    int cmd = o.cmd >= 0 ? o.cmd : int (choose (st + ".cmd", o.stdio ? 5 : 9));
    // 0,1 subtract-min; 2 resize-extra; 3,4 recenter; 5 get-field; 6 set-field; 7 upsample; 8 errors
    if (cmd == 8 && o.valid) cmd = 0;
    const bool needs_tame = cmd == 7 || cmd == 3 || cmd == 4;
    Cloud c = o.c ? *o.c : o.rough ? rough_cloud (st + ".c", o.max_pts) : (needs_tame || choose (st + ".tame", 2)) ? tame_cloud (st + ".c", o.max_pts) : wild_cloud (st + ".c", o.max_pts);
    if (cmd <= 1 && !o.c) no_nan (c);
    if (cmd == 0 || cmd == 1)
    {
        j.inexact = true;
        j.args = {cmd ? "--subtract-min-xyz" : "--subtract-min-xy"};
        const std::string out = io (j, st, c, o);
        j.model = [=] (const std::vector<In> &in) {
            Cloud d = in[0].c;
            Rec lo, hi;
            bounds (d.r, lo, hi);
            Model m = just (out, d);
            Want &w = m.outs[out];
            w.tol.assign (d.r.size (), {0, 0, cmd ? 0.0 : -1.0});
            for (auto &r : w.c.r) { r.x -= lo.x; r.y -= lo.y; if (cmd) r.z -= lo.z; }
            return m;
        };
        return j;
    }
    if (cmd == 2)
    {
        j.total = true;
        int n = int (skew (st + ".n", 9));
        if (!o.big && chance (st + ".big", 0.1)) n = 200 + int (choose (st + ".bign", 56));
        bool bad = false;
        std::string a = std::to_string (n);
        if (!o.valid && chance (st + ".bad", 0.1))
        {
            static const char *b[] = {"256", "-1", "100000", "abc", ""};
            a = b[choose (st + ".badw", 5)];
            bad = true;
        }
        j.args = {"--resize-extra=" + a};
        const std::string out = io (j, st, c, o);
        j.model = [=] (const std::vector<In> &in) {
            if (bad) return failure ();
            Cloud d = in[0].c;
            d.extra = unsigned (n);
            for (auto &r : d.r) r.e.resize (size_t (n), 0);
            return just (out, d);
        };
        return j;
    }
    if (cmd == 3 || cmd == 4)
    {
        j.inexact = true;
        j.args = {cmd == 4 ? "--recenter-xyz" : "--recenter-xy"};
        const std::string out = io (j, st, c, o);
        j.model = [=] (const std::vector<In> &in) {
            Cloud d = in[0].c;
            long double s[3] = {0, 0, 0};
            double mag = 1;
            for (auto &r : d.r) { s[0] += r.x; s[1] += r.y; s[2] += r.z; mag = std::max ({mag, std::fabs (r.x), std::fabs (r.y), std::fabs (r.z)}); }
            Model m = just (out, d);
            Want &w = m.outs[out];
            const double e = 1e-10 * mag;
            w.tol.assign (d.r.size (), {e, e, cmd == 4 ? e : -1.0});
            const double n = double (d.r.size ());
            for (auto &r : w.c.r) { r.x -= double (s[0] / n); r.y -= double (s[1] / n); if (cmd == 4) r.z -= double (s[2] / n); }
            return m;
        };
        return j;
    }
    if (cmd == 5 || cmd == 6)
    {
        char f;
        unsigned fi = 0;
        static const char fs[] = "cxyzpirgbe";
        f = fs[choose (st + ".f", 10)];
        bool bad = false;
        if (f == 'e')
        {
            if (cmd == 5) { if (c.extra == 0 && (o.valid || choose (st + ".oob", 3))) f = 'c'; else fi = (c.extra && (o.valid || choose (st + ".oob2", 8))) ? unsigned (choose (st + ".fi", c.extra)) : c.extra + unsigned (skew (st + ".fi2", 1000)); }
            else { fi = unsigned (skew (st + ".fi", 7)); if (chance (st + ".far", 0.1)) fi = 250 + unsigned (choose (st + ".fifar", o.valid ? 5 : 60)); }
        }
        std::string name = fname (f, fi);
        if (!o.valid && chance (st + ".bad", 0.03)) { static const char *b[] = {"q", "e", "ex", "xx", "1"}; name = b[choose (st + ".badw", 5)]; bad = true; }
        const bool dbl = f == 'x' || f == 'y' || f == 'z';
        auto val = [=] (const Rec &r) { return f == 'x' ? r.x : f == 'y' ? r.y : r.z; };
        if (cmd == 5)
        {
            j.total = true;
            if (choose (st + ".lg", 2)) j.args = {"--get-field=" + name}; else j.args = {"-g", name};
            io (j, st, c, o);
            if (j.pre.count ("out.spoc")) j.clobber.erase ("out.spoc");
            j.model = [=] (const std::vector<In> &in) {
                const Cloud &c = in[0].c;
                if (bad) return failure ();
                if (f == 'e' && fi >= c.extra) { if (!c.r.empty ()) return failure (); Model m; m.any = true; return m; }
                Model m;
                m.outs[""].fn = [=] (const Bytes &b) -> std::string {
                    size_t at = 0;
                    for (size_t i = 0; i < c.r.size (); ++i)
                    {
                        const size_t e = b.find ('\n', at);
                        if (e == std::string::npos) return fmt ("only %zu of %zu values", i, c.r.size ());
                        const std::string t = b.substr (at, e - at);
                        at = e + 1;
                        if (dbl)
                        {
                            const double v = val (c.r[i]);
                            char *end;
                            const long double g = strtold (t.c_str (), &end);
                            if (t.empty () || *end) return "not a number: " + t;
                            if (!(std::isnan (v) ? std::isnan (g) : std::isinf (v) ? v == g : std::fabs (v - g) <= 1e-15L * std::fabs (v) + 5e-324L)) return fmt ("value %zu is %.17g, written as %s", i, v, t.c_str ());
                        }
                        else
                        {
                            bool ok = true;
                            const u64 v = get (c.r[i], f, fi, ok);
                            if (t != num (v)) return fmt ("value %zu is %llu, written as %s", i, (unsigned long long) v, t.c_str ());
                        }
                    }
                    if (at != b.size ()) return "more values than records";
                    return "";
                };
                return m;
            };
            return j;
        }
        // set-field
        j.total = true;
        j.args = {"--set-field=" + name, "-f", "values.txt"};
        In side;
        side.path = "values.txt";
        side.text = true;
        const u64 sd = raw64 (st + ".sv");
        const int len = int (choose (st + ".len", 6)); // 4: too short, 5: too long
        u64 n = c.r.size ();
        if (len == 4 && !o.valid && n) n = choose (st + ".short", n);
        if (len == 5) n += 1 + skew (st + ".long", 20);
        const u64 garbage = !o.valid && n && chance (st + ".garb", 0.1) ? 1 + choose (st + ".garbat", n) : 0;
        const bool nonl = choose (st + ".nonl", 4) == 3;
        static const char *sep[] = {"\n", " ", "\n\n", "\t", "\r\n"};
        const char *sp = sep[choose (st + ".sep", 5)];
        for (u64 k = 0; k < n; ++k)
        {
            const u64 h = ref::h (sd, k);
            std::string t;
            if (dbl) { const double v = double (i64 (h % 2000001) - 1000000) / ((h >> 40) % 3 == 0 ? 1.0 : 1000.0); t = num (v); }
            else t = num (u64 ((h >> 60) ? h % 40 : h & (f == 'e' ? ~0ull : f == 'c' || f == 'p' ? 0xFFFFFFFFull : 0xFFFFull)));
            if (garbage == k + 1)
            {
                static const char *b[] = {"abc", "12x", "-1", "1.5", "65536", "4294967296", "99999999999999999999", "-0", "+7", "18446744073709551615"};
                t = b[choose (st + ".garbw", 10)];
            }
            side.b += t;
            if (k + 1 < n || !nonl) side.b += sp;
        }
        const std::string out = io (j, st, c, o);
        j.in.push_back (side);
        j.model = [=] (const std::vector<In> &in) {
            if (bad) return failure ();
            Cloud d = in[0].c;
            if (f == 'e' && fi > 254 && d.r.empty ()) { Model m; m.any = true; return m; } // no record to extend
            if (f == 'e' && fi > 254) return failure ();
            const Bytes &t = in[1].b;
            std::vector<std::string> v;
            for (size_t i = 0; i < t.size ();)
            {
                if (isspace ((unsigned char) t[i])) { ++i; continue; }
                size_t k = i;
                while (k < t.size () && !isspace ((unsigned char) t[k])) ++k;
                v.push_back (t.substr (i, k - i));
                i = k;
            }
            if (v.size () < d.r.size ()) return failure ();
            if (f == 'e' && fi >= d.extra && !d.r.empty ()) { d.extra = fi + 1; for (auto &r : d.r) r.e.resize (d.extra, 0); }
            for (size_t i = 0; i < d.r.size (); ++i)
            {
                char *end;
                errno = 0;
                if (v[i] == "+") return failure ();
                if (dbl) { const double x = strtod (v[i].c_str (), &end); (f == 'x' ? d.r[i].x : f == 'y' ? d.r[i].y : d.r[i].z) = x; }
                else
                {
                    bool ok = true;
                    const u64 x = strtoull (v[i].c_str (), &end, 10);
                    const u64 most = f == 'e' ? ~0ull : f == 'c' || f == 'p' ? 0xFFFFFFFFull : 0xFFFFull;
                    if (v[i][0] == '-' || errno == ERANGE || x > most) return failure ();
                    put (d.r[i], f, fi, x, ok);
                }
                if (*end) return failure ();
            }
            return just (out, d);
        };
        return j;
    }
    if (cmd == 7)
    {
        static const double rs[] = {1, 0.5, 4, 16, 64};
        const double res = rs[choose (st + ".res", 5)];
        // the low resolution file: one record per chosen voxel of the high resolution one
        Cloud low;
        Rec lo, hi;
        bounds (c.r, lo, hi);
        std::set<std::array<i64, 3>> seen;
        low.wkt = choose (st + ".samewkt", 2) ? c.wkt : "other";
        low.compressed = choose (st + ".lowcomp", 2);
        low.extra = unsigned (choose (st + ".lowextra", 3));
        const u64 sd = raw64 (st + ".low");
        for (size_t i = 0; i < c.r.size (); ++i)
        {
            if (ref::h (sd, i) % 3 == 0) continue;
            if (!seen.insert (voxel (c.r[i], lo, res)).second) continue;
            Rec r = c.r[i];
            r.c = u32 (ref::h (sd, 1000 + i) % 50);
            r.e.assign (low.extra, i);
            low.r.push_back (r);
        }
        if (choose (st + ".rev", 2)) std::reverse (low.r.begin (), low.r.end ());
        bool bad = false;
        std::string rtext = num (res), side_name = "high.spoc";
        j.args = {"--upsample-classifications=" + side_name, "--resolution=" + rtext};
        if (!o.valid && chance (st + ".bad", 0.05))
        {
            bad = true;
            if (choose (st + ".badw", 2)) j.args = {"--upsample-classifications=" + side_name};
            else j.args = {"--upsample-classifications=missing.spoc", "--resolution=" + rtext};
        }
        In side;
        side.path = side_name;
        side.c = c;
        side.b = ref::encode (c, ref::gen_peer (st + ".sidepeer"), side.lay);
        Opt p = o;
        const std::string out = io (j, st, low, p);
        j.in.push_back (side);
        j.model = [=] (const std::vector<In> &in) {
            if (bad) return failure ();
            Cloud d = in[1].c;
            Rec lo, hi;
            bounds (d.r, lo, hi);
            std::map<std::array<i64, 3>, u32> cls;
            if (!d.r.empty ()) for (auto &r : in[0].c.r) cls[voxel (r, lo, res)] = r.c;
            for (auto &r : d.r) { auto it = cls.find (voxel (r, lo, res)); if (it != cls.end ()) r.c = it->second; }
            return just (out, d);
        };
        return j;
    }
    // requests that cannot be honoured
    static const char *bad[][3] = {{"", "", ""}, {"--recenter-xy", "--subtract-min-xy", ""}, {"--set-field=c", "", ""}, {"--set-field=c", "-f", "missing.txt"}, {"--unknown", "", ""}};
    const size_t w = choose (st + ".badw", 5);
    for (auto a : bad[w]) if (*a) j.args.push_back (a);
    io (j, st, c, o);
    j.clobber.clear ();
    j.model = [] (const std::vector<In> &) { return failure (); };
    return j;
}

// ---- tile
static Job make_tile (const std::string &st, const Opt &o)
{
    Job j;
    j.app = "tile";
    Cloud c = o.c ? *o.c : o.rough ? rough_cloud (st + ".c", o.max_pts) : tame_cloud (st + ".c", o.max_pts);
    if (!o.c && c.extra > 20 && c.compressed && c.r.size () > 3) c.r.resize (3); // every tile compresses every field
    static const double fine[] = {128, 512, 1, 4, 64, 1024, 300}, coarse[] = {512, 700, 1024, 512, 900, 2048, 65536};
    const bool few = o.big || c.r.size () > 500; // a tile per point would be slow
    const auto &sz = few ? coarse : fine;
    int tiles = 2, digits = 3;
    double ts = -1, tx = -1, ty = -1;
    bool force = chance (st + ".force", 0.3), bad = false;
    if (force) j.args.push_back (choose (st + ".fl", 2) ? "-f" : "--force");
    std::string prefix;
    switch (choose (st + ".how", 5))
    {
        case 0: break;
        case 1: tiles = 1 + int (choose (st + ".tiles", 9)); if (!few && chance (st + ".manytiles", 0.15)) tiles = 10 + int (choose (st + ".tiles2", 3000)); j.args.push_back ("--tiles=" + std::to_string (tiles)); break;
        case 2: ts = sz[choose (st + ".ts", 7)]; j.args.push_back ("-s"); j.args.push_back (num (ts)); break;
        case 3: tx = sz[choose (st + ".tx", 7)]; ty = sz[choose (st + ".ty", 7)]; j.args.push_back ("-x"); j.args.push_back (num (tx)); j.args.push_back ("--tile-size-y=" + num (ty)); break;
        default:
            if (choose (st + ".only", 2)) { tx = sz[choose (st + ".tx", 7)]; j.args.push_back ("-x"); j.args.push_back (num (tx)); }
            else { ty = sz[choose (st + ".ty", 7)]; j.args.push_back ("-y"); j.args.push_back (num (ty)); }
    }
    if (!o.valid && ts > 0 && chance (st + ".bad", 0.05)) { bad = true; j.args.push_back (choose (st + ".badw", 2) ? "-x" : "-y"); j.args.push_back ("4"); }
    if (chance (st + ".digits", 0.3)) { digits = int (choose (st + ".digitsn", 7)); j.args.push_back ("-d"); j.args.push_back (std::to_string (digits)); }
    In i;
    std::string ext, stem;
    const bool from_stdin = chance (st + ".stdin", 0.3);
    if (from_stdin) ext = c.compressed ? ".zpoc" : ".spoc";
    else
    {
        static const char *names[] = {"in.spoc", "in.zpoc", "data.v1.spoc", "in.dat"};
        i.path = names[choose (st + ".name", 4)];
        stem = i.path.substr (0, i.path.rfind ('.'));
        ext = i.path.substr (i.path.rfind ('.'));
    }
    prefix = stem;
    if (from_stdin || choose (st + ".prefix", 3) == 0)
    {
        if (from_stdin && !o.valid && chance (st + ".noprefix", 0.05)) bad = true;
        else { prefix = choose (st + ".pfx", 2) ? "tile_" : "t"; j.args.push_back ("-p"); j.args.push_back (prefix); }
    }
    if (!from_stdin) j.args.push_back (i.path);
    i.c = c;
    i.b = ref::encode (c, ref::gen_peer (st + ".peer"), i.lay);
    j.in.push_back (i);
    auto parts = [=] (const Cloud &c) {
        std::map<u64, Cloud> m;
        Rec lo, hi;
        bounds (c.r, lo, hi);
        double sx = ts > 0 ? ts : tx, sy = ts > 0 ? ts : ty;
        if (sx <= 0 && sy <= 0)
        {
            const double dx = hi.x - lo.x + double (std::numeric_limits<float>::epsilon ()), dy = hi.y - lo.y + double (std::numeric_limits<float>::epsilon ());
            sx = sy = std::max (dx, dy) / tiles;
        }
        const u64 stride = sx > 0 ? u64 (std::floor ((hi.x - lo.x) / sx)) + 1 : 1;
        for (auto &r : c.r)
        {
            const u64 xi = sx > 0 ? u64 (std::floor ((r.x - lo.x) / sx)) : 0, yi = sy > 0 ? u64 (std::floor ((r.y - lo.y) / sy)) : 0;
            Cloud &t = m[yi * stride + xi];
            t.r.push_back (r);
        }
        for (auto &t : m) { t.second.wkt = c.wkt; t.second.extra = c.extra; t.second.compressed = c.compressed; }
        return m;
    };
    auto name = [=] (u64 k) {
        std::string d = std::to_string (k);
        if (int (d.size ()) < digits) d.insert (0, size_t (digits) - d.size (), '0');
        return prefix + d + ext;
    };
    // files that are there already
    const auto m0 = parts (c);
    std::set<std::string> exist;
    if (!o.valid && !m0.empty () && chance (st + ".pre", 0.3))
    {
        const int n = 1 + int (choose (st + ".pren", 3));
        for (int k = 0; k < n; ++k)
        {
            auto it = m0.begin ();
            std::advance (it, choose (st + ".which", m0.size ()));
            if (name (it->first) == i.path) continue;
            j.pre[name (it->first)] = choose (st + ".prekind", 2) ? Bytes ("precious data") : ref::encode (tame_cloud (st + ".old", 10));
            if (choose (st + ".empty", 4) == 3) j.pre[name (it->first)] = "";
            exist.insert (name (it->first));
            if (force) j.clobber.insert (name (it->first));
        }
    }
    j.model = [=] (const std::vector<In> &in) {
        if (bad) return failure ();
        Model m;
        if (!force && !exist.empty ()) return failure ();
        for (auto &t : parts (in[0].c))
        {
            Want &w = m.outs[name (t.first)];
            w.spoc = true;
            w.c = t.second;
        }
        return m;
    };
    return j;
}

// ---- merge
static Job make_merge (const std::string &st, const Opt &o)
{
    Job j;
    j.app = "merge";
    j.total = true;
    const int n = !o.valid && chance (st + ".few", 0.03) ? int (choose (st + ".fewn", 2)) : 2 + int (choose (st + ".n", 4));
    i64 id = -1;
    if (chance (st + ".id", 0.3)) { id = i64 (skew (st + ".idv", 1000000)); j.args.push_back ("--point-id=" + std::to_string (id)); }
    if (chance (st + ".q", 0.3)) j.args.push_back ("-q");
    unsigned extra = 0;
    const bool mixed = !o.valid && chance (st + ".mixed", 0.1);
    for (int k = 0; k < n; ++k)
    {
        const std::string s = fmt ("%s.c%d", st.c_str (), k);
        In i;
        i.path = fmt ("in%d.spoc", k);
        i.c = wild_cloud (s, o.max_pts / 2 + 1);
        if (chance (s + ".merged", 0.4)) i.c.compressed = true;
        if (k == 0) extra = i.c.extra;
        else if (!mixed) { for (auto &r : i.c.r) { const u64 h = r.e.size (); for (size_t q = h; q < extra; ++q) r.e.push_back (q); r.e.resize (extra); } i.c.extra = extra; }
        i.b = ref::encode (i.c, ref::gen_peer (s + ".peer"), i.lay);
        j.args.push_back (i.path);
        j.in.push_back (i);
    }
    if (chance (st + ".twice", 0.05) && n >= 2) { j.args.back () = "in0.spoc"; j.in.pop_back (); }
    const Strs args = j.args;
    j.model = [=] (const std::vector<In> &in) {
        std::vector<const In *> v;
        for (auto &a : args) for (auto &i : in) if (i.path == a) v.push_back (&i);
        if (v.size () < 2) return failure ();
        Cloud d;
        d.wkt = v[0]->c.wkt;
        d.compressed = true;
        bool first = true;
        for (size_t k = 0; k < v.size (); ++k)
        {
            if (!v[k]->c.compressed) d.compressed = false;
            for (Rec r : v[k]->c.r)
            {
                if (first) { d.extra = unsigned (r.e.size ()); first = false; }
                if (r.e.size () != d.extra) return failure ();
                r.p = u32 (id < 0 ? i64 (k) : id);
                d.r.push_back (r);
            }
        }
        return just ("", d);
    };
    return j;
}

// ---- srs
static Job make_srs (const std::string &st, const Opt &o)
{
    Job j;
    j.app = "srs";
    j.total = true;
    const bool set = o.stdio || choose (st + ".set", 2);
    if (set)
    {
        Cloud c = o.c ? *o.c : o.rough ? rough_cloud (st + ".c", o.max_pts) : wild_cloud (st + ".c", o.max_pts);
        std::string w;
        const u64 n = chance (st + ".big", 0.05) ? 65535 - skew (st + ".bign", 1000) : skew (st + ".wn", 200), sd = raw64 (st + ".w");
        for (u64 k = 0; k < n; ++k) w += char (33 + mix (sd, k) % 94);
        bool bad = false;
        if (!o.valid && chance (st + ".toolong", 0.03)) { w.resize (65536 + skew (st + ".toolongn", 70000), 'x'); bad = true; }
        if (choose (st + ".long", 2) || w.empty ()) j.args.push_back ("--srs=" + w); else { j.args.push_back ("-s"); j.args.push_back (w); }
        In i;
        i.c = c;
        i.b = ref::encode (c, o.stdio ? ref::Peer () : ref::gen_peer (st + ".peer"), i.lay);
        std::string out;
        if (!o.stdio && choose (st + ".files", 2))
        {
            i.path = "in.spoc";
            out = "out.spoc";
            j.args.push_back (i.path);
            if (!o.valid && chance (st + ".one", 0.05)) bad = true;
            else j.args.push_back (out);
            if (chance (st + ".pre", 0.3)) { j.pre[out] = "old"; j.clobber.insert (out); }
        }
        j.in.push_back (i);
        j.model = [=] (const std::vector<In> &in) {
            if (bad) return failure ();
            Cloud d = in[0].c;
            d.wkt = w;
            return just (out, d);
        };
        return j;
    }
    const int n = int (choose (st + ".n", 4)); // 0: stdin
    std::vector<std::string> order;
    for (int k = 0; k < std::max (1, n); ++k)
    {
        In i;
        i.c = wild_cloud (fmt ("%s.c%d", st.c_str (), k), 10);
        i.b = ref::encode (i.c, ref::gen_peer (fmt ("%s.peer%d", st.c_str (), k)), i.lay);
        i.header_only = true;
        if (n) { i.path = fmt ("in%d.spoc", k); j.args.push_back (i.path); }
        j.in.push_back (i);
    }
    bool missing = false;
    if (!o.valid && n && chance (st + ".missing", 0.05)) { missing = true; j.args.push_back ("missing.spoc"); }
    j.model = [=] (const std::vector<In> &in) {
        if (missing) return failure ();
        Bytes t;
        for (auto &i : in) t += i.c.wkt + "\n";
        Model m;
        m.outs[""].fn = [t] (const Bytes &b) -> std::string { return b == t ? "" : fmt ("%zu bytes of text expected, %zu differ or are missing", t.size (), b.size ()); };
        return m;
    };
    return j;
}

// ---- info
struct InfoOpt { bool json = false, header = true, summary = true, cls = true, metric = true, compact = true, quart = false; };
static std::string class_name (u64 k)
{
    static const char *n[] = {"unclassified", "unknown", "ground", "low_veg", "med_veg", "high_veg", "building", "low_noise", "reserved", "water", "rail", "road", "reserved",
        "wire_guard", "wire_conductor", "transmission_tower", "wire_connector", "bridge_deck", "high_noise", "overhead_structure", "ignored", "snow", "exclusion"};
    return k < 23 ? n[k] : k < 64 ? "reserved" : k < 256 ? "user_defined" : "undefined";
}
static std::string info_text (const Cloud &c, const InfoOpt &q)
{
    const size_t n = c.r.size ();
    const unsigned extra = n ? c.extra : 0;
    struct Col { std::string name; bool dbl; std::vector<double> d; std::vector<u64> u; };
    std::vector<Col> cols;
    auto dcol = [&] (const char *nm, auto f) { Col k {nm, true, {}, {}}; for (auto &r : c.r) k.d.push_back (f (r)); std::sort (k.d.begin (), k.d.end ()); cols.push_back (k); };
    auto ucol = [&] (const std::string &nm, auto f) { Col k {nm, false, {}, {}}; for (auto &r : c.r) k.u.push_back (f (r)); std::sort (k.u.begin (), k.u.end ()); cols.push_back (k); };
    dcol ("x", [] (const Rec &r) { return r.x; }); dcol ("y", [] (const Rec &r) { return r.y; }); dcol ("z", [] (const Rec &r) { return r.z; });
    ucol ("c", [] (const Rec &r) { return r.c; }); ucol ("p", [] (const Rec &r) { return r.p; }); ucol ("i", [] (const Rec &r) { return r.i; });
    ucol ("r", [] (const Rec &r) { return r.r; }); ucol ("g", [] (const Rec &r) { return r.g; }); ucol ("b", [] (const Rec &r) { return r.b; });
    for (unsigned k = 0; k < extra; ++k) ucol (fmt ("extra_%u", k), [k] (const Rec &r) { return r.e[k]; });
    std::map<u64, u64> cls;
    for (auto &r : c.r) ++cls[r.c];
    Rec lo, hi;
    bounds (c.r, lo, hi);
    std::set<std::array<i64, 3>> vox, grid;
    for (auto &r : c.r) { auto v = voxel (r, lo, 1.0); vox.insert (v); v[2] = 0; grid.insert (v); }
    std::map<std::string, double> met;
    if (n)
    {
        met["extent_point_density"] = double (n) / ((hi.x - lo.x) * (hi.y - lo.y));
        met["grid_point_density"] = double (n) / double (grid.size ());
        met["voxel_point_density"] = double (n) / double (vox.size ());
    }
    auto val = [&] (const Col &k, double d, u64 u, int prec) { return k.dbl ? fmt ("%.*f", prec, d) : std::to_string (u); };
    const size_t qi[] = {0, n / 4, n / 2, 3 * n / 4, n ? n - 1 : 0};
    auto at = [&] (const Col &k, size_t i, int prec) { return k.dbl ? val (k, k.d[i], 0, prec) : val (k, 0, k.u[i], prec); };
    auto dif = [&] (const Col &k, size_t i, size_t l, int prec) { return k.dbl ? val (k, k.d[i] - k.d[l], 0, prec) : val (k, 0, k.u[i] - k.u[l], prec); };
    std::string s;
    if (q.json)
    {
        auto obj = [] (const std::map<std::string, std::string> &m) { std::string t = "{"; for (auto &e : m) { if (t.size () > 1) t += ","; t += "'" + e.first + "':" + e.second; } return t + "}"; };
        auto sum = [&] (const Col &k) {
            std::map<std::string, std::string> m;
            if (!n) { m["size"] = m["min"] = m["max"] = "0"; return obj (m); }
            m["range"] = dif (k, n - 1, 0, 15);
            if (q.quart) for (int z = 0; z < 5; ++z) m[fmt ("q%d", z)] = at (k, qi[z], 15);
            else { m["min"] = at (k, 0, 15); m["max"] = at (k, n - 1, 15); }
            return obj (m);
        };
        std::map<std::string, std::string> j;
        if (q.header) j["header"] = obj ({{"major_version", "0"}, {"minor_version", "1"}, {"wkt", "'" + c.wkt + "'"}, {"total_points", std::to_string (n)}, {"compressed", c.compressed ? "1" : "0"}});
        if (q.summary)
        {
            std::map<std::string, std::string> m;
            std::string ex;
            for (size_t k = 0; k < cols.size (); ++k)
                if (k < 9) m[cols[k].name] = sum (cols[k]);
                else { if (!ex.empty ()) ex += ","; ex += sum (cols[k]); }
            m["extra"] = "[" + ex + "]";
            j["summary"] = obj (m);
        }
        if (q.cls) { std::map<std::string, std::string> m; for (auto &e : cls) m[fmt ("%03llu", (unsigned long long) e.first)] = std::to_string (e.second); j["classifications"] = obj (m); }
        if (q.metric) { std::map<std::string, std::string> m; for (auto &e : met) m[e.first] = fmt ("%.15f", e.second); j["metrics"] = obj (m); }
        return obj (j);
    }
    if (q.header)
        s += "major_version\t0\nminor_version\t1\nogc_wkt\t'" + c.wkt + "'\ntotal_points\t" + std::to_string (n) + "\ncompressed\t" + (c.compressed ? "true" : "false") + "\n";
    if (q.summary)
        for (auto &k : cols)
        {
            if (!n) { if (!q.compact) s += k.name + "\t0\nsize\t0\nmin\t0\nmax\t0\n"; continue; }
            if (q.compact)
            {
                s += k.name + "\trange=" + dif (k, n - 1, 0, 3);
                if (q.quart)
                {
                    s += ", " + at (k, 0, 3);
                    for (int z = 1; z < 5; ++z) s += " + " + dif (k, qi[z], qi[z - 1], 3);
                    s += " = " + at (k, n - 1, 3) + "\n";
                }
                else s += ", min=" + at (k, 0, 3) + ", max=" + at (k, n - 1, 3) + "\n";
            }
            else
            {
                s += k.name + "\t" + std::to_string (n) + "\nrange\t" + dif (k, n - 1, 0, 3) + "\n";
                if (q.quart) for (int z = 0; z < 5; ++z) s += fmt ("q%d\t", z) + at (k, qi[z], 3) + "\n";
                else s += "min\t" + at (k, 0, 3) + "\nmax\t" + at (k, n - 1, 3) + "\n";
            }
        }
    if (q.cls)
    {
        std::map<std::string, u64> m; // in the order of their labels
        for (auto &e : cls) m[fmt ("%03llu", (unsigned long long) e.first)] = e.first;
        for (auto &e : m) s += "cls_" + e.first + "\t" + std::to_string (cls[e.second]) + "\t" + class_name (e.second) + "\n";
    }
    if (q.metric) for (auto &e : met) s += e.first + "\t" + fmt ("%.15f", e.second) + "\t" + (e.first[0] == 'v' ? "pts/unit^3" : "pts/unit^2") + "\n";
    return s;
}
static Job make_info (const std::string &st, const Opt &o)
{
    Job j;
    j.app = "info";
    InfoOpt q;
    auto tog = [&] (const char *sh, const char *lg, bool &b, double p) { if (chance (st + ".t" + sh, p)) { b = !b; j.args.push_back (choose (st + ".l" + sh, 2) ? std::string ("-") + sh : lg); } };
    tog ("j", "--json", q.json, 0.4);
    tog ("a", "--header-info", q.header, 0.2);
    tog ("s", "--summary-info", q.summary, 0.2);
    tog ("l", "--classification-info", q.cls, 0.2);
    tog ("m", "--metric-info", q.metric, 0.3);
    tog ("c", "--compact", q.compact, 0.4);
    tog ("q", "--quartiles", q.quart, 0.4);
    const int n = o.stdio ? 0 : int (choose (st + ".n", 3)); // 0: stdin
    for (int k = 0; k < std::max (1, n); ++k)
    {
        In i;
        i.c = o.c ? *o.c : tame_cloud (fmt ("%s.c%d", st.c_str (), k), o.max_pts);
        i.b = ref::encode (i.c, ref::gen_peer (fmt ("%s.peer%d", st.c_str (), k)), i.lay);
        if (n) { i.path = fmt ("in%d.spoc", k); j.args.push_back (i.path); }
        j.in.push_back (i);
    }
    bool missing = false;
    if (!o.valid && n && chance (st + ".missing", 0.05)) { missing = true; j.args.push_back ("missing.spoc"); }
    j.model = [=] (const std::vector<In> &in) {
        if (missing) return failure ();
        Model m;
        std::string t;
        bool empty = false;
        for (auto &i : in) { t += info_text (i.c, q); if (i.c.r.empty ()) empty = true; }
        m.outs[""].fn = [=] (const Bytes &b) -> std::string {
            if (!empty || !q.metric) return number_text_diff (t, b);
            // the metrics of an empty cloud are undefined: only ask for what precedes them
            if (in[0].c.r.empty ()) return "";
            InfoOpt z = q;
            z.metric = false;
            const std::string first = info_text (in[0].c, z);
            if (q.json || first.size () > b.size ()) return q.json ? "" : number_text_diff (first, b);
            return number_text_diff (first, b.substr (0, first.size ()));
        };
        return m;
    };
    return j;
}

// ---- diff
static Job make_diff (const std::string &st, const Opt &o)
{
    Job j;
    j.app = "diff";
    Cloud a = wild_cloud (st + ".c", o.max_pts);
    no_nan (a);
    Cloud b = a;
    const int how = int (choose (st + ".how", 10));
    auto touch = [&] (Cloud &c) {
        if (c.r.empty ()) return;
        Rec &r = c.r[choose (st + ".rec", c.r.size ())];
        switch (choose (st + ".fld", 10))
        {
            case 0: r.x += 1; break; case 1: r.y = -r.y - 1; break; case 2: r.z += 0.5; break; case 3: r.c ^= 1u << choose (st + ".bit", 32); break; case 4: r.p ^= 1u << choose (st + ".bit", 32); break;
            case 5: r.i ^= 1u << choose (st + ".bit", 16); break; case 6: r.r ^= 1; break; case 7: r.g ^= 1u << choose (st + ".bit", 16); break; case 8: r.b ^= 1; break;
            default: if (!r.e.empty ()) r.e[choose (st + ".ex", r.e.size ())] ^= 1ull << choose (st + ".bit", 64); else r.c ^= 1;
        }
    };
    switch (how)
    {
        case 0: case 1: break;
        case 2: if (b.wkt.size () < 65535) b.wkt += "x"; else b.wkt.pop_back (); break;
        case 3: b.compressed = !b.compressed; break;
        case 4: if (!b.r.empty ()) b.r.pop_back (); break;
        case 5: if (b.r.size () > 1) std::swap (b.r.front (), b.r.back ()); break;
        case 6: if (b.extra < 255) { ++b.extra; for (auto &r : b.r) r.e.push_back (0); } break;
        default: touch (b);
    }
    bool hdr = false, data = false, rev = false;
    std::string fields;
    switch (choose (st + ".mode", 6))
    {
        case 0: case 1: break;
        case 2: hdr = true; j.args.push_back ("-a"); break;
        case 3: data = true; j.args.push_back ("--data-only"); break;
        default:
        {
            const int n = 1 + int (choose (st + ".nf", 3));
            // up to one more than either file has
            const unsigned ex = std::max (a.r.empty () ? 0 : a.extra, b.r.empty () ? 0 : b.extra) + unsigned (choose (st + ".beyond", 2));
            for (int k = 0; k < n; ++k)
            {
                const u64 v = choose (st + ".fv", 9 + std::min (10u, ex));
                fields += v < 9 ? "xyzcpirgb"[v] : char ('0' + v - 9);
            }
            if (choose (st + ".joined", 2)) { j.args.push_back ("-f"); j.args.push_back (fields); }
            else for (char c : fields) { j.args.push_back ("-f"); j.args.push_back (std::string (1, c)); }
        }
    }
    bool bad = false;
    if (!o.valid && !fields.empty () && chance (st + ".bad", 0.05) ) { bad = true; }
    bool both = false; // two modes at once
    if (!o.valid && !bad && (hdr || data || !fields.empty ()) && chance (st + ".both", 0.06)) { both = true; j.args.push_back (hdr ? "-d" : "--header-only"); }
    if (chance (st + ".rev", 0.25)) { rev = true; j.args.push_back ("-r"); }
    if (bad) { j.args.push_back ("-f"); j.args.push_back ("q"); }
    int k = 0;
    for (auto c : {&a, &b})
    {
        In i;
        i.c = *c;
        i.path = fmt ("f%d.spoc", k++);
        i.b = ref::encode (*c, ref::gen_peer (fmt ("%s.peer%d", st.c_str (), k)), i.lay);
        j.args.push_back (i.path);
        j.in.push_back (i);
    }
    if (!o.valid && chance (st + ".missing", 0.03)) { j.args.back () = "missing.spoc"; bad = true; }
    j.model = [=] (const std::vector<In> &in) {
        const Cloud &a = in[0].c, &b = in[1].c;
        bool same = true;
        auto col = [] (const Cloud &c, char f) {
            std::vector<std::pair<double, u64>> v;
            for (auto &r : c.r)
            {
                bool ok = true;
                const bool d = f == 'x' || f == 'y' || f == 'z';
                v.push_back ({f == 'x' ? r.x : f == 'y' ? r.y : f == 'z' ? r.z : 0, d ? 0 : get (r, f >= '0' && f <= '9' ? 'e' : f, unsigned (f - '0'), ok)});
            }
            return v;
        };
        const unsigned ea = a.r.empty () ? 0 : a.extra, eb = b.r.empty () ? 0 : b.extra;
        if (!fields.empty ())
            for (char f : fields)
            {
                if (f >= '0' && f <= '9' && unsigned (f - '0') >= ea && unsigned (f - '0') >= eb) continue; // neither has it
                if (f >= '0' && f <= '9' && (unsigned (f - '0') >= ea) != (unsigned (f - '0') >= eb)) { same = false; continue; }
                if (col (a, f) != col (b, f)) same = false;
            }
        else
        {
            if (!data && (a.wkt != b.wkt || ea != eb || a.r.size () != b.r.size () || a.compressed != b.compressed)) same = false;
            if (!hdr)
            {
                for (char f : std::string ("xyzcpirgb")) if (col (a, f) != col (b, f)) same = false;
                if (ea != eb) same = false;
                for (size_t i = 0; i < a.r.size () && i < b.r.size (); ++i) if (a.r[i].e != b.r[i].e) same = false;
            }
        }
        if (both) return failure ();
        if (bad)
        {
            // an unknown field is an error unless a difference was found before it
            return failure ();
        }
        Model m;
        m.code = rev ? (same ? 1 : 0) : (same ? 0 : 255);
        return m;
    };
    if (bad && !fields.empty ()) // a difference found earlier ends the comparison
        j.model = [=] (const std::vector<In> &) { Model m; m.any = true; return m; };
    return j;
}

Job make (const std::string &app, const std::string &st, const Opt &o)
{
    big_wanted = o.big;
    if (o.big) coarse = true;
    Job j = app == "compress" || app == "decompress" ? make_conv (app, st, o)
        : app == "noop" ? make_noop (st, o)
        : app == "transform" ? make_transform (st, o)
        : app == "filter" ? make_filter (st, o)
        : app == "tool" ? make_tool (st, o)
        : app == "tile" ? make_tile (st, o)
        : app == "merge" ? make_merge (st, o)
        : app == "srs" ? make_srs (st, o)
        : app == "info" ? make_info (st, o)
        : make_diff (st, o);
    big_wanted = false;
    return j;
}
}
