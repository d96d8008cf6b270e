// C14, C15, C17, C18 (library), C22: operations of the library, called from instrumented code inside a simulated process
#include "scen.h"
#include <array>
using namespace node;
using ref::Cloud;
using ref::Rec;

namespace
{
typedef std::array<u64, 3> Vox;
Vox voxel (const Rec &p, const Rec &lo, double res)
{
    return {u64 (i64 (std::floor ((p.x - lo.x) / res))), u64 (i64 (std::floor ((p.y - lo.y) / res))), u64 (i64 (std::floor ((p.z - lo.z) / res)))};
}
Rec low (const std::vector<Rec> &v)
{
    Rec lo;
    if (!v.empty ()) lo = v[0];
    for (auto &r : v) { lo.x = std::min (lo.x, r.x); lo.y = std::min (lo.y, r.y); lo.z = std::min (lo.z, r.z); }
    return lo;
}
double dist2 (const Rec &a, const Rec &b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z); }
// points whose distances and voxels are exact, in clusters of very different density
Cloud clusters (const std::string &st, u64 max_pts, int shape = -1)
{
    Cloud c;
    const u64 n = skew (st + ".n", max_pts + 1), sd = raw64 (st + ".seed");
    if (shape < 0) shape = int (choose (st + ".shape", 7));
    const unsigned extra = unsigned (maybe (st + ".extra", 0.4, 4));
    c.extra = extra;
    for (u64 i = 0; i < n; ++i)
    {
        const u64 a = ref::h (sd, i);
        Rec r;
        auto grid = [&] (u64 v, u64 m, double s) { return (double (v % m) - double (m / 2)) * s; };
        switch (shape)
        {
            case 0: r.x = grid (a, 41, 0.25); r.y = grid (a >> 16, 41, 0.25); r.z = grid (a >> 32, 41, 0.25); break;            // spread
            case 1: r.x = grid (a, 5, 0.5); r.y = grid (a >> 16, 5, 0.5); r.z = grid (a >> 32, 5, 0.5); break;                  // coincidences
            case 2: r.x = grid (a, 4001, 0.125); break;                                                                        // a line
            case 3: r.x = grid (a, 9, 1); r.y = grid (a >> 16, 9, 1); break;                                                   // a lattice: exact distances
            case 4: { const u64 k = (a >> 48) % 3; r.x = double (k) * 1000 + grid (a, 17, 0.125); r.y = grid (a >> 16, 17, 0.125); r.z = double (k) * -500; break; } // clusters
            case 5: r.x = (a & 1) ? 1073741824.0 : 0; r.x += grid (a >> 1, 9, 0.5); r.y = grid (a >> 16, 9, 0.5); r.z = (a >> 60) & 1 ? 4294967296.0 : 0; break; // far apart
            case 7:                                                                                                            // along an axis, almost at exact distances
            {
                static const int sh[] = {-26, -30, -40};
                double v = grid (a, 9, 0.5) + std::ldexp (grid (a >> 8, 3, 1), sh[sd % 3]);
                (sd / 3 % 3 == 0 ? r.x : sd / 3 % 3 == 1 ? r.y : r.z) = v;
                break;
            }
            case 8:                                                                                                            // any position
            {
                auto any = [&] (u64 v) { return std::ldexp (double (i64 (v) >> 11), -52) * (sd % 3 == 0 ? 4 : sd % 3 == 1 ? 40 : 1) + (sd / 3 % 4 == 1 ? 500000.125 : 0); };
                r.x = any (ref::h (a, 91)); r.y = any (ref::h (a, 92)); r.z = sd / 12 % 2 ? 0.1 : any (ref::h (a, 93));
                break;
            }
            default: r.x = 3; r.y = -7; r.z = 0.5; break;                                                                      // one place
        }
        r.c = u32 (a); r.p = u32 (i); r.i = u16 (a >> 8);
        for (unsigned k = 0; k < extra; ++k) r.e.push_back (ref::h (a, k));
        c.r.push_back (r);
    }
    return c;
}
double pick_res (const std::string &st)
{
    static const double r[] = {1, 0.5, 0.25, 2, 4, 16, 0.125};
    return r[choose (st, 7)];
}
std::vector<u64> subset (const std::string &st, u64 n)
{
    std::vector<u64> v;
    const int how = int (choose (st, 4));
    const u64 sd = raw64 (st + ".seed");
    for (u64 i = 0; i < n; ++i)
        if (how == 0 || (how == 1 && (ref::h (sd, i) & 1)) || (how >= 2 && ref::h (sd, i) % 5 == 0)) v.push_back (i);
    if (how == 3 || choose (st + ".order", 2)) // any order
        for (u64 i = v.size (); i > 1; --i) std::swap (v[i - 1], v[ref::h (sd, 1000 + i) % i]);
    return v;
}
LibOp gen_radius (const std::string &st, u64 max_pts)
{
    LibOp o;
    o.kind = OP_RADIUS;
    o.variant = int (choose (st + ".var", 6));
    const int how = int (choose (st + ".how", 8)); // 6: almost exact distances; 7: anywhere
    o.in = clusters (st + ".c", max_pts, how >= 6 ? how + 1 : -1);
    const u64 n = o.in.r.size ();
    o.q = subset (st + ".q", n);
    o.k = subset (st + ".k", n);
    static const double rs[] = {1, 0.5, 0.75, 2, 3, 0.25, 10, 100, 1.25};
    o.a = rs[choose (st + ".r", 9)];
    if (how == 6) o.a = std::ldexp (1, int (choose (st + ".r2", 4)) - 2);
    if (how == 7) { if (choose (st + ".rr", 2)) o.a = 0.01 + double (choose (st + ".rv", 1000000)) / 123456.7; o.b = 1e-9; } // membership closer to the radius than that is not judged
    static const u64 mx[] = {1000000, 32, 1, 2, 5, 0, 10};
    o.n = mx[choose (st + ".max", 7)];
    if (o.variant == 4) o.n = 32;
    return o;
}
const char *op_name (const LibOp &o)
{
    static const char *n[] = {"read", "write", "radius_search", "voxel_indexes", "voxel_map", "subsample", "unique", "quantize", "affine", "compress", "decompress", "spoc_file"};
    return n[o.kind];
}
std::string show (const LibOp &o)
{
    return fmt ("%s.%d of %zu points (a=%g n=%llu, %zu queries, %zu candidates, %zu bytes)", op_name (o), o.variant, o.in.r.size (), o.a, (unsigned long long) o.n, o.q.size (), o.k.size (), o.bytes.size ());
}
LibOp gen_op (const std::string &st, const std::vector<int> &kinds, u64 max_pts)
{
    LibOp o;
    o.kind = kinds[choose (st + ".op", kinds.size ())];
    switch (o.kind)
    {
        case OP_READ:
        case OP_WRITE:
        {
            ref::Gen g;
            g.max_pts = max_pts;
            if (choose (st + ".comp", 4)) g.compressed = 1;
            o.in = ref::gen (st + ".c", g);
            if (o.kind == OP_READ) o.bytes = ref::encode (o.in, ref::gen_peer (st + ".peer"));
            break;
        }
        case OP_RADIUS: return gen_radius (st, max_pts);
        case OP_VOXEL: case OP_VOXELMAP:
            o.in = clusters (st + ".c", max_pts);
            o.variant = int (choose (st + ".var", 3));
            o.q = subset (st + ".q", o.in.r.size ());
            o.a = pick_res (st + ".res");
            break;
        case OP_SUBSAMPLE: case OP_UNIQUE:
            o.in = clusters (st + ".c", max_pts);
            o.variant = int (choose (st + ".var", 2));
            o.a = pick_res (st + ".res");
            o.n = choose (st + ".seeded", 2) ? 1 + choose (st + ".seed", 1000) : 0;
            break;
        case OP_QUANTIZE: o.in = clusters (st + ".c", max_pts); o.a = pick_res (st + ".res"); break;
        case OP_AFFINE:
            o.in = clusters (st + ".c", max_pts);
            o.variant = int (choose (st + ".var", 10));
            o.a = o.variant >= 3 && o.variant <= 5 ? double (i64 (choose (st + ".deg", 5760)) - 2880) / 8 : pick_res (st + ".a");
            o.b = pick_res (st + ".b");
            o.c = -pick_res (st + ".cc");
            break;
        case OP_COMPRESS: case OP_DECOMPRESS:
        {
            const u64 n = skew (st + ".n", 6000), sd = raw64 (st + ".seed"), al = 1 + choose (st + ".alpha", 256);
            for (u64 i = 0; i < n; ++i) o.bytes += char (ref::h (sd, i) % al);
            o.n = choose (st + ".level", 11); // level + 1
            if (o.kind == OP_DECOMPRESS) { o.variant = int (choose (st + ".sized", 2)); o.n = o.bytes.size (); o.bytes = ref::deflate_bytes (o.bytes, ref::gen_peer (st + ".peer")); }
            break;
        }
        default:
            o.in = clusters (st + ".c", max_pts);
            o.in.wkt = std::string (choose (st + ".wkt", 100), 'w');
            o.in.compressed = choose (st + ".z", 2);
            o.n = choose (st + ".x", 8);
    }
    return o;
}
void take (const Bytes &b, size_t &at, u64 &v) { v = 0; if (at + 8 <= b.size ()) memcpy (&v, b.data () + at, 8); at += 8; }
// what is wrong with a result ("": nothing)
std::string wrong (const LibOp &o, const LibRes &r)
{
    std::string why;
    const std::vector<Rec> &in = o.in.r;
    const Rec lo = low (in);
    switch (o.kind)
    {
        case OP_READ: return ref::diff (o.in, r.cloud);
        case OP_WRITE:
        {
            Cloud d;
            if (!ref::decode_all (r.out, d, why)) return why;
            return ref::diff (o.in, d);
        }
        case OP_RADIUS:
        {
            std::vector<u64> all (in.size ());
            for (u64 i = 0; i < all.size (); ++i) all[i] = i;
            const std::vector<u64> &q = o.variant == 3 || o.variant == 4 ? all : o.q;
            const std::vector<u64> &k = o.variant == 1 ? o.q : o.variant == 0 || o.variant == 5 ? o.k : all;
            for (u64 i = 0; i < q.size (); ++i)
            {
                if (i >= r.calls.size () || r.calls[i] != 1) return fmt ("query %llu: the callback ran %llu times", (unsigned long long) i, (unsigned long long) (i < r.calls.size () ? r.calls[i] : 0));
                std::set<u64> truth, sure;
                const double in2 = o.a * o.a * (1 - o.b), out2 = o.a * o.a * (1 + o.b);
                for (u64 j = 0; j < k.size (); ++j)
                {
                    const double d2 = dist2 (in[q[i]], in[k[j]]);
                    if (d2 <= out2) truth.insert (j);
                    if (d2 <= in2) sure.insert (j);
                }
                const std::set<u64> got (r.lists[i].begin (), r.lists[i].end ());
                const std::string w = fmt ("query %llu (%g,%g,%g), radius %g, at most %llu: ", (unsigned long long) i, in[q[i]].x, in[q[i]].y, in[q[i]].z, o.a, (unsigned long long) o.n);
                if (got.size () != r.lists[i].size ()) return w + "a neighbour is reported twice";
                for (u64 j : got) if (!truth.count (j)) return w + fmt ("candidate %llu is no neighbour", (unsigned long long) j);
                if (got.size () > o.n || got.size () < std::min<u64> (sure.size (), o.n)) return w + fmt ("%zu of %zu neighbours", got.size (), truth.size ());
                if (got.size () < o.n) for (u64 j : sure) if (!got.count (j)) return w + fmt ("candidate %llu is missing", (unsigned long long) j);
            }
            for (u64 i = q.size (); i < r.calls.size (); ++i) if (r.calls[i]) return fmt ("the callback ran for query %llu of %zu", (unsigned long long) i, q.size ());
            return "";
        }
        case OP_VOXEL: case OP_VOXELMAP:
        {
            std::vector<Vox> v;
            if (o.variant == 1) for (u64 i : o.q) v.push_back (voxel (in[i], lo, o.a));
            else for (auto &p : in) v.push_back (voxel (p, lo, o.a));
            size_t at = 0;
            if (o.kind == OP_VOXEL)
            {
                if (r.out.size () != v.size () * 24) return fmt ("%zu indexes for %zu points", r.out.size () / 24, v.size ());
                for (size_t i = 0; i < v.size (); ++i)
                    for (int d = 0; d < 3; ++d) { u64 g; take (r.out, at, g); if (g != v[i][d]) return fmt ("index of point %zu", i); }
                return "";
            }
            std::map<Vox, std::vector<u64>> m;
            for (size_t i = 0; i < v.size (); ++i) m[v[i]].push_back (i);
            Bytes want (1, char (1));
            auto put = [&] (u64 x) { want.append ((const char *) &x, 8); };
            for (auto &x : m) { for (u64 w : x.first) put (w); put (x.second.size ()); for (u64 w : x.second) put (w); }
            return r.out == want ? "" : "the map does not hold every point once";
        }
        case OP_SUBSAMPLE: case OP_UNIQUE:
        {
            std::vector<u64> got;
            if (o.kind == OP_SUBSAMPLE && o.variant == 1)
            {
                const size_t rs = 40 + 8 * o.in.extra;
                std::map<Bytes, u64> back;
                for (u64 i = 0; i < in.size (); ++i) back[ref::record (in[i])] = i; // records differ: p is their number
                for (size_t at = 0; at + rs <= r.out.size (); at += rs) { auto b = back.find (r.out.substr (at, rs)); if (b == back.end ()) return "a record was altered"; got.push_back (b->second); }
            }
            else for (size_t at = 0; at < r.out.size ();) { u64 v; take (r.out, at, v); got.push_back (v); }
            std::map<Vox, u64> first;
            auto key = [&] (u64 i) { Vox v; if (o.kind == OP_SUBSAMPLE) return voxel (in[i], lo, o.a); memcpy (&v[0], &in[i].x, 8); memcpy (&v[1], &in[i].y, 8); memcpy (&v[2], &in[i].z, 8); return v; };
            std::vector<u64> want;
            for (u64 i = 0; i < in.size (); ++i) if (first.emplace (key (i), i).second) want.push_back (i);
            if (o.n == 0) return got == want ? "" : "not the first point of each place, in order";
            std::set<Vox> seen;
            for (u64 i : got) { if (i >= in.size ()) return "an index out of range"; if (!seen.insert (key (i)).second) return "a place twice"; }
            return seen.size () == first.size () ? "" : "a place is missing";
        }
        case OP_QUANTIZE: case OP_AFFINE:
        {
            Bytes want;
            const size_t rs = 40 + 8 * o.in.extra;
            if (r.out.size () != rs * in.size ()) return "the number of points changed";
            for (size_t i = 0; i < in.size (); ++i)
            {
                Rec w = in[i];
                double tol = 0;
                if (o.kind == OP_QUANTIZE) { w.x = std::trunc (w.x / o.a) * o.a; w.y = std::trunc (w.y / o.a) * o.a; w.z = std::trunc (w.z / o.a) * o.a; }
                else switch (o.variant)
                {
                    case 0: w.x += o.a; break;
                    case 1: w.y += o.a; break;
                    case 2: w.z += o.a; break;
                    case 3: case 4: case 5:
                    {
                        double *u = o.variant == 3 ? &w.y : &w.x, *v = o.variant == 5 ? &w.y : &w.z;
                        const double a = *u, b = *v;
                        tol = 1e-12 * (std::fabs (a) + std::fabs (b) + 1);
                        const double th = o.a * M_PI / 180.0;
                        *u = a * cos (th) - b * sin (th);
                        *v = a * sin (th) + b * cos (th);
                        break;
                    }
                    case 6: w.x *= o.a; break;
                    case 7: w.y *= o.a; break;
                    case 8: w.z *= o.a; break;
                    default: w.x += o.a; w.y += o.b; w.z += o.c;
                }
                Rec g = w;
                memcpy (&g.x, r.out.data () + i * rs, 8); memcpy (&g.y, r.out.data () + i * rs + 8, 8); memcpy (&g.z, r.out.data () + i * rs + 16, 8);
                for (int d = 0; d < 3; ++d)
                {
                    const double x = d == 0 ? w.x : d == 1 ? w.y : w.z, y = d == 0 ? g.x : d == 1 ? g.y : g.z;
                    if (!(x == y || std::fabs (x - y) <= tol)) return fmt ("point %zu: %.17g instead of %.17g", i, y, x);
                }
                if (r.out.substr (i * rs, rs) != ref::record (g)) return fmt ("point %zu: another field changed", i);
            }
            return "";
        }
        case OP_COMPRESS:
        {
            Bytes d;
            if (!ref::inflate_bytes (r.out, d, o.bytes.size () + 1) || d != o.bytes) return "does not decompress to its input";
            return "";
        }
        case OP_DECOMPRESS:
        {
            Bytes d;
            ref::inflate_bytes (o.bytes, d, 1 << 20);
            return r.out == d ? "" : "not the original bytes";
        }
        default:
        {
            Cloud c = o.in;
            c.extra = unsigned (o.n);
            for (auto &r : c.r) r.e.resize (o.n);
            return ref::diff (c, r.cloud);
        }
    }
}
bool equal (const LibRes &a, const LibRes &b)
{
    return a.threw == b.threw && a.out == b.out && ref::diff (a.cloud, b.cloud).empty () && a.lists == b.lists && a.calls == b.calls;
}
// one call in a world of its own
bool once (const LibOp &op, LibRes &res, bool sequential, const std::string &st)
{
    LibPlan p;
    p.op = op;
    World w;
    w.max_steps = 200000000;
    Spec s;
    if (coarse) coarse_world (w);
    if (!sequential) { env_world (w, st); env_spec (s, st); }
    s.module = "node"; s.entry = "node_lib"; s.name = op_name (op); s.user = &p;
    w.spawn (s);
    w.run ();
    if (!sane (w, op_name (op))) return false;
    res = p.res[0];
    note ("omp.regions", w.regions);
    note ("omp.preemptions", w.preempts);
    return true;
}
const std::vector<int> parallel_ops = {OP_READ, OP_WRITE, OP_RADIUS, OP_VOXEL, OP_VOXELMAP, OP_QUANTIZE, OP_AFFINE, OP_AFFINE, OP_AFFINE, OP_SUBSAMPLE};
}

// ---------------------------------------------------------------- C14
SCENARIO (C14, team, 5)
{
    const LibOp op = gen_op ("op", parallel_ops, 80);
    LibRes a, b;
    sample (show (op) + ": sequential and with a team");
    if (!once (op, a, true, "seq") || !once (op, b, false, "env")) return;
    nontrivial ();
    if (!check (!a.threw && !b.threw, fmt ("throws:%s", op_name (op)), show (op) + ": threw " + a.what + b.what)) return;
    if (!check (equal (a, b), fmt ("differs:%s", op_name (op)), show (op) + ": the parallel execution gives another result than the sequential one")) return;
    const std::string d = wrong (op, b);
    check (d.empty (), fmt ("wrong:%s", op_name (op)), show (op) + ": " + d);
}
SCENARIO (C14, pair, 4)
{
    // two callers at the same time, on data of their own
    PairPlan p;
    static const std::vector<int> ops = {OP_READ, OP_WRITE, OP_RADIUS, OP_VOXEL, OP_VOXELMAP, OP_QUANTIZE, OP_AFFINE, OP_SUBSAMPLE, OP_UNIQUE, OP_COMPRESS, OP_DECOMPRESS};
    p.a = gen_op ("a", ops, 40);
    p.b = choose ("same", 2) ? gen_op ("b", {p.a.kind}, 40) : gen_op ("b", ops, 40);
    sample (show (p.a) + " || " + show (p.b));
    LibRes a, b;
    if (!once (p.a, a, true, "seq") || !once (p.b, b, true, "seq")) return;
    World w;
    env_world (w);
    w.max_steps = 200000000;
    node_proc (w, "node_pair", p, "pair");
    w.run ();
    if (!sane (w, "pair")) return;
    nontrivial ();
    note ("omp.preemptions", w.preempts);
    for (int k = 0; k < 2; ++k)
    {
        const LibOp &o = k ? p.b : p.a, &other = k ? p.a : p.b;
        const LibRes &r = k ? p.rb : p.ra, &s = k ? b : a;
        if (!check (!r.threw, fmt ("throws:%s", op_name (o)), show (o) + " beside " + show (other) + ": threw " + r.what)) return;
        if (!check (equal (r, s), fmt ("interferes:%s", op_name (o)), show (o) + " beside " + show (other) + ": not the result it has alone")) return;
        const std::string d = wrong (o, r);
        if (!check (d.empty (), fmt ("wrong:%s", op_name (o)), show (o) + ": " + d)) return;
    }
}

// ---------------------------------------------------------------- C15
SCENARIO (C15, brute, 5)
{
    const bool big = chance ("huge", 0.002);
    if (big) coarse = true;
    const LibOp op = gen_radius ("op", big ? 1800 : choose ("big", 4) == 3 ? 250 : 60);
    LibRes r;
    sample (show (op));
    if (!once (op, r, false, "env")) return;
    nontrivial ();
    if (!check (!r.threw, "throws", show (op) + ": threw " + r.what)) return;
    const std::string d = wrong (op, r);
    check (d.empty (), fmt ("wrong:%d", op.variant), show (op) + ": " + d);
}
SCENARIO (C15, schedule, 2)
{
    const LibOp op = gen_radius ("op", 80);
    LibRes r[3];
    sample (show (op) + ": three schedules");
    for (int k = 0; k < 3; ++k)
    {
        if (!once (op, r[k], k == 0, fmt ("env%d", k))) return;
        if (!check (!r[k].threw, "throws", show (op) + ": threw " + r[k].what)) return;
        if (k && !check (equal (r[0], r[k]), "schedule", show (op) + ": the neighbours given depend on the schedule")) return;
    }
    nontrivial ();
    const std::string d = wrong (op, r[2]);
    check (d.empty (), fmt ("wrong:%d", op.variant), show (op) + ": " + d);
}

// ---------------------------------------------------------------- C18: the library
SCENARIO (C18, library, 6)
{
    static const std::vector<int> ops = {OP_READ, OP_WRITE, OP_RADIUS, OP_VOXEL, OP_VOXELMAP, OP_SUBSAMPLE, OP_UNIQUE, OP_QUANTIZE, OP_AFFINE, OP_COMPRESS, OP_DECOMPRESS, OP_FILE};
    LibPlan p;
    p.op = gen_op ("op", ops, 30);
    LibRes base;
    if (!once (p.op, base, true, "seq")) return;
    if (!check (!base.threw, fmt ("throws:%s", op_name (p.op)), show (p.op) + ": threw " + base.what)) return;
    const int n = 1 + int (choose ("faults", 3));
    for (int k = 0; k < n; ++k)
    {
        const std::string s = fmt ("f%d", k);
        Attempt a;
        a.kind = int (choose (s + ".kind", 4)) % 3;
        const u64 span = a.kind == 2 ? 40 : base.allocs + 2;
        a.fail_at = i64 (choose (s + ".when", 3) == 0 ? skew (s + ".at", span) : choose (s + ".at", span));
        a.forever = choose (s + ".forever", 2);
        p.tries.push_back (a);
        if (k + 1 == n || choose (s + ".retry", 2)) p.tries.push_back (Attempt ());
    }
    World w;
    env_world (w);
    w.max_steps = 300000000;
    node_proc (w, "node_lib", p, op_name (p.op));
    w.run ();
    sample (show (p.op) + fmt (", %zu attempts, the first failing allocation %lld of %llu", p.tries.size (), (long long) p.tries[0].fail_at, (unsigned long long) base.allocs));
    if (!sane (w, op_name (p.op))) return;
    if (!check (p.res.size () == p.tries.size () && w.procs[0]->ok (), fmt ("aborted:%s", op_name (p.op)), show (p.op) + ": the process ended with " + w.procs[0]->status ())) return;
    for (size_t k = 0; k < p.tries.size (); ++k)
    {
        const LibRes &r = p.res[k];
        const Attempt &t = p.tries[k];
        const std::string what = show (p.op) + (t.fail_at < 0 ? fmt (": attempt %zu, with memory", k + 1) : fmt (": attempt %zu, %s allocation %lld fails%s", k + 1, t.kind == 2 ? "zlib" : t.kind == 1 ? "heap" : "", (long long) t.fail_at, t.forever ? " and all later ones" : ""));
        if (r.faults) { nontrivial (); note ("fault.alloc"); }
        if (r.threw)
        {
            if (!check (r.what != "not a std::exception", fmt ("odd-exception:%s", op_name (p.op)), what + ": " + r.what)) return;
            if (!check (r.faults > 0, fmt ("retry-fails:%s", op_name (p.op)), what + ": threw " + r.what)) return;
            continue;
        }
        const std::string d = wrong (p.op, r);
        if (!check (d.empty (), fmt ("%s:%s", r.faults ? "lied" : "retry-wrong", op_name (p.op)), what + ": " + d)) return;
        if (!check (p.op.kind == OP_READ || equal (r, base), fmt ("%s:%s", r.faults ? "lied" : "retry-wrong", op_name (p.op)), what + ": not the result it has otherwise")) return;
    }
}

// ---------------------------------------------------------------- C29: the library's operations, again and again
SCENARIO (C29, operations, 5)
{
    static const std::vector<int> ops = {OP_READ, OP_WRITE, OP_RADIUS, OP_VOXEL, OP_VOXELMAP, OP_SUBSAMPLE, OP_UNIQUE, OP_QUANTIZE, OP_AFFINE, OP_COMPRESS, OP_DECOMPRESS, OP_FILE};
    LibPlan p;
    p.op = gen_op ("op", ops, 30);
    std::string how;
    LibRes base;
    if (!once (p.op, base, true, "seq")) return;
    if ((p.op.kind == OP_READ || p.op.kind == OP_DECOMPRESS) && !p.op.bytes.empty () && choose ("damage", 3) == 0)
    {
        const u64 at = choose ("where", p.op.bytes.size ());
        if (choose ("cut", 2)) { p.op.bytes.resize (at); how = ", cut"; }
        else { p.op.bytes[at] = char (p.op.bytes[at] ^ (1 << choose ("bit", 8))); how = ", damaged"; }
    }
    Attempt a;
    if (choose ("fault", 4))
    {
        a.kind = int (choose ("kind", 4)) % 3;
        const u64 span = a.kind == 2 ? 40 : base.allocs + 2;
        a.fail_at = i64 (choose ("when", 3) == 0 ? skew ("at", span) : choose ("at", span));
        a.forever = choose ("forever", 2);
    }
    p.tries.push_back (Attempt ());
    const int times = 4;
    for (int k = 0; k < times; ++k) p.tries.push_back (a);
    World w;
    env_world (w);
    w.max_steps = 400000000;
    node_proc (w, "node_lib", p, op_name (p.op));
    w.run ();
    const std::string what = show (p.op) + how + (a.fail_at < 0 ? std::string () : fmt (", %s allocation %lld fails%s", a.kind == 2 ? "zlib" : a.kind == 1 ? "heap" : "", (long long) a.fail_at, a.forever ? " and all later ones" : ""));
    sample (what);
    if (!sane (w, op_name (p.op))) return;
    if (!check (p.res.size () == p.tries.size () && w.procs[0]->ok (), fmt ("aborted:%s", op_name (p.op)), what + ": the process ended with " + w.procs[0]->status ())) return;
    nontrivial ();
    if (p.res[2].faults) note ("fault.alloc", 1);
    if (p.res[2].threw) note ("outcome.threw");
    // what stays after the first time may be a cache; what every repetition adds is lost
    const auto &r = p.res;
    u64 lost = ~0ull;
    for (size_t k = 2; k < r.size (); ++k) lost = std::min (lost, r[k].live > r[k - 1].live ? r[k].live - r[k - 1].live : 0);
    check (lost == 0, fmt ("lost:%s", op_name (p.op)), what + fmt (": every repetition leaves %llu more bytes allocated (%s)", (unsigned long long) lost, r[2].threw ? r[2].what.c_str () : "no exception"));
}

// ---------------------------------------------------------------- C17
namespace
{
struct FileModel
{
    std::vector<Cloud> s;
    std::vector<std::pair<unsigned, unsigned>> ver; // version of each file
    FileModel (int n) : s (n), ver (n, {0, 1}) {}
    static unsigned extra (const std::vector<Rec> &r) { return r.empty () ? 0 : unsigned (r[0].e.size ()); }
    static bool even (const std::vector<Rec> &r) { for (auto &x : r) if (x.e.size () != r[0].e.size ()) return false; return true; }
    // true: must throw and change nothing
    bool apply (const FileStep &t, std::vector<Rec> &moved)
    {
        Cloud &a = s[t.a], &b = s[t.b];
        auto &va = ver[t.a], &vb = ver[t.b];
        switch (t.kind)
        {
            case F_CTOR: if (!even (t.recs)) return true; a = Cloud (); a.wkt = t.wkt; a.compressed = t.comp; a.r = t.recs; va = {0, 1}; break;
            case F_VERSION: if (!even (t.recs)) return true; a = Cloud (); a.wkt = t.wkt; a.compressed = t.comp; a.r = t.recs; va = {t.major, t.minor}; break;
            case F_GETREC: if (t.n >= a.r.size ()) return true; moved = {a.r[t.n]}; break;
            case F_GETEXTRA: if (!a.r.empty () && t.n >= extra (a.r)) return true; break;
            case F_PUSH: if (!a.r.empty () && t.rec.e.size () != extra (a.r)) return true; a.r.push_back (t.rec); break;
            case F_RESIZE: for (auto &r : a.r) r.e.resize (t.n); break;
            case F_SETREC: if (t.n >= a.r.size () || t.rec.e.size () != extra (a.r)) return true; a.r[t.n] = t.rec; break;
            case F_SETRECS: if (!even (t.recs)) return true; a.r = t.recs; break;
            case F_MOVEIN: moved = t.recs; if (!even (t.recs)) return true; a.r = t.recs; moved.clear (); break;
            case F_MOVEOUT: moved = a.r; a.r.clear (); break;
            case F_SWAP: std::swap (a, b); std::swap (va, vb); break;
            case F_ASSIGN: a = Cloud (b); va = vb; break;
            case F_CLONE: { Cloud c = b; c.r.clear (); a = c; va = vb; break; }
            case F_COPY: a = Cloud (b); va = vb; break;
            case F_WKT: a.wkt = t.wkt; break;
            case F_COMP: a.compressed = t.comp; break;
            default: break;
        }
        for (auto &c : s) c.extra = extra (c.r);
        return false;
    }
};
Rec small_rec (const std::string &st, unsigned extra)
{
    Rec r;
    const u64 v = raw64 (st);
    r.x = double (i64 (v % 1000)) / 8; r.y = double (v % 77); r.z = -double (v % 13);
    r.c = u32 (v >> 3); r.p = u32 (v >> 5); r.i = u16 (v >> 7); r.r = u16 (v >> 9); r.g = u16 (v >> 11); r.b = u16 (v >> 13);
    for (unsigned k = 0; k < extra; ++k) r.e.push_back (ref::h (v, k));
    return r;
}
bool same_recs (const std::vector<Rec> &a, const std::vector<Rec> &b)
{
    if (a.size () != b.size ()) return false;
    for (size_t i = 0; i < a.size (); ++i) if (a[i].e.size () != b[i].e.size () || !ref::same (a[i], b[i])) return false;
    return true;
}
}
SCENARIO (C17, operations, 5)
{
    static const char *names[] = {"constructor", "push_back", "resize_extra_fields", "set_point_record", "set_point_records", "move_point_records(in)", "move_point_records(out)", "swap", "operator=", "clone_empty", "copy constructor", "set_wkt", "set_compressed", "self assignment", "get_point_record", "get_extra", "constructor(version)"};
    FilePlan p;
    FileModel gen (p.slots);
    const bool faults = choose ("faults", 3);
    const int n = 3 + int (skew ("steps", 40));
    for (int k = 0; k < n; ++k)
    {
        const std::string s = fmt ("t%d", k);
        FileStep t;
        t.kind = int (choose (s, F_NUM));
        t.a = int (choose (s + ".a", p.slots));
        t.b = int (choose (s + ".b", p.slots));
        const Cloud &a = gen.s[t.a]; // a step whose memory runs out is taken for done: only the mix of later steps depends on it
        const unsigned have = a.r.empty () ? unsigned (choose (s + ".e", 4)) : FileModel::extra (a.r);
        const bool odd = chance (s + ".odd", 0.15);
        t.wkt = std::string (skew (s + ".wkt", 400), char ('a' + k % 26));
        t.comp = choose (s + ".comp", 2);
        t.rec = small_rec (s + ".rec", odd ? have + 1 + unsigned (choose (s + ".more", 3)) : have);
        const u64 m = choose (s + ".m", 7);
        const unsigned ex = unsigned (choose (s + ".ex", 5));
        for (u64 i = 0; i < m; ++i) t.recs.push_back (small_rec (fmt ("%s.r%llu", s.c_str (), (unsigned long long) i), odd && i == m / 2 ? ex + 1 : ex));
        const bool far = chance (s + ".far", 0.2);
        if (t.kind == F_SETREC || t.kind == F_GETREC)
        {
            if (a.r.empty () && !far) t.kind = F_PUSH;
            else t.n = far ? a.r.size () + skew (s + ".fari", 1u << 30) : choose (s + ".i", a.r.size ());
        }
        if (t.kind == F_GETEXTRA) t.n = far || have == 0 ? have + skew (s + ".fari", 1u << 30) : choose (s + ".i", have);
        if (t.kind == F_VERSION) { t.major = unsigned (choose (s + ".major", 256)); t.minor = unsigned (choose (s + ".minor", 256)); }
        if (t.kind == F_RESIZE) t.n = choose (s + ".big", 8) == 7 ? 260 - skew (s + ".n", 200) : skew (s + ".n", 12);
        if (faults && choose (s + ".fault", 3) == 0) { t.fail_at = i64 (skew (s + ".at", 8 + 3 * a.r.size () + 3 * m)); t.forever = choose (s + ".ever", 2); }
        p.steps.push_back (t);
        std::vector<Rec> mv;
        gen.apply (t, mv);
    }
    World w;
    env_world (w);
    node_proc (w, "node_file", p, "file");
    w.run ();
    sample (fmt ("%d operations on %d files%s", n, p.slots, faults ? ", allocations failing" : ""));
    if (!sane (w, "spoc_file")) return;
    nontrivial ();
    if (!check (p.obs.size () == p.steps.size (), "aborted", "the process ended with " + w.procs[0]->status ())) return;
    FileModel m (p.slots);
    for (size_t k = 0; k < p.steps.size (); ++k)
    {
        const FileStep &t = p.steps[k];
        const FileObs &o = p.obs[k];
        FileModel next = m;
        std::vector<Rec> moved;
        const bool must = next.apply (t, moved);
        const std::string what = fmt ("step %zu, %s", k + 1, names[t.kind]) + (o.faults ? " (out of memory)" : "");
        if (o.faults) note ("fault.alloc");
        tr (90, u64 (t.kind) * 2 + o.threw, o.faults, m.s[t.a].r.size ());
        if (!check (!must || o.threw, fmt ("accepted:%s", names[t.kind]), what + ": an inconsistent argument is accepted")) return;
        if (!check (!o.threw || must || o.faults, fmt ("throws:%s", names[t.kind]), what + ": threw " + o.what)) return;
        if (!o.threw) m = next;
        if (t.kind == F_MOVEIN)
        {
            if (!check (same_recs (o.moved, o.threw ? t.recs : std::vector<Rec> ()), fmt ("argument:%s", names[t.kind]), what + (o.threw ? ": threw, but its argument changed" : ": its argument is not empty afterwards"))) return;
        }
        if (t.kind == F_GETREC && !o.threw && !check (same_recs (o.moved, moved), fmt ("got:%s", names[t.kind]), what + ": another record")) return;
        if (t.kind == F_GETEXTRA && !o.threw)
        {
            std::vector<u64> col;
            for (auto &r : m.s[t.a].r) col.push_back (r.e[t.n]);
            if (!check (col == o.col, fmt ("got:%s", names[t.kind]), what + ": another column")) return;
        }
        if (t.kind == F_MOVEOUT && !o.threw && !check (same_recs (o.moved, moved), fmt ("moved:%s", names[t.kind]), what + ": delivered other records")) return;
        for (int q = 0; q < p.slots; ++q)
        {
            const FileState &g = o.st[q];
            const Cloud &x = m.s[q];
            const std::string z = what + fmt ("%s: file %d ", o.threw ? " threw" : "", q);
            std::string d = ref::diff (x, g.c);
            if (!check (d.empty () && same_recs (x.r, g.c.r), fmt ("%s:%s", o.threw ? "changed" : "state", names[t.kind]), z + (o.threw ? "changed: " : "is wrong: ") + d)) return;
            if (!check (g.valid && g.columns, fmt ("invariant:%s", names[t.kind]), z + "breaks its invariant")) return;
            const bool fits = FileModel::extra (x.r) <= 255; // a header cannot say more
            if (!check (g.gmajor == m.ver[q].first && g.gminor == m.ver[q].second, fmt ("version:%s", names[t.kind]), z + "has another version")) return;
            if (!check (g.hthrew == !fits && (!fits || (g.htotal == x.r.size () && g.hextra == FileModel::extra (x.r) && g.hcomp == x.compressed && g.hwkt == x.wkt && g.major == m.ver[q].first && g.minor == m.ver[q].second)), fmt ("header:%s", names[t.kind]), z + "its header does not describe it")) return;
        }
    }
}

// ---------------------------------------------------------------- C22
SCENARIO (C22, timer, 5)
{
    TimerPlan p;
    const int n = 2 + int (choose ("steps", 30));
    for (int k = 0; k < n; ++k)
    {
        const std::string s = fmt ("t%d", k);
        static const int kinds[] = {T_SLEEP, T_QUERY, T_JUMP, T_STOP, T_START, T_NEW, T_SLEEP, T_QUERY, T_JUMP};
        const int kind = kinds[choose (s, 9)];
        i64 v = 0;
        if (kind == T_SLEEP) v = 1 + i64 (skew (s + ".ns", 1ull << (20 + choose (s + ".mag", 34))));
        if (kind == T_JUMP) { v = i64 (skew (s + ".jump", 1ull << (20 + choose (s + ".mag", 41)))); if (choose (s + ".back", 2)) v = -v; }
        p.steps.push_back ({kind, v});
    }
    p.steps.push_back ({T_QUERY, 0});
    World w;
    env_world (w);
    w.now = choose ("boot", 3) ? raw64 ("boot.at") >> 12 : 0;
    w.wall_offset = 1ull << 62;
    std::vector<u64> at;
    p.hook = [&] (int kind, i64 v) {
        at.push_back (W->now);
        if (kind == T_JUMP) { W->wall_offset += u64 (v); note (v < 0 ? "fault.clock_back" : "fault.clock_forward"); }
    };
    const u64 begin = w.now;
    Proc *q = node_proc (w, "node_timer", p, "timer");
    w.run ();
    sample (fmt ("a timer, %zu steps", p.steps.size ()));
    if (!sane (w, "timer")) return;
    nontrivial ();
    if (!check (q->ok () && p.obs.size () == p.steps.size (), "aborted", q->status ())) return;
    u64 t1 = begin, t2 = 0;
    bool running = true, known = true;
    std::string log;
    for (size_t k = 0; k < p.steps.size (); ++k)
    {
        static const char *nm[] = {"start", "stop", "elapsed", "sleep", "jump", "new"};
        log += fmt (" %s", nm[p.steps[k].first]) + (p.steps[k].second ? fmt ("(%.6f ms)", double (p.steps[k].second) / 1e6) : "");
        switch (p.steps[k].first)
        {
            case T_START: case T_NEW: t1 = at[k]; running = known = true; break;
            case T_STOP: if (!running) known = false; t2 = at[k]; running = false; break; // stopping twice: not specified
            case T_QUERY:
                if (known)
                {
                    const double real = double ((running ? at[k] : t2) - t1) / 1e6, got = p.obs[k];
                    if (!check (got >= 0 && std::fabs (got - real) <= 1.05 + 1e-9 * real, "elapsed", fmt ("the timer reports %.3f ms, %.6f ms have passed:", got, real) + log)) return;
                }
                break;
            default: break;
        }
    }
}
