#include "ref.h"
#include <cmath>
#include <limits>
#include <zlib.h>

namespace ref
{
u64 h (u64 a, u64 b) { return mix (a ^ 0xABCDEF12345ull, b); }
bool same_bits (double a, double b) { return memcmp (&a, &b, 8) == 0; }
bool same (const Rec &a, const Rec &b)
{
    return same_bits (a.x, b.x) && same_bits (a.y, b.y) && same_bits (a.z, b.z) && a.c == b.c && a.p == b.p && a.i == b.i
        && a.r == b.r && a.g == b.g && a.b == b.b && a.e == b.e;
}
std::string show (const Rec &a)
{
    std::string s = fmt ("(%.17g %.17g %.17g c%u p%u i%u r%u g%u b%u", a.x, a.y, a.z, a.c, a.p, a.i, a.r, a.g, a.b);
    for (size_t k = 0; k < a.e.size () && k < 6; ++k) s += fmt (" e%zu=%llu", k, (unsigned long long) a.e[k]);
    return s + ")";
}
std::string diff (const Cloud &a, const Cloud &b)
{
    if (a.wkt != b.wkt) return fmt ("WKT differs (%zu and %zu bytes)", a.wkt.size (), b.wkt.size ());
    if (a.compressed != b.compressed) return "compression flag differs";
    if (a.r.size () != b.r.size ()) return fmt ("%zu records instead of %zu", b.r.size (), a.r.size ());
    if (!a.r.empty () && a.extra != b.extra) return fmt ("%u extra fields instead of %u", b.extra, a.extra);
    for (size_t i = 0; i < a.r.size (); ++i)
        if (!same (a.r[i], b.r[i]))
            return fmt ("record %zu is %s instead of %s", i, show (b.r[i]).c_str (), show (a.r[i]).c_str ());
    return "";
}
template<typename T> static void put (Bytes &b, T v) { b.append (reinterpret_cast<const char *> (&v), sizeof v); } // x86: little endian

Bytes header (const std::string &wkt, unsigned extra, u64 total, u8 compressed)
{
    Bytes b = "SPOC";
    put<u8> (b, 0);
    put<u8> (b, 1);
    put<u16> (b, u16 (wkt.size ()));
    b += wkt;
    put<u8> (b, u8 (extra));
    put<u64> (b, total);
    put<u8> (b, compressed);
    return b;
}
Bytes record (const Rec &r)
{
    Bytes b;
    put (b, r.x); put (b, r.y); put (b, r.z);
    put (b, r.c); put (b, r.p);
    put (b, r.i); put (b, r.r); put (b, r.g); put (b, r.b);
    for (u64 e : r.e) put (b, e);
    return b;
}
Bytes deflate_bytes (const Bytes &in, const Peer &p)
{
    z_stream s;
    memset (&s, 0, sizeof s);
    if (deflateInit2 (&s, p.level, Z_DEFLATED, p.wbits, p.memlevel, p.strategy) != Z_OK) return "";
    Bytes out;
    char buf[16384];
    size_t at = 0;
    const size_t step = p.flush_every ? std::max<size_t> (size_t (p.flush_every), in.size () / 2000) : in.size ();
    do
    {
        const size_t n = std::min (step, in.size () - at);
        s.next_in = (Bytef *) in.data () + at;
        s.avail_in = n;
        at += n;
        const int fl = at == in.size () ? Z_FINISH : Z_FULL_FLUSH;
        do
        {
            s.next_out = (Bytef *) buf;
            s.avail_out = sizeof buf;
            deflate (&s, fl);
            out.append (buf, sizeof buf - s.avail_out);
        } while (s.avail_out == 0);
    } while (at < in.size ());
    deflateEnd (&s);
    return out;
}
bool inflate_bytes (const Bytes &in, Bytes &out, size_t limit, bool trailing)
{
    z_stream s;
    memset (&s, 0, sizeof s);
    if (inflateInit (&s) != Z_OK) return false;
    s.next_in = (Bytef *) in.data ();
    s.avail_in = in.size ();
    std::vector<char> buf (65536);
    out.clear ();
    int r;
    do
    {
        s.next_out = (Bytef *) buf.data ();
        s.avail_out = buf.size ();
        r = inflate (&s, Z_NO_FLUSH);
        out.append (buf.data (), buf.size () - s.avail_out);
        if (out.size () > limit) { inflateEnd (&s); return false; }
    } while (r == Z_OK && (s.avail_in > 0 || s.avail_out == 0));
    const bool ok = r == Z_STREAM_END && (trailing || s.avail_in == 0);
    inflateEnd (&s);
    return ok;
}
template<typename F> static Bytes column (const Cloud &c, F f)
{
    Bytes b;
    for (auto &r : c.r) put (b, f (r));
    return b;
}
Bytes encode (const Cloud &c, const Peer &p) { Layout l; return encode (c, p, l); }
Bytes encode (const Cloud &c, const Peer &p, Layout &l)
{
    Bytes out = header (c.wkt, c.extra, c.r.size (), c.compressed ? 1 : 0);
    l.header = out.size ();
    l.fields.clear ();
    if (!c.compressed)
    {
        for (auto &r : c.r) out += record (r);
        l.total = out.size ();
        return out;
    }
    std::vector<Bytes> cols;
    cols.push_back (column (c, [] (const Rec &r) { return r.x; }));
    cols.push_back (column (c, [] (const Rec &r) { return r.y; }));
    cols.push_back (column (c, [] (const Rec &r) { return r.z; }));
    cols.push_back (column (c, [] (const Rec &r) { return r.c; }));
    cols.push_back (column (c, [] (const Rec &r) { return r.p; }));
    cols.push_back (column (c, [] (const Rec &r) { return r.i; }));
    cols.push_back (column (c, [] (const Rec &r) { return r.r; }));
    cols.push_back (column (c, [] (const Rec &r) { return r.g; }));
    cols.push_back (column (c, [] (const Rec &r) { return r.b; }));
    for (unsigned k = 0; k < c.extra; ++k)
        cols.push_back (column (c, [k] (const Rec &r) { return r.e[k]; }));
    for (size_t k = 0; k < cols.size (); ++k)
    {
        const bool zero = cols[k].find_first_not_of ('\0') == Bytes::npos;
        const bool elide = zero && !(k < 32 && (p.force_zero >> k & 1) && !cols[k].empty ());
        const Bytes z = elide ? Bytes () : deflate_bytes (cols[k], p);
        l.fields.push_back ({out.size (), z.size ()});
        put<u64> (out, z.size ());
        out += z;
    }
    l.total = out.size ();
    return out;
}
bool decode (const Bytes &b, Cloud &c, std::string &why, size_t *consumed, bool lenient)
{
    size_t at = 0;
    auto need = [&] (size_t n) { return b.size () - at >= n; };
    auto get = [&] (void *v, size_t n) { memcpy (v, b.data () + at, n); at += n; };
    c = Cloud ();
    if (!need (8)) { why = "short header"; return false; }
    if (b.compare (0, 4, "SPOC") != 0) { why = "signature"; return false; }
    if (b[4] != 0 || b[5] != 1) { why = "version"; return false; }
    at = 6;
    u16 len;
    get (&len, 2);
    if (!need (size_t (len) + 10)) { why = "short header"; return false; }
    c.wkt = b.substr (at, len);
    at += len;
    u8 ex, comp;
    u64 n;
    get (&ex, 1); get (&n, 8); get (&comp, 1);
    c.extra = ex;
    c.compressed = comp != 0;
    if (comp > 1 && !lenient) { why = "compression flag"; return false; }
    if (!c.compressed)
    {
        const u64 rs = 40 + 8ull * ex;
        if (n > (b.size () - at) / rs) { why = fmt ("header promises %llu records, %zu bytes follow", (unsigned long long) n, b.size () - at); return false; }
        c.r.resize (n);
        for (auto &r : c.r)
        {
            get (&r.x, 8); get (&r.y, 8); get (&r.z, 8); get (&r.c, 4); get (&r.p, 4);
            get (&r.i, 2); get (&r.r, 2); get (&r.g, 2); get (&r.b, 2);
            r.e.resize (ex);
            for (auto &e : r.e) get (&e, 8);
        }
    }
    else
    {
        if (n > (64u << 20) / (40 + 8ull * ex)) { why = "more points than the memory limits of the runs that read damaged files allow"; return false; }
        std::vector<Bytes> cols;
        static const size_t w[] = {8, 8, 8, 4, 4, 2, 2, 2, 2};
        for (unsigned k = 0; k < 9u + ex; ++k)
        {
            const size_t width = k < 9 ? w[k] : 8;
            if (!need (8)) { why = fmt ("field %u missing", k); return false; }
            u64 z;
            get (&z, 8);
            if (z > b.size () - at) { why = fmt ("field %u cut", k); return false; }
            Bytes col;
            if (z == 0) col.assign (n * width, '\0');
            else if (!inflate_bytes (b.substr (at, z), col, n * width + 1, lenient) || col.size () != n * width) { why = fmt ("field %u damaged", k); return false; }
            at += z;
            cols.push_back (std::move (col));
        }
        c.r.resize (n);
        for (u64 i = 0; i < n; ++i)
        {
            Rec &r = c.r[i];
            auto ld = [&] (int k, void *v, size_t s) { memcpy (v, cols[k].data () + i * s, s); };
            ld (0, &r.x, 8); ld (1, &r.y, 8); ld (2, &r.z, 8); ld (3, &r.c, 4); ld (4, &r.p, 4);
            ld (5, &r.i, 2); ld (6, &r.r, 2); ld (7, &r.g, 2); ld (8, &r.b, 2);
            r.e.resize (ex);
            for (unsigned k = 0; k < ex; ++k) ld (9 + k, &r.e[k], 8);
        }
    }
    if (consumed) *consumed = at;
    return true;
}
bool decode_all (const Bytes &b, Cloud &c, std::string &why)
{
    size_t used;
    if (!decode (b, c, why, &used)) return false;
    if (used != b.size ()) { why = fmt ("%zu stray bytes after the file", b.size () - used); return false; }
    return true;
}
static double special (u64 v)
{
    static const u64 bits[] = {0x8000000000000000ull, 0x7FF0000000000000ull, 0xFFF0000000000000ull, 0x7FF8000000000001ull,
        0x7FF0000000000001ull, 0xFFF8DEADBEEF0001ull, 1, 0x000FFFFFFFFFFFFFull, 0x7FEFFFFFFFFFFFFFull, 0x3FF0000000000000ull, 0, 0x8000000000000001ull};
    double d;
    memcpy (&d, &bits[v % (sizeof bits / sizeof *bits)], 8);
    return d;
}
static double coord (int mode, u64 s)
{
    switch (mode)
    {
        case 0: return 0.0;
        case 1: return double (i64 (s % 32769) - 16384) / 16.0;       // dyadic grid
        case 2: return double (i64 (s >> 20)) / 1048576.0 / 1024.0;
        case 3: { double d; memcpy (&d, &s, 8); return d; }
        case 4: return special (s);
        case 5: return (s & 7) ? 0.0 : special (s >> 3);
        case 6: return (s & 1) ? -0.0 : 0.0;
        case 8:                                                       // far apart, coinciding under truncation to 16, 20 or 21 bits
        {
            static const double v[] = {0, 1, 2, 3, 65536, 65537, 131072, 1048576, 1048577, 2097152, 2097153, 4194304, 16777216, 536870912, 536870913, 1073741824};
            return (s & 15) && (s & 16) && !(s & 96) ? -v[s % 16] : v[s % 16];
        }
        case 9: return std::ldexp (double (i64 (s) >> 11), -40 - int (s % 16)); // every bit of the mantissa in use
        case 10:                                                      // almost equal
        {
            static const double eps[] = {0, 1e-15, 1e-14, 1e-13, 1e-12, 1e-11, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5};
            static const double base[] = {0, 1, -2, 1000.5, -123456.75};
            double v = base[s % 5] + double (i64 (s / 8 % 3) - 1) * eps[s / 64 % 12];
            for (u64 k = s / 1024 % 3; k; --k) v = std::nextafter (v, s & 4096 ? 1e9 : -1e9);
            return v;
        }
        default: return double (i64 (s % 9)) - 4.0;                  // many coincidences
    }
}
Cloud gen (const std::string &st, const Gen &g)
{
    Cloud c;
    const bool many = chance (st + ".many", g.p_many);
    u64 n = many ? skew (st + ".n", g.many + 1) : skew (st + ".n", g.max_pts + 1);
    const bool giant = chance (st + ".giant", g.p_giant), huge = giant || chance (st + ".huge", g.p_huge);
    static const u64 giants[] = {65535, 65536, 65537, 70000, 131073, 140000}, huges[] = {1024, 4096, 1025, 1023, 4095, 4097, 2048};
    if (giant) n = giants[choose (st + ".n", 6)];
    else if (huge) n = choose (st + ".round", 2) ? huges[choose (st + ".n", 7)] : 5000 - skew (st + ".n", 4400);
    if (n < g.min_pts) n = g.min_pts;
    c.extra = unsigned (maybe (st + ".extra", 0.6, g.max_extra + 1));
    if (chance (st + ".bigextra", g.p_big_extra))
        c.extra = 255 - unsigned (skew (st + ".bigextra.n", 256));
    if (huge && c.extra > 8) c.extra %= 8;
    if (giant) c.extra %= 2;
    c.compressed = g.compressed >= 0 ? g.compressed : chance (st + ".comp", 0.5);
    size_t wl = maybe_skew (st + ".wkt", 0.7, 300);
    if (chance (st + ".bigwkt", g.p_big_wkt))
        wl = 65535 - skew (st + ".bigwkt.n", 65536);
    const u64 seed = raw64 (st + ".seed");
    for (size_t k = 0; k < wl; ++k)
    {
        const u64 v = h (seed, 900000 + k);
        c.wkt += (seed & 3) == 3 ? char (v) : char (32 + v % 95);
    }
    int mx[3];
    for (int d = 0; d < 3; ++d)
    {
        static const int tame[] = {1, 7, 1, 0, 7, 8}, wild[] = {1, 2, 3, 4, 5, 6, 0, 7, 8, 9, 10}, rough[] = {9, 9, 9, 2, 1, 10, 10};
        mx[d] = g.rough ? rough[choose (st + ".mode", 7)] : g.tame ? tame[choose (st + ".mode", 6)] : wild[choose (st + ".mode", 11)];
    }
    const u64 im = choose (st + ".imode", 5); // integers: 0 small, 1 any, 2 extremes, 3 zero, 4 mixed by field
    auto ival = [&] (u64 s, u64 max, int field) -> u64 {
        int m = int (im);
        if (m == 4) m = int (h (seed, 77 + field) % 4);
        switch (m)
        {
            case 0: return s % 7;
            case 1: return s & max;
            case 2: return (s & 1) ? max : ((s & 2) ? max - 1 : (s & 4 ? (max >> 1) + 1 : 0));
            default: return 0;
        }
    };
    const bool one_class = giant && choose (st + ".oneclass", 2);
    c.r.resize (n);
    for (u64 i = 0; i < n; ++i)
    {
        Rec &r = c.r[i];
        const u64 s = h (seed, i);
        r.x = coord (mx[0], h (s, 1));
        r.y = coord (mx[1], h (s, 2));
        r.z = coord (mx[2], h (s, 3));
        r.c = u32 (ival (h (s, 4), 0xFFFFFFFFull, 0));
        if (one_class) r.c = u32 (seed % 20);
        r.p = u32 (ival (h (s, 5), 0xFFFFFFFFull, 1));
        r.i = u16 (ival (h (s, 6), 0xFFFF, 2));
        r.r = u16 (ival (h (s, 7), 0xFFFF, 3));
        r.g = u16 (ival (h (s, 8), 0xFFFF, 4));
        r.b = u16 (ival (h (s, 9), 0xFFFF, 5));
        r.e.resize (c.extra);
        for (unsigned k = 0; k < c.extra; ++k)
            r.e[k] = ival (h (s, 10 + k), ~0ull, 6 + int (k));
    }
    return c;
}
Peer gen_peer (const std::string &st)
{
    Peer p;
    p.level = int (choose (st + ".level", 11)) - 1;
    p.strategy = int (choose (st + ".strategy", 5));
    p.memlevel = 8 - int (choose (st + ".mem", 8));
    p.wbits = 15 - int (choose (st + ".wbits", 7));
    p.flush_every = int (maybe_skew (st + ".flush", 0.4, 500));
    p.force_zero = u32 (choose (st + ".force", 512));
    return p;
}
}
