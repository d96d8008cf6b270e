// Independent reference of the SPOC 0.1 format and generators of point clouds. Shares no code with /repo.
#pragma once
#include "sim.h"

namespace ref
{
using namespace sim;
struct Rec
{
    double x = 0, y = 0, z = 0;
    u32 c = 0, p = 0;
    u16 i = 0, r = 0, g = 0, b = 0;
    std::vector<u64> e;
};
bool same_bits (double a, double b);
bool same (const Rec &a, const Rec &b);          // bit for bit
struct Cloud
{
    std::string wkt;
    unsigned extra = 0;                          // number of extra fields
    bool compressed = false;
    std::vector<Rec> r;
};
std::string show (const Rec &a);
std::string diff (const Cloud &a, const Cloud &b); // "" when identical bit for bit (extra of an empty cloud is ignored)

// how an independent peer encodes the compressed form
struct Peer
{
    int level = -1, strategy = 0, memlevel = 8, flush_every = 0, wbits = 15;
    u32 force_zero = 0;                          // bit k: do not elide field k even if all zero
};
Bytes header (const std::string &wkt, unsigned extra, u64 total, u8 compressed);
Bytes record (const Rec &r);
Bytes encode (const Cloud &c, const Peer &p = Peer ());
struct Layout { size_t header = 0, total = 0; std::vector<std::pair<size_t, size_t>> fields; /* offset of the length, payload size */ };
Bytes encode (const Cloud &c, const Peer &p, Layout &l);
// strict decoder; consumed: bytes used. false: not a complete well-formed file (why says)
bool decode (const Bytes &b, Cloud &c, std::string &why, size_t *consumed = nullptr, bool lenient = false); // lenient: bytes behind a field's zlib stream, odd flag
bool decode_all (const Bytes &b, Cloud &c, std::string &why); // and nothing may follow
Bytes deflate_bytes (const Bytes &in, const Peer &p);
bool inflate_bytes (const Bytes &in, Bytes &out, size_t limit, bool trailing = false); // complete valid stream, nothing behind it (unless trailing)

struct Gen
{
    u64 max_pts = 60;
    double p_many = 0.05; u64 many = 600;
    double p_huge = 0.003;                       // 600..5000, or next to a power of two
    double p_giant = 0;                     // beyond 65536, or a compressed column beyond a megabyte
    unsigned max_extra = 4;
    double p_big_extra = 0.03;                   // up to 255
    double p_big_wkt = 0.03;                     // up to 65535
    bool rough = false;                          // finite coordinates using every bit of the mantissa
    bool tame = false;                           // coordinates on a dyadic grid in +-1024, no specials
    int compressed = -1;                         // -1: either
    u64 min_pts = 0;
};
Cloud gen (const std::string &stream, const Gen &g = Gen ());
Peer gen_peer (const std::string &stream);
u64 h (u64 a, u64 b);                            // content hash
}
