// Plans executed by the node module: code written by us that uses the public library API of /repo inside a simulated process.
#pragma once
#include "ref.h"

namespace node
{
using namespace sim;

// ---- reading files through the library's readers
enum { SRC_CIN, SRC_FILE, SRC_STRING };
enum { RD_AUTO, RD_UNC, RD_COMP, RD_RECORDS, RD_HEADER, RD_POINTS };
struct Got
{
    ref::Cloud c;
    bool threw = false, bad_alloc = false, std_exc = true;
    std::string what;
    u64 total = 0;                     // header's count (RD_HEADER)
    bool consistent = true;            // the file's header describes its records
};
struct ReadPlan
{
    int src = SRC_CIN, reader = RD_AUTO, count = 1;
    std::string path;
    Bytes data;
    bool want_rest = true;
    bool exceptions = false;           // the stream throws on badbit
    std::vector<Got> got;
    Bytes rest;
};

// ---- writing
enum { DST_COUT, DST_FILE, DST_STRING };
enum { WR_AUTO, WR_UNC, WR_COMP, WR_RECORDS };
struct WritePlan
{
    int dst = DST_COUT, writer = WR_AUTO;
    std::string path;
    std::vector<ref::Cloud> clouds;
    size_t done = 0;                   // writers that returned
    bool threw = false, bad_alloc = false;
    std::string what;
    Bytes str;                         // DST_STRING
    std::function<void ()> after_write; // called (host) when a writer has returned
    bool close_ok = true;
};

// ---- compression API
enum { CZ_MEM, CZ_VEC, CZ_STREAM };
struct CompPlan
{
    bool decompress = false;
    int api = CZ_MEM, level = -1;
    Bytes in;                          // memory APIs
    const unsigned char *big = nullptr; // memory APIs: input of this many bytes instead
    u64 big_size = 0;
    bool sized = false;                // decompress into a given size
    u64 size = 0;
    int src = SRC_CIN, dst = DST_COUT; // stream API
    std::string in_path, out_path;
    Bytes out;
    bool threw = false, bad_alloc = false;
    std::string what;
    std::function<void ()> after;      // called (host) when the call has returned
};

// ---- library operations, executed repeatedly under allocation faults
enum { OP_READ, OP_WRITE, OP_RADIUS, OP_VOXEL, OP_VOXELMAP, OP_SUBSAMPLE, OP_UNIQUE, OP_QUANTIZE, OP_AFFINE, OP_COMPRESS, OP_DECOMPRESS, OP_FILE, OP_NUM };
struct LibOp
{
    int kind = OP_READ, variant = 0;
    ref::Cloud in;
    Bytes bytes;
    double a = 0, b = 0, c = 0;
    u64 n = 0;
    std::vector<u64> q, k;             // query and candidate indexes
};
struct LibRes
{
    bool threw = false, bad_alloc = false, std_exc = true;
    std::string what;
    Bytes out;                         // result, serialised
    ref::Cloud cloud;
    std::vector<std::vector<u64>> lists; // neighbours per query, in index form
    std::vector<u64> calls;            // how often the callback ran per query
    u64 allocs = 0, faults = 0;
    u64 live = 0;                      // bytes on the process's heap after the operation
};
struct Attempt { i64 fail_at = -1; bool forever = false; int kind = 0; };
struct LibPlan
{
    LibOp op;
    std::vector<Attempt> tries;
    std::vector<LibRes> res;
};
// the same call, again and again
struct RepeatPlan
{
    int what = 0;                      // 0: read, 1: write, 2: compression API
    int times = 5;
    ReadPlan r;
    WritePlan w;
    CompPlan c;
    std::vector<u64> live;             // heap after each
    std::vector<int> threw;
};
struct PairPlan { LibOp a, b; LibRes ra, rb; };

// ---- in-memory files
enum { F_CTOR, F_PUSH, F_RESIZE, F_SETREC, F_SETRECS, F_MOVEIN, F_MOVEOUT, F_SWAP, F_ASSIGN, F_CLONE, F_COPY, F_WKT, F_COMP, F_SELF, F_GETREC, F_GETEXTRA, F_VERSION, F_NUM };
struct FileStep
{
    int kind = 0, a = 0, b = 0;        // slots
    u64 n = 0;
    std::string wkt;
    ref::Rec rec;
    std::vector<ref::Rec> recs;
    bool comp = false;
    unsigned major = 0, minor = 1;     // F_VERSION: a constructor that is told the version
    i64 fail_at = -1;
    bool forever = false;
};
struct FileState { ref::Cloud c; unsigned hextra = 0; u64 htotal = 0; bool hcomp = false; std::string hwkt; unsigned major = 0, minor = 0; bool valid = true; bool columns = true; bool hthrew = false; unsigned gmajor = 0, gminor = 0; };
struct FileObs
{
    bool threw = false, bad_alloc = false;
    std::string what;
    std::vector<FileState> st;         // every slot after the step
    std::vector<u64> col;              // F_GETEXTRA
    std::vector<ref::Rec> moved;       // F_GETREC: the record; otherwise what a move out delivered, or what is left in the argument of a move in
    u64 faults = 0, allocs = 0;
};
struct FilePlan { int slots = 3; std::vector<FileStep> steps; std::vector<FileObs> obs; };

// ---- timer
enum { T_START, T_STOP, T_QUERY, T_SLEEP, T_JUMP, T_NEW };
struct TimerPlan { std::vector<std::pair<int, i64>> steps; std::vector<double> obs; std::function<void (int, i64)> hook; };
}

// provided by the simulator to node code
extern "C" unsigned long long sim_live (void);                     // bytes on the heap of the calling process
extern "C" int sim_set_app (int on);                               // returns the previous mode
extern "C" void sim_alloc_arm (long long fail_at, int forever, int kind);
extern "C" unsigned long long sim_alloc_disarm (unsigned long long *faults); // allocations since armed
