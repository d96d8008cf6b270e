// Plans executed against the real Python extension of /repo, called by a real CPython interpreter inside a simulated process.
#pragma once
#include "ref.h"

namespace pynode
{
using namespace sim;
enum { P_NEW, P_READ, P_HEADER, P_WRITE, P_WKT, P_COMP, P_SETREC, P_SETRECS, P_GETREC, P_LOOK, P_EXTRA, P_DROP, P_NUM };
struct Step
{
    int kind = 0, slot = 0;
    std::string path, wkt;
    bool comp = false;
    u64 i = 0;
    std::vector<ref::Rec> recs;
};
struct Obs
{
    bool threw = false;
    std::string type, what;
    bool wkt_ok = true;                // the WKT could be given to Python as text
    ref::Cloud c;                      // P_LOOK: as the record accessors give it; P_GETREC: one record
    std::string columns;               // P_LOOK: what is wrong with the field arrays ("": they agree with the records)
    unsigned major = 0, minor = 0;
    u64 total = 0;                     // P_HEADER
    std::vector<u64> col;              // P_EXTRA
    u64 live = 0, fds = 0;             // heap and descriptors of the process after the step
};
struct Plan { std::vector<Step> steps; std::vector<Obs> obs; };
}
