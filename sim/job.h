// Jobs: random invocations of the programs of /repo with their inputs, and an independent model of what they must produce.
#pragma once
#include "scen.h"
#include <array>

namespace job
{
struct In
{
    std::string path;                  // "": stdin
    Bytes b;
    ref::Cloud c;
    ref::Layout lay;
    bool text = false;                 // not a SPOC file
    bool header_only = false;          // only its header is needed
    u64 need () const { return header_only ? 18 + c.wkt.size () : b.size (); }
};
struct Want
{
    bool spoc = false;
    ref::Cloud c;                      // spoc: the file expected
    std::vector<std::array<double, 3>> tol; // per record; -1 (or none): bit for bit
    std::function<std::string (const Bytes &)> fn; // otherwise: what is wrong with the output ("": nothing)
};
struct Model
{
    bool fail = false;                 // must fail
    bool any = false;                  // not decided: either outcome, any output
    int code = 0;                      // exit status otherwise
    std::map<std::string, Want> outs;  // "": stdout
};
struct Job
{
    std::string app, desc;
    Strs args;
    std::vector<In> in;
    std::map<std::string, Bytes> pre;  // files that exist already and are not inputs
    std::set<std::string> clobber;     // those of them that may be replaced
    bool streams = false;              // may deliver a prefix before it fails
    bool total = false;                // the model holds for every cloud, not only tame ones
    bool inexact = false;              // its output coordinates are not on the input's grid
    std::function<Model (const std::vector<In> &)> model;
};
struct Opt
{
    const ref::Cloud *c = nullptr;     // main input, if given
    bool stdio = false;                // stdin to stdout, no other files
    bool tame = true;                  // the given cloud is on the dyadic grid
    bool valid = false;                // no requests that must fail
    bool rough = false;                // coordinates with rounding errors in every sum (models do not hold)
    bool randomised = false;           // prefer options that draw random numbers
    bool big = false;                  // the first cloud is giant
    u64 max_pts = 40;
    int cmd = -1;
};
extern const std::vector<std::string> all_apps; // programs with a model
Job make (const std::string &app, const std::string &st, const Opt &o = Opt ());

struct Res
{
    bool sane = false, ok = false, clean = false;
    int code = 0;
    std::string status, err;
    std::map<std::string, Bytes> outs; // stdout and every file that is not an input
    bool inputs_intact = true;
    u64 events = 0, allocs = 0, alloc_faults = 0;
    size_t peak = 0;
    u64 fired_rd = 0, fired_wr = 0, fired_close = 0;
    std::map<std::string, u64> sizes;
};
struct Env
{
    std::string st = "env";
    bool quiet = false;                            // undisturbed reference execution
    std::function<void (World &, Spec &)> tweak;   // before the program starts
    std::function<void (World &, Proc *)> started;
    const std::map<std::string, Bytes> *files = nullptr; // the file system to start from, instead of inputs and pre
};
Res run (const Job &j, const Env &e = Env ());
std::string compare (const Want &w, const Bytes &got);
bool judge (const Job &j, const Model &m, const Res &r, const std::string &where); // reports a violation
std::string wrong (const Job &j, const Model &m, const Res &r);                    // same, but says what
bool complete_spoc (const Bytes &b);
std::string show (const Job &j);
ref::Cloud tame_cloud (const std::string &st, u64 max_pts);
void no_nan (ref::Cloud &c);
std::string number_text_diff (const std::string &want, const std::string &got);
}
