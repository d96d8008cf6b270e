// C09-C11, C19, C20, C24, C25: what each program must produce, under any delivery, schedule and team
#include "job.h"
using namespace job;

static void one (const Job &j, const std::string &where)
{
    const Model m = j.model (j.in);
    sample (show (j));
    const Res r = run (j);
    if (!r.sane) return;
    nontrivial ();
    note (m.any ? "outcome.undecided" : m.fail ? "outcome.must_fail" : "outcome.must_succeed");
    judge (j, m, r, where);
}
static double BIG = 0.0012; // clouds beyond 65536 points
static Opt opts (double often = 1)
{
    Opt o;
    if (chance ("big", BIG * often)) o.big = true;
    return o;
}
SCENARIO (C09, transform, 6) { one (make ("transform", "j", opts ()), "wrong"); }
SCENARIO (C10, filter, 6) { one (make ("filter", "j", opts ()), "wrong"); }
SCENARIO (C11, tool, 6)
{
    static const int cmds[] = {0, 1, 2, 3, 4, 7, 8};
    Opt o = opts ();
    o.cmd = cmds[choose ("cmd", 7)];
    one (make ("tool", "j", o), "wrong");
}
SCENARIO (C24, fields, 5)
{
    Opt o = opts ();
    o.cmd = 5 + int (choose ("cmd", 2));
    one (make ("tool", "j", o), "wrong");
}
SCENARIO (C19, tile, 5) { one (make ("tile", "j", opts ()), "wrong"); }
SCENARIO (C20, merge, 5) { one (make ("merge", "j", opts ()), "wrong"); }
SCENARIO (C25, reports, 5)
{
    static const char *apps[] = {"info", "srs", "diff"};
    const int a = int (choose ("app", 3));
    one (make (apps[a], "j", opts (a == 0 ? 3 : 1)), "wrong");
}
