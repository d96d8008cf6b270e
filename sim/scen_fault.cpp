// C03-C05, C07, C18, C19 and the fault clauses of C11, C20, C24, C25: the programs under faults
#include "job.h"
using namespace job;

Bytes mutate (Bytes b, const ref::Cloud &c, const ref::Layout &l, const std::string &st);

namespace
{
struct Case
{
    Job j;
    Model m;
    Res base;                          // undisturbed execution
    bool good = false;                 // which did what the model says
};
Case prepare (Job j)
{
    Case c;
    c.j = std::move (j);
    c.m = c.j.model (c.j.in);
    Env e;
    e.quiet = true;
    c.base = run (c.j, e);
    c.good = c.base.sane && !c.m.any && !c.m.fail && wrong (c.j, c.m, c.base).empty ();
    return c;
}
Case some (const Strs &apps, int cmd = -1, bool named = false)
{
    Opt o;
    o.valid = true;
    o.cmd = cmd;
    Job j = make (apps[choose ("app", apps.size ())], "j", o);
    (void) named;
    return prepare (std::move (j));
}
bool done (const Case &c, const Res &r) { return c.m.code ? r.clean && r.code == c.m.code && r.err.empty () : r.ok; }
// the outputs the program owes are there, byte for byte
std::string delivered (const Case &c, const Res &r)
{
    for (auto &o : c.base.outs)
    {
        auto i = r.outs.find (o.first);
        if (i == r.outs.end ()) return "output " + o.first + " is missing";
        if (i->second != o.second) return fmt ("%s holds %zu bytes that are not the %zu it owes", o.first.empty () ? "stdout" : o.first.c_str (), i->second.size (), o.second.size ());
    }
    return "";
}
bool prefix (const Bytes &p, const Bytes &b) { return p.size () <= b.size () && b.compare (0, p.size (), p) == 0; }
// what a failed program may have left: nothing that passes for a result, nothing invented
std::string leftovers (const Case &c, const Res &r)
{
    for (auto &o : r.outs)
    {
        const std::string name = o.first.empty () ? std::string ("stdout") : o.first;
        auto pre = c.j.pre.find (o.first);
        if (pre != c.j.pre.end () && pre->second == o.second) continue;
        auto b = c.base.outs.find (o.first);
        if (b != c.base.outs.end () && (o.second == b->second || prefix (o.second, b->second))) continue;
        if (complete_spoc (o.second)) return name + " holds a complete SPOC file that is not the result";
        if (o.first.empty ()) return "stdout received bytes that are not a prefix of the result";
    }
    return "";
}
bool must_fail (const Case &c, const Res &r, const std::string &cls, const std::string &what)
{
    if (!check (!r.ok && !(c.m.code && r.clean && r.code == c.m.code && r.err.empty ()), "accepted-" + cls + ":" + c.j.app, show (c.j) + ": " + what + ", but the program ended with " + r.status)) return false;
    if (!check (r.clean, "died-" + cls + ":" + c.j.app, show (c.j) + ": " + what + "; the program ended with " + r.status)) return false;
    if (!check (!r.err.empty (), "silent-" + cls + ":" + c.j.app, show (c.j) + ": " + what + "; failed without a message")) return false;
    if (!check (r.inputs_intact, "input-modified:" + c.j.app, show (c.j) + ": " + what + "; an input file was modified")) return false;
    const std::string d = leftovers (c, r);
    return check (d.empty (), "leftover-" + cls + ":" + c.j.app, show (c.j) + ": " + what + ", " + r.status + ", but " + d);
}

// ---------------------------------------------------------------- inputs that end or fail
struct InFault { size_t k = 0; u64 at = 0; int err = 0; bool rest = false; };
void apply (const Case &c, const InFault &f, World &w, Spec &s)
{
    const In &i = c.j.in[f.k];
    if (i.path.empty ())
    {
        auto src = std::dynamic_pointer_cast<Source> (s.in);
        src->f.rd_fail_at = i64 (f.at);
        src->f.rd_errno = f.err;
    }
    else if (f.rest)
    {
        w.fs.put (i.path, i.b.substr (0, f.at));
        note ("fault.truncated_file");
    }
    else
    {
        w.fs.faults[i.path].rd_fail_at = i64 (f.at);
        w.fs.faults[i.path].rd_errno = f.err;
    }
}
std::string tell (const Case &c, const InFault &f)
{
    const std::string n = c.j.in[f.k].path.empty () ? "stdin" : c.j.in[f.k].path;
    return fmt ("%s %s after %llu of %zu bytes", n.c_str (), f.rest ? "is cut" : f.err ? "fails (EIO)" : "ends", (unsigned long long) f.at, c.j.in[f.k].b.size ());
}
void input_fault (Case c)
{
    if (!c.good) { sample (show (c.j)); return; }
    InFault f;
    f.k = choose ("which", c.j.in.size ());
    const In &in = c.j.in[f.k];
    const u64 need = in.text ? in.b.size () : in.need ();
    if (need == 0) { sample (show (c.j)); return; }
    f.at = in.text ? choose ("cut", need) : cut_offset ("cut", need, in.header_only ? nullptr : &in.lay);
    const int kind = int (choose ("kind", 3)); // ends, fails, cut at rest
    f.err = kind == 1 ? EIO : 0;
    f.rest = kind == 2 && !in.path.empty ();
    // as an error, end of file is only what is left of a file
    const bool text_end = in.text && kind != 1;
    if (text_end) f.rest = true;
    Env e;
    e.tweak = [&] (World &w, Spec &s) { apply (c, f, w, s); };
    if (f.rest) c.j.in[f.k].b.resize (f.at); // for the comparison of inputs after the run
    Case d = c;
    const Res r = run (c.j, e);
    if (f.rest) d.j.in[f.k].b = c.j.in[f.k].b;
    const std::string what = tell (c, f);
    sample (show (c.j) + ": " + what);
    if (!r.sane) return;
    nontrivial ();
    if (text_end)
    {
        const Model m = c.j.model (c.j.in);
        judge (c.j, m, r, "cut-text");
        return;
    }
    if (in.text && done (c, r))
    {
        const std::string x = delivered (c, r);
        check (x.empty (), "accepted-input:" + c.j.app, show (c.j) + ": " + what + ", exit status 0, but " + x);
        return;
    }
    must_fail (c, r, "input", what);
}
}
SCENARIO (C03, app_input, 6) { input_fault (some (all_apps)); }
SCENARIO (C11, input_fault, 2) { static const int cmds[] = {0, 1, 2, 3, 4, 7, 7}; input_fault (some ({"tool"}, cmds[choose ("cmd", 7)])); }
SCENARIO (C20, input_fault, 2) { input_fault (some ({"merge"})); }
SCENARIO (C24, input_fault, 2) { input_fault (some ({"tool"}, choose ("cmd", 3) ? 6 : 5)); }
SCENARIO (C25, input_fault, 2) { input_fault (some ({"info", "srs", "diff"})); }
namespace
{
// an input that cannot be opened
void missing (Case c)
{
    std::vector<size_t> ks;
    for (size_t k = 0; k < c.j.in.size (); ++k) if (!c.j.in[k].path.empty ()) ks.push_back (k);
    if (!c.good || ks.empty ()) return;
    const size_t k = ks[choose ("which", ks.size ())];
    static const int errs[] = {EACCES, EMFILE, EIO, ENOENT};
    const int err = errs[choose ("errno", 4)];
    Env e;
    e.tweak = [&] (World &w, Spec &) { w.fs.open_errno[c.j.in[k].path] = err; };
    const Res r = run (c.j, e);
    const std::string what = c.j.in[k].path + " cannot be opened: " + strerror (err);
    sample (show (c.j) + ": " + what);
    if (!r.sane) return;
    nontrivial ();
    must_fail (c, r, "missing", what);
}
}
SCENARIO (C03, app_missing, 1) { missing (some (all_apps)); }
SCENARIO (C20, missing, 1) { missing (some ({"merge"})); }
SCENARIO (C25, missing, 1) { missing (some ({"info", "srs", "diff"})); }
SCENARIO (C19, missing, 1) { missing (some ({"tile"})); }

// ---------------------------------------------------------------- outputs that refuse data
namespace
{
void output_fault (Case c)
{
    if (!c.good || c.j.app == "diff") { sample (show (c.j)); return; }
    Strs outs;
    u64 sum = 0;
    for (auto &o : c.base.outs) { if (!o.first.empty () && c.j.pre.count (o.first) && !c.m.outs.count (o.first)) continue; if (!o.second.empty ()) { outs.push_back (o.first); sum += o.second.size (); } }
    if (outs.empty ()) { sample (show (c.j)); return; }
    const std::string out = outs[choose ("out", outs.size ())];
    const u64 size = c.base.outs[out].size ();
    const bool file = !out.empty ();
    // 0 nothing lasting, 1 refuses for ever, 2 refuses once, 3 disk full, 4 close fails, 5 cannot be created
    int kind = int (choose ("kind", 6));
    if (!file && kind >= 3) kind = 1;
    static const int errs[] = {ENOSPC, EIO, EPIPE};
    const int err = errs[choose ("errno", file ? 2 : 3)];
    const u64 at = kind == 3 ? choose ("at", sum) : cut_offset ("at", size);
    const bool ignore = choose ("sigpipe", 2);
    std::string what = "the output device is sound but slow";
    Env e;
    e.tweak = [&] (World &w, Spec &s) {
        s.ignore_sigpipe = ignore;
        Faults &f = file ? w.fs.faults[out] : s.out->f;
        switch (kind)
        {
            case 1: case 2: f.wr_fail_at = i64 (at); f.wr_errno = err; f.wr_fail_times = kind == 2 ? 1 : -1; break;
            case 3: w.fs.free_bytes = at; for (auto &p : c.j.pre) if (!c.m.outs.count (p.first)) {} break;
            case 4: f.close_errno = choose ("closeerr", 2) ? EIO : ENOSPC; break;
            case 5: w.fs.create_errno[out] = choose ("createerr", 2) ? EACCES : ENOSPC; break;
        }
    };
    const std::string n = file ? out : "stdout";
    if (kind == 1) what = fmt ("%s refuses data from byte %llu of %llu on: %s", n.c_str (), (unsigned long long) at, (unsigned long long) size, strerror (err));
    if (kind == 2) what = fmt ("%s refuses data once, at byte %llu of %llu: %s", n.c_str (), (unsigned long long) at, (unsigned long long) size, strerror (err));
    if (kind == 3) what = fmt ("the disk is full after %llu of %llu bytes", (unsigned long long) at, (unsigned long long) sum);
    if (kind == 4) what = "closing " + n + " fails";
    if (kind == 5) what = n + " cannot be created";
    const Res r = run (c.j, e);
    sample (show (c.j) + ": " + what);
    if (!r.sane) return;
    nontrivial ();
    if (kind == 0)
    {
        if (!check (done (c, r), "failed-sound:" + c.j.app, show (c.j) + ": " + what + ", but: " + r.status + " " + r.err.substr (0, 200))) return;
        const std::string x = delivered (c, r);
        check (x.empty (), "lost-sound:" + c.j.app, show (c.j) + ": " + what + ", but " + x);
        return;
    }
    if (kind == 2 || (kind == 3 && !c.j.pre.empty ())) // it may recover; replaced files give room back
    {
        if (r.ok)
        {
            const std::string x = delivered (c, r);
            check (x.empty (), "lied:" + c.j.app, show (c.j) + ": " + what + ", exit status 0, but " + x);
            return;
        }
    }
    if (!check (!r.ok, "lied:" + c.j.app, show (c.j) + ": " + what + ", but the program exits 0")) return;
    if (err == EPIPE && !ignore && !r.clean) { note ("outcome.sigpipe"); return; }
    if (kind == 4 || kind == 2)
    {
        // everything was written, or the device took what was retried: only the report is owed
        if (!check (r.clean && !r.err.empty (), "silent-output:" + c.j.app, show (c.j) + ": " + what + "; " + r.status + " without a message")) return;
        check (r.inputs_intact, "input-modified:" + c.j.app, show (c.j) + ": " + what + "; an input file was modified");
        return;
    }
    must_fail (c, r, "output", what);
}
const Strs writers = {"compress", "decompress", "transform", "filter", "tool", "tile", "merge", "srs", "info", "noop"};
}
SCENARIO (C04, app_output, 6) { output_fault (some (writers)); }
SCENARIO (C11, output_fault, 1) { static const int cmds[] = {0, 1, 2, 3, 4, 7}; output_fault (some ({"tool"}, cmds[choose ("cmd", 6)])); }
SCENARIO (C19, output_fault, 2) { output_fault (some ({"tile"})); }
SCENARIO (C20, output_fault, 2) { output_fault (some ({"merge"})); }
SCENARIO (C24, output_fault, 2) { output_fault (some ({"tool"}, choose ("cmd", 3) ? 5 : 6)); }
SCENARIO (C25, output_fault, 2) { output_fault (some ({"info", "srs"})); }
SCENARIO (C04, text, 2) { output_fault (some ({"info", "srs", "tool"}, 5)); }

// ---------------------------------------------------------------- hostile inputs
SCENARIO (C05, app_hostile, 4)
{
    Opt o;
    o.valid = true;
    Job j = make (all_apps[choose ("app", all_apps.size ())], "j", o);
    std::vector<size_t> ks;
    for (size_t k = 0; k < j.in.size (); ++k) if (!j.in[k].text) ks.push_back (k);
    In &in = j.in[ks[choose ("which", ks.size ())]];
    const Bytes was = in.b;
    in.b = mutate (in.b, in.c, in.lay, "m");
    note ("fault.corrupt_input");
    ref::Cloud d;
    std::string why;
    bool ok = ref::decode (in.b, d, why, nullptr, true);
    if (ok && j.app == "noop" && in.b.size () > 18) {}
    const std::string nm = in.path.empty () ? "stdin" : in.path;
    Env e;
    e.tweak = [&] (World &w, Spec &s) { s.mem_limit = size_t (8 + choose ("mem", 40)) << 20; w.max_steps = 400000000; };
    const Res r = run (j, e);
    sample (show (j) + fmt (": %s damaged (%zu bytes)", nm.c_str (), in.b.size ()));
    if (!r.sane) return;
    if (in.b != was) nontrivial ();
    note (r.ok ? "outcome.accepted" : "outcome.rejected");
    if (!check (r.inputs_intact, "input-modified:" + j.app, show (j) + ": an input file was modified")) return;
    if (in.header_only)
    {
        const bool hdr = in.b.size () >= 18 && in.b.size () >= 18u + u8 (in.b[6]) + 256u * u8 (in.b[7]);
        if (!hdr) check (!r.ok, "invented:" + j.app, show (j) + ": the header is incomplete, but the program exits 0");
        return;
    }
    if (!ok)
    {
        if (j.app == "diff") { check (!r.ok && !(j.args.size () && r.code == 0), "invented:diff", "diff says \"same\" about an undecodable file"); return; }
        // a record stream is plain whatever the flag says
        check (!r.ok, "invented:" + j.app, show (j) + ": " + nm + " is not a SPOC file (" + why + "), but the program exits 0");
        if (!r.ok) check (r.clean && !r.err.empty (), "silent:" + j.app, show (j) + ": " + r.status + " without a message");
        return;
    }
    if (r.ok || r.code != 255 || r.err.empty ())
    {
        if (!j.total) return;
        in.c = d;
        judge (j, j.model (j.in), r, "misread");
    }
}

// ---------------------------------------------------------------- killed at any instant
namespace
{
Strs plus_force (const Job &j)
{
    Strs a = j.args;
    if (j.app == "tile") a.insert (a.begin (), "-f");
    return a;
}
void killed (Case c)
{
    if (!c.good) { sample (show (c.j)); return; }
    const u64 span = c.base.events * (1 + choose ("span", 4)) + 2;
    const u64 at = choose ("when", 3) == 0 ? skew ("kill", span) : choose ("kill", span);
    Env e;
    e.tweak = [&] (World &, Spec &s) { s.kill_at = i64 (at); };
    const Res r = run (c.j, e);
    sample (show (c.j) + fmt (": killed at event %llu", (unsigned long long) at));
    if (!r.sane) return;
    if (!check (r.inputs_intact, "input-modified:" + c.j.app, "an input file was modified")) return;
    if (!r.clean && !r.ok) nontrivial ();
    else
    {
        note ("outcome.finished_before");
        if (!check (done (c, r), "failed:" + c.j.app, show (c.j) + ": not killed, but " + r.status + " " + r.err)) return;
        const std::string x = delivered (c, r);
        check (x.empty (), "differs:" + c.j.app, x);
        return;
    }
    const std::string x = leftovers (c, r);
    if (!check (x.empty (), "leftover:" + c.j.app, show (c.j) + fmt (": killed at event %llu: ", (unsigned long long) at) + x)) return;
    // unfinished files are rejected by the programs that read them
    for (auto &o : r.outs)
    {
        auto pre = c.j.pre.find (o.first);
        auto b = c.base.outs.find (o.first);
        if (o.first.empty () || (pre != c.j.pre.end () && pre->second == o.second) || (b != c.base.outs.end () && b->second == o.second)) continue;
        note ("outcome.partial_file");
        static const char *rd[] = {"info", "decompress", "compress", "filter", "tool", "noop", "transform"};
        const int k = int (choose ("reader", 7));
        World w;
        env_world (w, "env.rd");
        Spec s;
        s.module = s.name = rd[k];
        if (k == 4) s.args = {"--recenter-xyz"};
        if (k == 6) s.args = {"--add-x=1"};
        auto src = make_source (o.second, "partial");
        chunky (src->f, "rd.partial");
        s.in = src;
        auto snk = make_sink ("rd.out");
        s.out = snk;
        env_spec (s, "env.rd");
        Proc *p = w.spawn (s);
        w.run ();
        if (!sane (w, rd[k])) return;
        if (!check (p->clean_failure (), fmt ("partial-accepted:%s", rd[k]), show (c.j) + fmt (": killed at event %llu, left %zu bytes in %s; spoc_%s accepts them", (unsigned long long) at, o.second.size (), o.first.c_str (), rd[k]))) return;
        break;
    }
    // the same command again
    std::map<std::string, Bytes> files;
    for (auto &i : c.j.in) if (!i.path.empty ()) files[i.path] = i.b;
    for (auto &o : r.outs) if (!o.first.empty ()) files[o.first] = o.second;
    Job again = c.j;
    again.args = plus_force (c.j);
    Env f;
    f.st = "env2";
    f.files = &files;
    const Res r2 = run (again, f);
    if (!r2.sane) return;
    if (!check (done (c, r2), "rerun-fails:" + c.j.app, show (c.j) + fmt (": killed at event %llu, then run again: ", (unsigned long long) at) + r2.status + " " + r2.err)) return;
    const std::string y = delivered (c, r2);
    check (y.empty (), "rerun-differs:" + c.j.app, show (c.j) + fmt (": killed at event %llu, then run again: ", (unsigned long long) at) + y);
}
}
SCENARIO (C07, killed, 6) { killed (some (writers)); }
SCENARIO (C07, killed_tile, 2) { killed (some ({"tile"})); }
// an input that turns out unreadable costs nothing that existed before
SCENARIO (C07, early, 3)
{
    Opt o;
    o.valid = true;
    static const Strs apps = {"compress", "decompress", "filter", "tool", "srs", "tile"};
    Case c = prepare (make (apps[choose ("app", apps.size ())], "j", o));
    if (!c.good) { sample (show (c.j)); return; }
    int named = 0;
    for (auto &q : c.base.outs)
        if (!q.first.empty ())
        {
            ++named;
            if (!c.j.pre.count (q.first)) c.j.pre[q.first] = choose ("old", 2) ? ref::encode (tame_cloud ("oldc", 10)) : Bytes ("precious\n");
        }
    if (!named) { sample (show (c.j)); return; }
    c.j.args = plus_force (c.j);
    std::vector<size_t> ks;
    for (size_t k = 0; k < c.j.in.size (); ++k) if (c.j.in[k].need () && !c.j.in[k].text) ks.push_back (k);
    InFault f;
    f.k = ks[choose ("which", ks.size ())];
    const In &in = c.j.in[f.k];
    f.at = cut_offset ("cut", in.need (), &in.lay);
    f.err = choose ("eio", 2) ? EIO : 0;
    Env e;
    e.tweak = [&] (World &w, Spec &s) { apply (c, f, w, s); };
    const Res r = run (c.j, e);
    const std::string what = tell (c, f);
    sample (show (c.j) + ": output exists already, " + what);
    if (!r.sane) return;
    nontrivial ();
    for (auto &p : c.j.pre)
    {
        auto i = r.outs.find (p.first);
        if (!check (i != r.outs.end () && i->second == p.second, "destroyed:" + c.j.app, show (c.j) + ": " + what + "; the file " + p.first + ", which existed before, was destroyed")) return;
    }
    must_fail (c, r, "input", what);
}
// killed while reading and writing the same pipeline: what a library writer leaves behind
SCENARIO (C07, library, 2)
{
    ref::Gen g;
    g.max_pts = 40;
    node::WritePlan wp;
    const int comp = int (choose ("comp", 2));
    g.compressed = comp;
    wp.clouds.push_back (ref::gen ("c", g));
    wp.writer = pick_writer (wp.clouds[0], "writer");
    wp.dst = node::DST_FILE;
    wp.path = "out.spoc";
    const bool old = choose ("old", 2);
    const Bytes before = ref::encode (tame_cloud ("old", 10));
    Bytes left;
    bool strike;
    {
        World w;
        env_world (w);
        if (old) w.fs.put ("out.spoc", before);
        chunky (w.fs.faults["out.spoc"], "wr");
        Spec s;
        s.module = "node"; s.entry = "node_write"; s.name = "writer"; s.user = &wp;
        env_spec (s);
        const u64 span = 30 + wp.clouds[0].r.size () * 3;
        s.kill_at = i64 (choose ("skew", 2) ? skew ("kill", span) : choose ("kill", span));
        Proc *p = w.spawn (s);
        w.run ();
        sample (fmt ("%s to a file, killed at event %lld: %s", wr_name (wp.writer), (long long) s.kill_at, brief (wp.clouds[0]).c_str ()));
        if (!sane (w, "write")) return;
        strike = !p->ok ();
        if (!w.fs.has ("out.spoc")) return;
        left = w.fs.get ("out.spoc");
    }
    nontrivial ();
    node::ReadPlan rp;
    rp.src = node::SRC_STRING;
    rp.data = left;
    rp.want_rest = false;
    rp.reader = choose ("points", 2) ? node::RD_POINTS : node::RD_AUTO;
    World w;
    node_proc (w, "node_read", rp, "reader");
    w.run ();
    if (!sane (w, "read")) return;
    if (rp.got[0].threw) { check (strike, "unreadable", "a finished file cannot be read: " + rp.got[0].what); return; }
    const bool whole = ref::diff (wp.clouds[0], rp.got[0].c).empty ();
    // a run killed before it opened its output leaves the old file
    ref::Cloud o;
    std::string why;
    const bool untouched = old && strike && left == before;
    check (whole || untouched, "partial-accepted", fmt ("the writer was killed, %zu bytes are left and a reader accepts %zu points", left.size (), rp.got[0].c.r.size ()));
}

// ---------------------------------------------------------------- allocations that fail
SCENARIO (C18, app, 6)
{
    Case c = some (all_apps);
    if (!c.good || !c.base.allocs) { sample (show (c.j)); return; }
    const bool forever = choose ("forever", 2);
    const int kind = int (choose ("kind", 4)) % 3;
    const u64 span = kind == 2 ? 60 : c.base.allocs + 2;
    const u64 at = choose ("when", 3) == 0 ? skew ("at", span) : choose ("at", span);
    Env e;
    e.tweak = [&] (World &, Spec &s) { s.alloc_fail_at = i64 (at); s.alloc_fail_forever = forever; s.alloc_kind = kind; };
    const Res r = run (c.j, e);
    const std::string what = fmt ("%s allocation %llu%s fails", kind == 0 ? "" : kind == 1 ? "heap" : "zlib", (unsigned long long) at, forever ? " and every later one" : "");
    sample (show (c.j) + ": " + what);
    if (!r.sane) return;
    if (r.alloc_faults) nontrivial ();
    else note ("outcome.not_reached");
    if (done (c, r))
    {
        const std::string x = delivered (c, r);
        check (x.empty (), "lied:" + c.j.app, show (c.j) + ": " + what + ", exit status 0, but " + x);
        return;
    }
    if (!check (r.alloc_faults > 0, "failed:" + c.j.app, show (c.j) + ": no allocation failed, but: " + r.status + " " + r.err)) return;
    must_fail (c, r, "memory", what);
}
SCENARIO (C05, app_memory, 1)
{
    // a memory limit below what the input needs
    Opt o;
    o.valid = true;
    o.max_pts = 300;
    Case c = prepare (make (all_apps[choose ("app", all_apps.size ())], "j", o));
    if (!c.good) { sample (show (c.j)); return; }
    const size_t limit = c.base.peak ? choose ("limit", c.base.peak + 1000) : 0;
    Env e;
    e.tweak = [&] (World &, Spec &s) { s.mem_limit = limit; };
    const Res r = run (c.j, e);
    const std::string what = fmt ("%zu of %zu bytes of memory", limit, c.base.peak);
    sample (show (c.j) + ": " + what);
    if (!r.sane) return;
    nontrivial ();
    if (done (c, r)) { const std::string x = delivered (c, r); check (x.empty (), "lied:" + c.j.app, show (c.j) + ": " + what + ", exit status 0, but " + x); return; }
    must_fail (c, r, "memory", what);
}

// ---------------------------------------------------------------- tiles and other people's files
SCENARIO (C19, foreign, 4)
{
    Opt o;
    o.valid = true;
    Case c = prepare (make ("tile", "j", o));
    if (!c.good) { sample (show (c.j)); return; }
    Strs outs;
    for (auto &q : c.m.outs) if (!q.first.empty ()) outs.push_back (q.first);
    bool force = false;
    for (auto &a : c.j.args) if (a == "-f" || a == "--force") force = true;
    if (outs.empty ()) { sample (show (c.j)); return; }
    const std::string path = outs[choose ("tile", outs.size ())];
    const Bytes theirs = choose ("spoc", 2) ? ref::encode (tame_cloud ("their", 10)) : Bytes ("somebody else's work\n");
    const u64 at = choose ("at", c.base.events * (1 + choose ("span", 3)) + 2);
    bool put = false, existed = false;
    Env e;
    World *ww = nullptr;
    e.tweak = [&] (World &w, Spec &) {
        ww = &w;
        w.at_event.emplace (at, [&] {
            // as another program would: creates it only if it is not there
            existed = ww->fs.has (path);
            if (!existed) { ww->fs.put (path, theirs); put = true; note ("fault.foreign_file"); }
        });
    };
    const Res r = run (c.j, e);
    sample (show (c.j) + fmt (": somebody creates %s at event %llu", path.c_str (), (unsigned long long) at));
    if (!r.sane) return;
    if (put) nontrivial ();
    if (!put)
    {
        const std::string x = delivered (c, r);
        check (r.ok && x.empty (), "failed", show (c.j) + ": " + r.status + " " + x);
        return;
    }
    const Bytes &have = r.outs.at (path);
    if (force)
    {
        const std::string x = delivered (c, r);
        check (r.ok && x.empty (), "not-replaced", show (c.j) + ": --force, but " + r.status + " " + x);
        return;
    }
    if (!check (have == theirs, "clobbered", show (c.j) + fmt (": %s was created by somebody else at event %llu and then modified", path.c_str (), (unsigned long long) at))) return;
    Res q = r;
    q.outs.erase (path);
    must_fail (c, q, "foreign", "a tile's file exists");
}
// two runs at once into the same names
SCENARIO (C19, race, 2)
{
    Opt o;
    o.valid = true;
    Case c = prepare (make ("tile", "j", o));
    if (!c.good || !c.j.pre.empty () || c.m.outs.empty ()) { sample (show (c.j)); return; }
    World w;
    env_world (w);
    w.max_steps = 300000000;
    Proc *p[2];
    for (int k = 0; k < 2; ++k)
    {
        Spec s;
        s.module = "tile";
        s.name = fmt ("tile%d", k);
        s.args = c.j.args;
        for (auto &i : c.j.in)
            if (i.path.empty ()) { auto src = make_source (i.b, fmt ("stdin%d", k)); chunky (src->f, fmt ("rd%d", k)); s.in = src; }
            else w.fs.put (i.path, i.b);
        env_spec (s, fmt ("env%d", k));
        s.start_at = choose (fmt ("start%d", k), 3) * 1000;
        p[k] = w.spawn (s);
    }
    w.run ();
    sample (show (c.j) + ": twice at the same time");
    if (!sane (w, "tile")) return;
    nontrivial ();
    bool force = false;
    for (auto &a : c.j.args) if (a == "-f" || a == "--force") force = true;
    if (force)
    {
        check (p[0]->ok () && p[1]->ok (), "failed", "with --force both runs succeed");
        return;
    }
    // each tile belongs to one of them: both cannot have succeeded, and nothing is torn
    if (!check (!(p[0]->ok () && p[1]->ok ()), "both", show (c.j) + ": two runs without --force both report success")) return;
    for (auto &f : w.fs.files)
    {
        auto b = c.base.outs.find (f.first);
        if (b == c.base.outs.end ()) continue;
        if (!check (f.second->data == b->second || f.second->data.empty (), "torn", show (c.j) + ": " + f.first + " is torn")) return;
    }
}
