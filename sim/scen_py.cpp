// C23: the real Python extension, called by a real interpreter inside a simulated process
#include "scen.h"
#include "pynode.h"
using namespace pynode;
using ref::Cloud;
using ref::Rec;

namespace
{
// runs the plan in a process of its own; worlds live as long as the run, as objects of the interpreter do
World *world ()
{
    World *w = new World;
    w->max_steps = 400000000;
    return w;
}
bool run_plan (World &w, Plan &p, const std::string &st = "env")
{
    env_world (w, st);
    Spec s;
    s.module = "spocpy"; s.entry = "node_py"; s.name = "python"; s.user = &p;
    env_spec (s, st);
    w.spawn (s);
    w.run ();
    if (!sane (w, "python")) return false;
    return check (w.procs[0]->ok () && p.obs.size () == p.steps.size (), "ended", "the interpreter ended with " + w.procs[0]->status ());
}
std::string utf8 (const std::string &st)
{
    static const char *parts[] = {"GEOGCS[\"WGS 84\"]", "x", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", " ", "\n", "PROJCS", ","};
    std::string s;
    const u64 n = maybe_skew (st, 0.8, 60), sd = raw64 (st + ".seed");
    for (u64 i = 0; i < n; ++i) s += parts[ref::h (sd, i) % 9];
    if (chance (st + ".long", 0.03)) s.resize (65535 - skew (st + ".longn", 65536), 'w');
    if (s.size () > 65535) s.resize (65535);
    return s;
}
bool ascii (const std::string &s) { for (char c : s) if (c & 0x80) return false; return true; }
Cloud gen_cloud (const std::string &st, u64 max_pts = 40)
{
    ref::Gen g;
    g.max_pts = max_pts;
    g.many = 300;
    g.p_big_extra = 0.02;
    return ref::gen (st, g);
}
std::string tell (const Step &s)
{
    static const char *n[] = {"SpocFile", "readspocfile", "readheader", "writespocfile", "setWKT", "setCompressed", "setPointRecord", "setPointRecords", "getPointRecord", "look", "getExtra", "drop"};
    return fmt ("%s(%d%s%s, %llu, %zu records)", n[s.kind], s.slot, s.path.empty () ? "" : ", ", s.path.c_str (), (unsigned long long) s.i, s.recs.size ());
}
// what is wrong with a view of an object
std::string view_wrong (const Cloud &want, const Obs &o)
{
    if (o.threw) return "raised " + o.type + ": " + o.what;
    if (o.major != 0 || o.minor != 1) return "another version";
    if (!o.columns.empty ()) return "field arrays: " + o.columns;
    Cloud w = want;
    if (w.r.empty ()) w.extra = o.c.extra;
    if (!o.wkt_ok) { if (ascii (w.wkt)) return "the WKT is not given"; w.wkt.clear (); Cloud g = o.c; g.wkt.clear (); return ref::diff (w, g); }
    return ref::diff (w, o.c);
}
std::string written_wrong (const Cloud &want, const Bytes &b)
{
    Cloud d, w = want;
    std::string why;
    if (!ref::decode_all (b, d, why)) return "not a SPOC file: " + why;
    if (w.r.empty ()) w.extra = d.extra;
    why = ref::diff (w, d);
    if (why.empty () && !w.compressed && !w.r.empty () && b != ref::encode (w)) return "not the documented bytes";
    return why;
}
}

SCENARIO (C23, session, 5)
{
    // a session: objects built, read, altered, looked at and written, against a model of what they hold
    Plan p;
    World &w = *world ();
    struct M { bool there = false; Cloud c; };
    M m[2];
    std::map<std::string, Cloud> files; // what each file must hold
    std::map<std::string, bool> known;
    std::vector<std::function<std::string (const Obs &)>> checks;
    const int nf = 1 + int (choose ("files", 2));
    for (int k = 0; k < nf; ++k)
    {
        const std::string path = fmt ("in%d.spoc", k);
        files[path] = gen_cloud (fmt ("f%d", k));
        w.fs.put (path, ref::encode (files[path], ref::gen_peer (fmt ("peer%d", k))));
        chunky (w.fs.faults[path], "rd." + path);
    }
    for (auto o : {"out0.spoc", "out1.spoc"}) chunky (w.fs.faults[o], fmt ("wr.%s", o));
    const int n = 2 + int (choose ("steps", 12));
    auto add = [&] (const Step &s, std::function<std::string (const Obs &)> f) { p.steps.push_back (s); checks.push_back (f); };
    auto plain = [] (const Obs &o) { return o.threw ? "raised " + o.type + ": " + o.what : std::string (); };
    auto must_raise = [] (const Obs &o) { return o.threw ? std::string () : std::string ("did not raise"); };
    std::vector<std::pair<std::string, Cloud>> written;
    for (int k = 0; k < n; ++k)
    {
        const std::string st = fmt ("s%d", k);
        Step s;
        s.slot = int (choose (st + ".slot", 2));
        M &x = m[s.slot];
        int kind = int (choose (st, 14));
        if (!x.there && kind >= 2 && kind != 13) kind = int (choose (st + ".first", 2));
        switch (kind)
        {
            case 0:
            {
                s.kind = P_NEW;
                Cloud c = gen_cloud (st + ".c");
                c.wkt = utf8 (st + ".wkt");
                if (c.r.empty ()) c.extra = 0;
                s.wkt = c.wkt; s.comp = c.compressed; s.recs = c.r;
                // only valid text can be passed
                x = {true, c};
                add (s, plain);
                break;
            }
            case 1: case 11:
            {
                s.kind = P_READ;
                auto it = files.begin ();
                std::advance (it, choose (st + ".file", files.size ()));
                s.path = it->first;
                x = {true, it->second};
                add (s, plain);
                break;
            }
            case 2:
                s.kind = P_WKT;
                s.wkt = x.c.wkt = utf8 (st + ".wkt");
                add (s, plain);
                break;
            case 3:
                s.kind = P_COMP;
                s.comp = x.c.compressed = choose (st + ".z", 2);
                add (s, plain);
                break;
            case 4:
            {
                s.kind = P_SETREC;
                const Cloud d = gen_cloud (st + ".c", 3);
                Rec r = d.r.empty () ? Rec () : d.r[0];
                const bool wrong = chance (st + ".wrong", 0.15) , far = x.c.r.empty () || chance (st + ".far", 0.15);
                r.e.resize (x.c.extra + (wrong ? 1 : 0), 7);
                s.recs = {r};
                s.i = far ? x.c.r.size () + skew (st + ".fari", 1u << 20) : choose (st + ".i", x.c.r.size ());
                if (!far && !wrong) x.c.r[s.i] = r;
                if (far || wrong) add (s, must_raise);
                else add (s, plain);
                break;
            }
            case 5:
            {
                s.kind = P_SETRECS;
                Cloud d = gen_cloud (st + ".c");
                s.recs = d.r;
                const bool wrong = d.r.size () > 1 && chance (st + ".wrong", 0.2);
                if (wrong) { s.recs[choose (st + ".at", s.recs.size ())].e.push_back (1); add (s, must_raise); break; }
                x.c.r = d.r;
                x.c.extra = d.r.empty () ? 0 : d.extra;
                add (s, plain);
                break;
            }
            case 6:
            {
                s.kind = P_GETREC;
                const bool far = x.c.r.empty () || chance (st + ".far", 0.15);
                s.i = far ? x.c.r.size () + skew (st + ".fari", 1u << 20) : choose (st + ".i", x.c.r.size ());
                if (far) { add (s, must_raise); break; }
                const Rec r = x.c.r[s.i];
                add (s, [r] (const Obs &o) { return o.threw ? "raised " + o.type : o.columns.empty () && ref::same (o.c.r[0], r) ? std::string () : std::string ("another record"); });
                break;
            }
            case 7:
            {
                s.kind = P_EXTRA;
                const bool far = !x.c.r.empty () && (x.c.extra == 0 || chance (st + ".far", 0.2));
                if (x.c.r.empty ()) { s.kind = P_LOOK; const Cloud c = x.c; add (s, [c] (const Obs &o) { return view_wrong (c, o); }); break; }
                s.i = far ? x.c.extra + skew (st + ".fari", 1u << 20) : choose (st + ".k", x.c.extra);
                if (far) { add (s, must_raise); break; }
                std::vector<u64> col;
                for (auto &r : x.c.r) col.push_back (r.e[s.i]);
                add (s, [col] (const Obs &o) { return o.threw ? "raised " + o.type : o.col == col ? std::string () : std::string ("another column"); });
                break;
            }
            case 8: case 12:
            {
                s.kind = P_WRITE;
                s.path = choose (st + ".out", 2) ? "out1.spoc" : "out0.spoc";
                files[s.path] = x.c;
                add (s, plain);
                break;
            }
            case 13:
            {
                s.kind = P_HEADER;
                auto it = files.begin ();
                std::advance (it, choose (st + ".file", files.size ()));
                s.path = it->first;
                const Cloud c = it->second;
                add (s, [c] (const Obs &o) -> std::string {
                    if (o.threw) return "raised " + o.type + ": " + o.what;
                    if (o.wkt_ok ? o.c.wkt != c.wkt : ascii (c.wkt)) return "another WKT";
                    if (o.total != c.r.size () || o.c.compressed != c.compressed || o.major != 0 || o.minor != 1) return "another header";
                    return c.r.empty () || o.c.extra == c.extra ? "" : "another number of extra fields";
                });
                break;
            }
            default:
            {
                s.kind = P_LOOK;
                const Cloud c = x.c;
                add (s, [c] (const Obs &o) { return view_wrong (c, o); });
            }
        }
    }
    std::string all;
    for (auto &s : p.steps) all += tell (s) + "; ";
    sample ("python: " + all);
    if (!run_plan (w, p)) return;
    nontrivial ();
    for (size_t k = 0; k < p.steps.size (); ++k)
    {
        const std::string d = checks[k] (p.obs[k]);
        if (!check (d.empty (), fmt ("session:%d", p.steps[k].kind), fmt ("step %zu, ", k) + tell (p.steps[k]) + ": " + d)) return;
    }
    for (auto &f : files)
    {
        if (!check (w.fs.has (f.first), "session:file", "no file " + f.first)) return;
        const std::string d = written_wrong (f.second, w.fs.get (f.first));
        if (f.first[0] == 'o' && !check (d.empty (), "session:file", f.first + " after the session: " + d)) return;
    }
}
SCENARIO (C23, input_fails, 3)
{
    const Cloud c = gen_cloud ("c");
    ref::Layout l;
    const Bytes b = ref::encode (c, ref::gen_peer ("peer"), l);
    Plan p;
    World &w = *world ();
    Faults &f = w.fs.faults["in.spoc"];
    chunky (f, "rd");
    const u64 at = cut_offset ("cut", b.size (), &l);
    const int how = int (choose ("how", 3));
    if (how == 0) w.fs.put ("in.spoc", b.substr (0, at));
    else { w.fs.put ("in.spoc", b); f.rd_fail_at = i64 (at); f.rd_errno = how == 1 ? 0 : EIO; }
    const bool missing = chance ("missing", 0.05);
    if (missing) w.fs.open_errno["in.spoc"] = choose ("enoent", 2) ? ENOENT : EACCES;
    Step s;
    s.kind = P_NEW;
    s.wkt = "before";
    p.steps.push_back (s);
    const bool header = choose ("header", 4) == 3;
    s.kind = header ? P_HEADER : P_READ;
    s.path = "in.spoc";
    p.steps.push_back (s);
    s.kind = P_LOOK;
    if (!header) p.steps.push_back (s);
    sample (fmt ("python reads %s of [%s] that ends or fails after %llu of %zu bytes", header ? "the header" : "the file", brief (c).c_str (), (unsigned long long) at, b.size ()));
    if (!run_plan (w, p)) return;
    nontrivial ();
    note (how == 2 ? "fault.read_error" : "fault.truncated");
    const u64 need = header ? 18 + c.wkt.size () : b.size ();
    const std::string what = fmt ("%s of [%s] cut at %llu of %zu", header ? "readheader" : "readspocfile", brief (c).c_str (), (unsigned long long) at, b.size ());
    if (missing || at < need)
    {
        if (!check (p.obs[1].threw, "input:accepted", what + ": no exception")) return;
        if (!header) check (!p.obs[2].threw && p.obs[2].c.wkt == "before", "input:object", what + ": the object read into the same name before is lost");
        return;
    }
    // only the header was needed; reading ahead may still have met the error
    if (!p.obs[1].threw) check (p.obs[1].total == c.r.size () && p.obs[1].c.compressed == c.compressed, "input:header", what + ": another header");
    else check (how == 2, "input:refused", what + ": raised " + p.obs[1].what);
}
SCENARIO (C23, output_fails, 3)
{
    Cloud c = gen_cloud ("c");
    c.wkt = utf8 ("wkt");
    if (c.r.empty ()) c.extra = 0;
    const Bytes b = ref::encode (c);
    Plan p;
    World &w = *world ();
    Faults &f = w.fs.faults["out.spoc"];
    chunky (f, "wr");
    const int how = int (choose ("how", 6)); // 0 write error, 1 disk full, 2 close, 3 open, 4 once, 5 nothing
    const u64 at = cut_offset ("cut", b.size () + 4);
    Bytes old;
    if (choose ("old", 2)) { old = ref::encode (gen_cloud ("oldc", 5)); w.fs.put ("out.spoc", old); }
    if (how == 0 || how == 4) { f.wr_fail_at = i64 (at); f.wr_errno = choose ("eio", 2) ? EIO : ENOSPC; if (how == 4) f.wr_fail_times = 1; }
    else if (how == 1) w.fs.free_bytes = at;
    else if (how == 2) f.close_errno = choose ("eio", 2) ? EIO : EDQUOT;
    else if (how == 3) { static const int e[] = {EACCES, ENOSPC, EROFS, EMFILE}; w.fs.create_errno["out.spoc"] = e[choose ("errno", 4)]; }
    Step s;
    s.kind = P_NEW;
    s.wkt = c.wkt; s.comp = c.compressed; s.recs = c.r;
    p.steps.push_back (s);
    s = Step ();
    s.kind = P_WRITE;
    s.path = "out.spoc";
    p.steps.push_back (s);
    s = Step ();
    s.kind = P_LOOK;
    p.steps.push_back (s);
    s.kind = P_WRITE;
    s.path = "retry.spoc";
    p.steps.push_back (s);
    sample (fmt ("python writes [%s], output failure %d at %llu", brief (c).c_str (), how, (unsigned long long) at));
    if (!run_plan (w, p)) return;
    nontrivial ();
    const std::string what = fmt ("writespocfile of [%s], output failure %d at %llu of %zu", brief (c).c_str (), how, (unsigned long long) at, b.size ());
    const Obs &o = p.obs[1];
    if (!check (!p.obs[0].threw, "output:object", "SpocFile: raised " + p.obs[0].what)) return;
    const Bytes got = w.fs.has ("out.spoc") ? w.fs.get ("out.spoc") : Bytes ();
    const std::string d = written_wrong (c, got);
    if (how == 2 || how == 3) { note (how == 2 ? "fault.close" : "fault.open"); if (!check (o.threw, "output:accepted", what + ": no exception")) return; }
    if (!o.threw) { if (!check (d.empty (), "output:incomplete", what + ": no exception, but " + d)) return; }
    else
    {
        if (!check (how != 5, "output:refused", what + ": raised " + o.what)) return;
        Cloud x;
        std::string why;
        if (how != 3 && !check (!ref::decode_all (got, x, why) || d.empty () || got == old, "output:passes", what + ": what is left passes as another complete file")) return;
        if (how == 3 && !check (got == old, "output:old", what + ": the older file is gone although the new one could not be opened")) return;
    }
    const std::string v = view_wrong (c, p.obs[2]);
    if (!check (v.empty (), "output:object", what + ": the object afterwards: " + v)) return;
    if (how != 1)
    {
        if (!check (!p.obs[3].threw, "output:retry", what + ": writing elsewhere afterwards raised " + p.obs[3].what)) return;
        const std::string r = written_wrong (c, w.fs.get ("retry.spoc"));
        check (r.empty (), "output:retry", what + ": written elsewhere afterwards: " + r);
    }
}
SCENARIO (C23, corrupt, 2)
{
    const Cloud c = gen_cloud ("c", 20);
    ref::Layout l;
    Bytes b = ref::encode (c, ref::gen_peer ("peer"), l);
    const int n = 1 + int (choose ("n", 3));
    for (int k = 0; k < n; ++k)
    {
        const u64 at = cut_offset (fmt ("at%d", k), b.size (), &l);
        b[at] = char (choose (fmt ("how%d", k), 2) ? b[at] ^ (1 << choose (fmt ("bit%d", k), 8)) : choose (fmt ("val%d", k), 256));
    }
    Plan p;
    World &w = *world ();
    w.fs.put ("in.spoc", b);
    chunky (w.fs.faults["in.spoc"], "rd");
    Step s;
    s.kind = P_READ;
    s.path = "in.spoc";
    p.steps.push_back (s);
    s.kind = P_LOOK;
    p.steps.push_back (s);
    sample (fmt ("python reads a damaged file [%s]", brief (c).c_str ()));
    env_world (w);
    Spec sp;
    sp.module = "spocpy"; sp.entry = "node_py"; sp.name = "python"; sp.user = &p;
    env_spec (sp);
    sp.mem_limit = 256u << 20;
    w.spawn (sp);
    w.run ();
    if (!sane (w, "python")) return;
    nontrivial ();
    note ("fault.corrupted");
    if (!check (w.procs[0]->ok () && p.obs.size () == 2, "ended", "the interpreter ended with " + w.procs[0]->status ())) return;
    Cloud d;
    std::string why;
    const bool good = ref::decode (b, d, why, nullptr, true);
    if (p.obs[0].threw) return; // refusing is always safe here: C06 and C05 decide what must be accepted
    if (!check (good, "corrupt:accepted", "no exception for a damaged file: " + why)) return;
    const std::string v = view_wrong (d, p.obs[1]);
    check (v.empty (), "corrupt:differs", "a damaged file is read as something else than it says: " + v);
}
// ---------------------------------------------------------------- C29: the extension, again and again
SCENARIO (C29, python, 2)
{
    Cloud c = gen_cloud ("c"), d = gen_cloud ("d", 20);
    d.wkt = utf8 ("wkt");
    if (d.r.empty ()) d.extra = 0;
    Plan p;
    World &w = *world ();
    Bytes b = ref::encode (c, ref::gen_peer ("peer"));
    const int how = int (choose ("how", 5)); // 0: nothing fails, 1: ends, 2: device error, 3: damaged, 4: cannot be opened
    const u64 at = b.empty () ? 0 : cut_offset ("cut", b.size ());
    Faults &f = w.fs.faults["in.spoc"], &o = w.fs.faults["out.spoc"];
    chunky (f, "rd");
    chunky (o, "wr");
    if (how == 1) b.resize (at);
    if (how == 2) { f.rd_fail_at = i64 (at); f.rd_errno = EIO; o.wr_fail_at = i64 (cut_offset ("wcut", ref::encode (d).size () + 1)); o.wr_errno = choose ("eio", 2) ? EIO : ENOSPC; }
    if (how == 3) { b[at] = char (b[at] ^ (1 << choose ("bit", 8))); o.close_errno = EIO; }
    w.fs.put ("in.spoc", b);
    if (how == 4) { w.fs.open_errno["in.spoc"] = ENOENT; w.fs.create_errno["out.spoc"] = EACCES; }
    Step s;
    s.kind = P_NEW;
    s.slot = 0;
    s.wkt = d.wkt; s.comp = d.compressed; s.recs = d.r;
    p.steps.push_back (s);
    const Step make = s;
    Step t;
    static const int kinds[] = {P_READ, P_HEADER, P_WRITE, P_READ, P_WRITE, P_NEW, P_SETRECS, P_GETREC, P_SETREC, P_EXTRA, P_LOOK};
    t.kind = kinds[choose ("kind", 11)];
    t.slot = t.kind == P_READ ? 1 : 0;
    t.path = t.kind == P_WRITE ? "out.spoc" : "in.spoc";
    t.i = choose ("index", 3) ? choose ("i", d.r.size () + 2) : ~0ull >> choose ("shift", 60);
    if (t.kind == P_NEW) t = make;
    if (t.kind == P_SETRECS) { t.recs = d.r; if (how && !t.recs.empty ()) t.recs.back ().e.push_back (1); }
    if (t.kind == P_SETREC) { Rec x; x.e.resize (how ? d.extra + 1 : d.extra); t.recs.push_back (x); }
    const size_t from = p.steps.size ();
    for (int k = 0; k < 6; ++k) p.steps.push_back (t);
    static const char *hows[] = {"", ", the input ends", ", a device error", ", damaged, failing close", ", cannot be opened"};
    const std::string what = tell (t) + hows[how];
    sample ("python, six times: " + what);
    env_world (w);
    Spec sp;
    sp.module = "spocpy"; sp.entry = "node_py"; sp.name = "python"; sp.user = &p;
    env_spec (sp);
    sp.mem_limit = 256u << 20;
    w.spawn (sp);
    w.run ();
    if (w.stuck.starts_with ("budget:")) { note ("outcome.long"); return; } // damage may promise more points than fit the budget
    if (!sane (w, "python")) return;
    if (!check (w.procs[0]->ok () && p.obs.size () == p.steps.size (), "ended", what + ": the interpreter ended with " + w.procs[0]->status ())) return;
    nontrivial ();
    if (p.obs.back ().threw) note ("outcome.threw");
    u64 lost = ~0ull, open = ~0ull;
    for (size_t k = from + 2; k < p.obs.size (); ++k)
    {
        lost = std::min (lost, p.obs[k].live > p.obs[k - 1].live ? p.obs[k].live - p.obs[k - 1].live : 0);
        open = std::min (open, p.obs[k].fds > p.obs[k - 1].fds ? p.obs[k].fds - p.obs[k - 1].fds : 0);
    }
    if (!check (lost == 0, "lost:python", what + fmt (": every repetition leaves %llu more bytes allocated", (unsigned long long) lost))) return;
    check (open == 0, "open:python", what + ": every repetition leaves another file open");
}
