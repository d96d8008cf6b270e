// C28: command lines - what is refused costs nothing, what is asked is answered, how it is spelled does not matter
#include "job.h"
using namespace job;

namespace
{
struct Opt1 { const char *name; char sh; bool arg; };
const std::vector<Opt1> &table (const std::string &app)
{
    static const std::vector<Opt1> plain = {{"help", 'h', false}, {"verbose", 'v', false}, {"version", 'e', false}};
    static std::map<std::string, std::vector<Opt1>> t;
    if (t.empty ())
    {
        t["compress"] = t["decompress"] = {};
        t["filter"] = {{"keep-class", 'k', true}, {"random-seed", 'a', true}, {"remove-class", 'r', true}, {"unique-xyz", 'u', false}, {"subsample", 's', true}, {"remove-coords", 'c', true}};
        t["diff"] = {{"header-only", 'a', false}, {"data-only", 'd', false}, {"field", 'f', true}, {"reverse", 'r', false}};
        t["info"] = {{"json", 'j', false}, {"header-info", 'a', false}, {"summary-info", 's', false}, {"classification-info", 'l', false}, {"metric-info", 'm', false}, {"compact", 'c', false}, {"quartiles", 'q', false}};
        t["merge"] = {{"quiet", 'q', false}, {"point-id", 'p', true}};
        t["srs"] = {{"srs", 's', true}};
        t["tile"] = {{"force", 'f', false}, {"tiles", 't', true}, {"digits", 'd', true}, {"tile-size", 's', true}, {"tile-size-x", 'x', true}, {"tile-size-y", 'y', true}, {"prefix", 'p', true}};
        t["tool"] = {{"get-field", 'g', true}, {"recenter-xy", 0, false}, {"recenter-xyz", 0, false}, {"resize-extra", 0, true}, {"set-field", 's', true}, {"field-filename", 'f', true}, {"subtract-min-xy", 0, false}, {"subtract-min-xyz", 0, false}, {"upsample-classifications", 0, true}, {"resolution", 0, true}};
        t["transform"] = {{"random-seed", 'a', true}, {"copy-field", 0, true}, {"quantize-xyz", 0, true}, {"replace", 0, true}, {"replace-not", 0, true}, {"set", 0, true}};
        static std::vector<std::string> names;
        names.reserve (32);
        for (auto a : {"add", "rotate", "scale", "gaussian-noise", "uniform-noise"})
            for (auto x : {"-x", "-y", "-z", ""})
                if (*x || std::string (a).find ("noise") != std::string::npos) { names.push_back (std::string (a) + x); t["transform"].push_back ({names.back ().c_str (), 0, true}); }
        for (auto &a : t) a.second.insert (a.second.begin (), plain.begin (), plain.end ());
    }
    return t.at (app);
}
// a command line taken apart
struct Token { int o = -1; std::string v; }; // option of the table with its value, or (-1) an operand
struct Line { std::vector<Token> opts, ops; bool good = true; };
Line take_apart (const std::string &app, const Strs &args)
{
    auto &t = table (app);
    Line l;
    for (size_t i = 0; i < args.size (); ++i)
    {
        const std::string &a = args[i];
        if (a.size () < 2 || a[0] != '-') { l.ops.push_back ({-1, a}); continue; }
        if (a[1] == '-')
        {
            const size_t e = a.find ('=');
            const std::string n = a.substr (2, e == std::string::npos ? e : e - 2);
            int k = -1;
            for (size_t j = 0; j < t.size (); ++j) if (n == t[j].name) k = int (j);
            if (k < 0) { l.good = false; return l; }
            Token q {k, ""};
            if (e != std::string::npos) q.v = a.substr (e + 1);
            else if (t[k].arg) { if (++i >= args.size ()) { l.good = false; return l; } q.v = args[i]; }
            l.opts.push_back (q);
            continue;
        }
        for (size_t c = 1; c < a.size (); ++c)
        {
            int k = -1;
            for (size_t j = 0; j < t.size (); ++j) if (t[j].sh == a[c]) k = int (j);
            if (k < 0) { l.good = false; return l; }
            Token q {k, ""};
            if (t[k].arg)
            {
                if (c + 1 < a.size ()) q.v = a.substr (c + 1);
                else { if (++i >= args.size ()) { l.good = false; return l; } q.v = args[i]; }
                l.opts.push_back (q);
                break;
            }
            l.opts.push_back (q);
        }
    }
    return l;
}
// the shortest prefix of an option's name that means no other one
size_t unique_prefix (const std::vector<Opt1> &t, size_t k)
{
    const std::string n = t[k].name;
    for (size_t len = 1; len < n.size (); ++len)
    {
        bool other = false;
        for (size_t j = 0; j < t.size (); ++j) if (j != k && std::string (t[j].name).compare (0, len, n, 0, len) == 0) other = true;
        if (!other) return len;
    }
    return n.size ();
}
Strs spell (const std::string &app, const Token &q, const std::string &st)
{
    auto &t = table (app);
    const Opt1 &o = t[size_t (q.o)];
    const int form = int (choose (st + ".form", 5));
    if (form >= 3 && o.sh)
    {
        const std::string s = std::string ("-") + o.sh;
        if (!o.arg) return {s};
        if (form == 3 || q.v.empty ()) return {s, q.v};
        return {s + q.v};
    }
    std::string n = o.name;
    if (form == 2) { const size_t u = unique_prefix (t, size_t (q.o)); n = n.substr (0, u + choose (st + ".len", n.size () - u + 1)); }
    if (!o.arg) return {"--" + n};
    if (form == 1) return {"--" + n, q.v};
    return {"--" + n + "=" + q.v};
}
// options in order, operands in order, mixed in any way
Strs put_together (const std::string &app, const Line &l, const std::string &st)
{
    Strs r;
    size_t p = 0;
    for (size_t o = 0; o < l.opts.size (); ++o)
    {
        while (p < l.ops.size () && choose (fmt ("%s.mix%zu", st.c_str (), o + p), 4) == 3) r.push_back (l.ops[p++].v);
        const Strs s = spell (app, l.opts[o], fmt ("%s.o%zu", st.c_str (), o));
        r.insert (r.end (), s.begin (), s.end ());
    }
    if (p < l.ops.size () && choose (st + ".dashes", 5) == 4) r.push_back ("--");
    for (; p < l.ops.size (); ++p) r.push_back (l.ops[p].v);
    return r;
}
const Strs &apps () { static const Strs a = {"compress", "decompress", "transform", "filter", "tool", "tile", "merge", "srs", "info", "diff"}; return a; }
Job some_job ()
{
    Opt o;
    o.valid = true;
    o.max_pts = 12;
    return make (apps ()[choose ("app", apps ().size ())], "j", o);
}
void untouched (const Job &j, const Res &r, const std::string &what)
{
    std::map<std::string, Bytes> files = r.outs;
    files.erase ("");
    check (r.inputs_intact && files == j.pre, "touched:" + j.app, what + ", but it created or changed files");
}
// nobody types anything: reading standard input would never end
void silent_input (World &, Spec &s)
{
    auto src = make_source ("", "stdin");
    src->avail = 0;
    s.in = src;
}
}

SCENARIO (C28, spelled, 6)
{
    Job j = some_job ();
    Line l = take_apart (j.app, j.args);
    if (!l.good) { sample ("not understood: " + show (j)); return; }
    Env q;
    q.quiet = true;
    const Res base = run (j, q);
    if (!base.sane) return;
    Job k = j;
    if (choose ("v", 3) == 2) l.opts.insert (l.opts.begin () + long (choose ("vat", l.opts.size () + 1)), Token {1, ""});
    k.args = put_together (j.app, l, "s");
    const std::string what = show (k) + " (also " + show (j) + ")";
    sample (what);
    const Res r = run (k);
    if (!r.sane) return;
    nontrivial ();
    if (!check (r.status == base.status, "status:" + j.app, what + fmt (": ends with %s, not with %s", r.status.c_str (), base.status.c_str ()))) return;
    for (auto &o : base.outs)
    {
        auto i = r.outs.find (o.first);
        if (!check (i != r.outs.end () && i->second == o.second, "output:" + j.app, what + ": another " + (o.first.empty () ? std::string ("standard output") : o.first))) return;
    }
    check (r.outs.size () == base.outs.size () && r.inputs_intact, "files:" + j.app, what + ": other files");
}
// input and output are the same file
SCENARIO (C28, in_place, 2)
{
    static const char *names[] = {"compress", "decompress", "filter", "tool", "srs"};
    Opt o;
    o.valid = true;
    const int a = int (choose ("app", 5));
    static const int cmds[] = {0, 1, 2, 3, 4, 6, 7};
    if (a == 3) o.cmd = cmds[choose ("cmd", 7)];
    Job j = make (names[a], "j", o);
    Line l = take_apart (j.app, j.args);
    if (!l.good) return;
    if (a == 4) { bool set = false; for (auto &q : l.opts) if (table ("srs")[size_t (q.o)].sh == 's') set = true; if (!set) { sample ("only a report: " + show (j)); return; } }
    if (j.in[0].path.empty ()) { sample ("not a file: " + show (j)); return; }
    const std::string path = j.in[0].path;
    if (l.ops.empty () || l.ops[0].v != path) { sample ("another order: " + show (j)); return; }
    l.ops.resize (1);
    l.ops.push_back ({-1, "out.spoc"});
    j.args = put_together (j.app, l, "s");
    Env q;
    q.quiet = true;
    const Res base = run (j, q);
    if (!base.sane || !base.ok || !base.outs.count ("out.spoc")) { sample ("fails: " + show (j)); return; }
    Job k = j;
    l.ops[1].v = path;
    k.args = put_together (j.app, l, "s");
    std::map<std::string, Bytes> files = j.pre;
    for (auto &i : j.in) if (!i.path.empty ()) files[i.path] = i.b;
    k.in.clear ();
    Env e;
    e.files = &files;
    sample (show (k));
    const Res r = run (k, e);
    if (!r.sane) return;
    nontrivial ();
    note ("in_place");
    if (!check (r.ok, "in-place:" + j.app, show (k) + ": ends with " + r.status)) return;
    auto i = r.outs.find (path);
    check (i != r.outs.end () && i->second == base.outs.at ("out.spoc"), "in-place:" + j.app, show (k) + ": the file is not what another output file would have been");
}
// help and version
SCENARIO (C28, asked, 3)
{
    Job j = some_job ();
    Line l = take_apart (j.app, j.args);
    if (!l.good) return;
    const bool help = choose ("what", 2) == 0;
    if (choose ("bare", 3) == 2) { l.opts.clear (); l.ops.clear (); }
    const size_t at = choose ("at", l.opts.size () + 1);
    l.opts.insert (l.opts.begin () + long (at), Token {help ? 0 : 2, ""});
    j.args = put_together (j.app, l, "s");
    if (help && chance ("more", 0.3)) j.args.push_back ("--nonsense"), note ("ignored_rest");
    Env e;
    // half of the time there is nothing to open and nothing may be created
    const int err = choose ("absent", 2) ? (choose ("errno", 2) ? ENOENT : EACCES) : 0;
    e.tweak = [&] (World &w, Spec &q) {
        silent_input (w, q);
        if (!err) return;
        for (auto &i : j.in) if (!i.path.empty ()) w.fs.open_errno[i.path] = err;
        for (auto &o : l.ops) w.fs.create_errno[o.v] = w.fs.open_errno[o.v] = err;
    };
    // a nonsense option is only ignored after the help option; getopt takes options in order
    const std::string what = show (j);
    sample (what);
    const Res r = run (j, e);
    if (!r.sane) return;
    nontrivial ();
    if (!check (r.ok, "refused:" + j.app, what + ": ends with " + r.status + ": " + r.err.substr (0, 200))) return;
    untouched (j, r, what);
    const Bytes &out = r.outs.at ("");
    if (!help) { check (out == "Version 0.1\n", "version:" + j.app, what + ": printed " + out.substr (0, 200)); return; }
    const std::string text = out + r.err;
    for (auto &o : table (j.app))
        if (!check (text.find (std::string ("--") + o.name) != std::string::npos, "help:" + j.app, what + ": the help does not name --" + o.name)) return;
}
// command lines that are refused
SCENARIO (C28, refused, 5)
{
    Job j = some_job ();
    Line l = take_apart (j.app, j.args);
    if (!l.good) return;
    auto &t = table (j.app);
    std::string how;
    Strs args;
    const int kind = int (choose ("kind", 6));
    auto insert = [&] (const std::string &a) {
        // before any operand, between the options
        Line x = l, y = l;
        const size_t at = choose ("at", l.opts.size () + 1);
        x.opts.resize (at);
        x.ops.clear ();
        y.opts.erase (y.opts.begin (), y.opts.begin () + long (at));
        args = put_together (j.app, x, "s1");
        args.push_back (a);
        const Strs r = put_together (j.app, y, "s2");
        args.insert (args.end (), r.begin (), r.end ());
    };
    static const int most[] = {2, 2, 2, 2, 2, 1, -1, -1, -1, 2};
    size_t app = 0;
    while (apps ()[app] != j.app) ++app;
    if (kind == 0) { how = "unknown option"; static const char *b[] = {"--nonsense", "-Z", "--helping", "-?", "--=", "-:"}; insert (b[choose ("bad", 6)]); }
    else if (kind == 1)
    {
        how = "value for an option that takes none";
        std::vector<size_t> f;
        for (size_t k = 0; k < t.size (); ++k) if (!t[k].arg) f.push_back (k);
        insert (std::string ("--") + t[f[choose ("flag", f.size ())]].name + "=1");
    }
    else if (kind == 2)
    {
        how = "ambiguous abbreviation";
        std::vector<std::string> p;
        for (auto &o : t)
            for (size_t n = 1; n < strlen (o.name); ++n)
            {
                size_t same = 0;
                bool exact = false;
                for (auto &q : t) { if (strncmp (q.name, o.name, n) == 0) ++same; if (std::string (q.name) == std::string (o.name, n)) exact = true; }
                if (same > 1 && !exact) p.push_back (std::string (o.name, n));
            }
        insert ("--" + p[choose ("which", p.size ())]);
    }
    else if (kind == 3)
    {
        how = "option without its value";
        std::vector<size_t> f;
        for (size_t k = 0; k < t.size (); ++k) if (t[k].arg) f.push_back (k);
        if (f.empty ()) return;
        const Opt1 &o = t[f[choose ("opt", f.size ())]];
        args = put_together (j.app, l, "s");
        if (std::find (args.begin (), args.end (), "--") != args.end ()) args.erase (std::find (args.begin (), args.end (), "--"));
        args.push_back (o.sh && choose ("short", 2) ? std::string ("-") + o.sh : std::string ("--") + o.name);
    }
    else if (kind == 4 && most[app] > 0)
    {
        how = "too many arguments";
        while (l.ops.size () <= size_t (most[app])) l.ops.push_back ({-1, fmt ("surplus%zu", l.ops.size ())});
        args = put_together (j.app, l, "s");
    }
    else
    {
        how = "something is missing or contradictory";
        if (j.app == "diff" || j.app == "merge") l.ops.resize (choose ("left", 2), Token {-1, "one.spoc"});
        else if (j.app == "transform") l.opts.erase (std::remove_if (l.opts.begin (), l.opts.end (), [&] (const Token &q) { return std::string (t[size_t (q.o)].name) != "random-seed" && q.o != 1; }), l.opts.end ());
        else if (j.app == "tool")
        {
            static const char *cmds[] = {"recenter-xy", "subtract-min-xyz", "recenter-xyz"};
            if (choose ("two", 2))
            {
                const char *c = cmds[choose ("cmd", 3)];
                for (size_t k = 0; k < t.size (); ++k) if (std::string (t[k].name) == c) l.opts.insert (l.opts.begin () + long (choose ("cat", l.opts.size () + 1)), Token {int (k), ""});
            }
            else { l.opts.clear (); if (choose ("operands", 3) == 0) l.ops.clear (); }
        }
        else if (j.app == "tile") { l.ops.clear (); l.opts.erase (std::remove_if (l.opts.begin (), l.opts.end (), [&] (const Token &q) { return t[size_t (q.o)].sh == 'p'; }), l.opts.end ()); }
        else if (j.app == "srs")
        {
            l.opts.push_back ({3, "an srs"});
            l.ops.resize (choose ("left", 2) ? 1 : 3, Token {-1, "one.spoc"});
        }
        else return;
        args = put_together (j.app, l, "s");
    }
    j.args = args;
    const std::string what = show (j) + " (" + how + ")";
    sample (what);
    Env e;
    e.tweak = silent_input;
    const Res r = run (j, e);
    if (!r.sane) return;
    nontrivial ();
    note ("refused." + how);
    if (!check (r.clean, "accepted:" + j.app, what + ": ends with " + r.status)) return;
    if (!check (!r.err.empty (), "silent:" + j.app, what + ": no message")) return;
    if (!check (r.outs.at ("").empty (), "output:" + j.app, what + ": wrote to standard output")) return;
    untouched (j, r, what);
}
