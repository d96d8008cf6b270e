// Batch, replay and minimisation. Every run is a fresh child of a process that has loaded the modules.
#include "internal.h"
#include <algorithm>
#include <cctype>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sched.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim
{
static const size_t SHM = 64u << 20;
struct Shm { volatile u32 len; volatile u32 state; char data[SHM - 8]; }; // state: 0 running, 1 complete

struct Result
{
    bool ok = false;                  // the child completed
    std::string infra;                // why not
    u64 hash = 0, made = 0, sim_ns = 0, sig = 0;
    bool nontriv = false;
    std::string cls, detail, desc;
    std::map<std::string, u64> notes;
    std::vector<Choice> rec;
    Strs log;
};

static Shm *shm;
static void put_s (std::string &o, const std::string &s) { const u32 n = s.size (); o.append ((const char *) &n, 4); o += s; }
static void put_u (std::string &o, u64 v) { o.append ((const char *) &v, 8); }
static void publish ()
{
    std::string o;
    put_u (o, R->hash); put_u (o, R->made); put_u (o, R->sim_ns); put_u (o, R->sig); put_u (o, R->nontriv);
    put_s (o, R->viol_cls); put_s (o, R->viol_detail); put_s (o, R->desc);
    put_u (o, R->notes.size ());
    for (auto &n : R->notes) { put_s (o, n.first); put_u (o, n.second); }
    put_u (o, R->recorded.size ());
    for (auto &c : R->recorded) { put_s (o, c.stream); put_u (o, c.idx); put_u (o, c.val); }
    put_u (o, R->log.size ());
    for (auto &l : R->log) put_s (o, l);
    if (o.size () > sizeof shm->data)
    {
        R->log.clear ();
        const char m[] = "result too large";
        if (write (2, m, sizeof m) < 0) {}
        _exit (93);
    }
    memcpy (shm->data, o.data (), o.size ());
    shm->len = u32 (o.size ());
    __sync_synchronize ();
    shm->state = 1;
}
static bool fetch (Result &r)
{
    const char *p = shm->data, *e = p + shm->len;
    auto u = [&] { u64 v = 0; if (e - p >= 8) { memcpy (&v, p, 8); p += 8; } return v; };
    auto s = [&] { u32 n = 0; if (e - p >= 4) { memcpy (&n, p, 4); p += 4; } std::string x (p, std::min<size_t> (n, e - p)); p += x.size (); return x; };
    r.hash = u (); r.made = u (); r.sim_ns = u (); r.sig = u (); r.nontriv = u () != 0;
    r.cls = s (); r.detail = s (); r.desc = s ();
    for (u64 n = u (); n > 0; --n) { auto k = s (); r.notes[k] = u (); }
    for (u64 n = u (); n > 0; --n) { Choice c; c.stream = s (); c.idx = u (); c.val = u (); r.rec.push_back (c); }
    for (u64 n = u (); n > 0; --n) r.log.push_back (s ());
    return true;
}

static const char *signame (int s)
{
    return s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : s == SIGPROF ? "hang" : "signal";
}
static void on_signal (int sig, siginfo_t *si, void *)
{
    static volatile int once = 0;
    if (once++) _exit (92);
    if (tls.cur && tls.cur->proc && tls.in_app)
    {
        tls.in_app = false;
        const std::string who = tls.cur->proc->spec.module;
        violate (std::string (sig == SIGPROF ? "hang/cpu:" : "crash/") + (sig == SIGPROF ? "" : std::string (signame (sig)) + ":") + who,
            fmt ("%s in process %s", signame (sig), tls.cur->proc->spec.name.c_str ()));
        R->hash = mix (R->hash, sig == SIGPROF ? 1 : sig); // the point where a CPU limit strikes is not deterministic
        if (sig == SIGPROF) R->hash = 0x48414E47;
        publish ();
        _exit (0);
    }
    char b[200];
    const int n = snprintf (b, sizeof b, "host crash: signal %d at %p\n", sig, si->si_addr);
    if (::write (2, b, n) < 0) {}
    _exit (91);
}

static double now_s ()
{
    struct timespec t;
    syscall (SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static volatile int *g_patience;
// this run may take longer than others
void patience (int secs)
{
    struct itimerval it {};
    it.it_value.tv_sec = secs;
    setitimer (ITIMER_PROF, &it, nullptr);
    *g_patience = secs * 3;
}
static Result run_child (const Scenario &sc, Run &&run0)
{
    Result res;
    if (!g_patience) g_patience = static_cast<volatile int *> (mmap (nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    *g_patience = 150;
    shm->state = 0;
    shm->len = 0;
    fflush (stdout);
    fflush (stderr);
    const pid_t pid = fork ();
    if (pid == 0)
    {
        prctl (PR_SET_PDEATHSIG, SIGKILL);
        stack_t ss {};
        ss.ss_size = 256 << 10;
        ss.ss_sp = mmap (nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        sigaltstack (&ss, nullptr);
        struct sigaction sa {};
        sa.sa_sigaction = on_signal;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF}) sigaction (s, &sa, nullptr);
        struct itimerval it {};
        it.it_value.tv_sec = 40;
        setitimer (ITIMER_PROF, &it, nullptr);
        static Run run;
        run = std::move (run0);
        R = &run;
        sc.fn ();
        publish ();
        syscall (SYS_exit_group, 0);
    }
    int st = 0;
    const double t0 = now_s ();
    useconds_t nap = 50;
    for (;;)
    {
        const pid_t w = waitpid (pid, &st, WNOHANG);
        if (w == pid) break;
        if (now_s () - t0 > *g_patience)
        {
            kill (pid, SIGKILL);
            waitpid (pid, &st, 0);
            res.infra = "run did not finish (simulator stuck)";
            return res;
        }
        usleep (nap);
        if (nap < 1000) nap += 50;
    }
    if (shm->state != 1)
    {
        res.infra = WIFSIGNALED (st) ? fmt ("child died of signal %d", WTERMSIG (st)) : fmt ("child exited with %d", WEXITSTATUS (st));
        return res;
    }
    fetch (res);
    res.ok = true;
    return res;
}

static bool g_thorough = false;
static Result run_seed (const Scenario &sc, u64 seed, bool verb = false)
{
    Run r;
    r.seed = seed;
    r.verb = verb;
    r.thorough = g_thorough;
    return run_child (sc, std::move (r));
}
static Result run_given (const Scenario &sc, u64 seed, const std::vector<Choice> &cs, bool verb = false)
{
    Run r;
    r.seed = seed;
    r.replay = true;
    r.verb = verb;
    r.thorough = g_thorough;
    for (auto &c : cs) r.given[{c.stream, c.idx}] = c.val;
    return run_child (sc, std::move (r));
}

static std::vector<Choice> minimise (const Scenario &sc, u64 seed, const Result &first, int &tries, double secs)
{
    std::vector<Choice> best = first.rec;
    const double t0 = now_s ();
    auto fails = [&] (const std::vector<Choice> &c) -> bool {
        ++tries;
        Result r = run_given (sc, seed, c);
        return r.ok && r.cls == first.cls;
    };
    auto out = [&] { return now_s () - t0 > secs || tries > 1500; };
    // drop choices (back to their defaults), large chunks first
    for (size_t chunk = std::max<size_t> (1, best.size () / 2); !out ();)
    {
        bool any = false;
        for (size_t i = 0; i < best.size () && !out ();)
        {
            std::vector<Choice> c (best.begin (), best.begin () + i);
            const size_t e = std::min (best.size (), i + chunk);
            c.insert (c.end (), best.begin () + e, best.end ());
            if (fails (c)) { best = c; any = true; }
            else i = e;
        }
        if (chunk == 1 && !any) break;
        if (!any || chunk > best.size ()) chunk = std::max<size_t> (1, std::min (chunk, best.size ()) / 2);
    }
    // smaller values
    for (size_t i = 0; i < best.size () && !out (); ++i)
    {
        while (best[i].val > 1 && !out ())
        {
            bool better = false;
            for (u64 v : {u64 (1), best[i].val / 2, best[i].val - 1})
            {
                if (v >= best[i].val || v == 0) continue;
                auto c = best;
                c[i].val = v;
                if (fails (c)) { best = c; better = true; break; }
                if (out ()) break;
            }
            if (!better) break;
        }
    }
    return best;
}

static std::string esc (const std::string &s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += char (c); }
        else if (c < 32 || c > 126) o += fmt ("\\u%04x", c);
        else o += char (c);
    }
    return o;
}
static std::string oneline (std::string s)
{
    for (auto &c : s) if ((unsigned char) c < 32) c = ' ';
    return s;
}
static const Scenario *find_sc (const std::string &prop, const std::string &name)
{
    for (auto &s : scenarios ()) if (s.prop == prop && s.name == name) return &s;
    return nullptr;
}
static const Scenario *pick_sc (const std::string &prop, u64 seed, const std::string &only)
{
    double tot = 0;
    for (auto &s : scenarios ()) if (s.prop == prop && (only.empty () || s.name == only)) tot += s.weight;
    if (tot <= 0) return nullptr;
    double x = (mix (seed, 31337) >> 11) * (1.0 / 9007199254740992.0) * tot;
    const Scenario *last = nullptr;
    for (auto &s : scenarios ())
        if (s.prop == prop && (only.empty () || s.name == only))
        {
            last = &s;
            x -= s.weight;
            if (x < 0) break;
        }
    return last;
}

struct Shared
{
    std::atomic<u64> next;
    std::atomic<int> stop;
    std::atomic<u64> done;
};
} // namespace sim

using namespace sim;
int main (int argc, char **argv)
{
    std::map<std::string, std::string> o;
    const std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a.compare (0, 2, "--") == 0)
        {
            const size_t eq = a.find ('=');
            if (eq != std::string::npos) o[a.substr (2, eq - 2)] = a.substr (eq + 1);
            else o[a.substr (2)] = "1";
        }
        else o["file"] = a;
    }
    if (!(personality (0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv ("SPOCSIM_NOASLR"))
    {
        setenv ("SPOCSIM_NOASLR", "1", 1);
        if (personality (ADDR_NO_RANDOMIZE) != -1) execv ("/proc/self/exe", argv);
    }
    setenv ("LC_ALL", "C", 1);
    const std::string prop = o["prop"];
    const u64 master = strtoull (o["seed"].c_str (), nullptr, 10);
    g_thorough = o["tier"] == "thorough";
    const u64 max_runs = o.count ("runs") ? strtoull (o["runs"].c_str (), nullptr, 10) : 1000;
    const double secs = o.count ("secs") ? atof (o["secs"].c_str ()) : 1e9;
    int workers = o.count ("workers") ? atoi (o["workers"].c_str ()) : 8;
    Strs mods;
    {
        std::stringstream ss (o["mods"]);
        std::string m;
        while (std::getline (ss, m, ',')) if (!m.empty ()) mods.push_back (m);
    }
    mem_init ();
    modules_load (o["dir"], mods, o.count ("slots") ? atoi (o["slots"].c_str ()) : 3);
    shm = (Shm *) mmap (nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    auto seed_of = [&] (u64 i) { return mix (mix (master, hash_bytes (prop)), i + 1); };

    if (mode == "list")
    {
        for (auto &s : scenarios ()) printf ("%s %s %g\n", s.prop.c_str (), s.name.c_str (), s.weight);
        return 0;
    }
    if (mode == "one")
    {
        const u64 idx = strtoull (o["idx"].c_str (), nullptr, 10);
        const u64 seed = seed_of (idx);
        const Scenario *sc = pick_sc (prop, seed, o["scenario"]);
        if (!sc) { fprintf (stderr, "no scenario\n"); return 2; }
        Result r = run_seed (*sc, seed, o.count ("v"));
        for (auto &l : r.log) puts (l.c_str ());
        printf ("scenario %s ok=%d %s hash=%016llx choices=%llu nontrivial=%d class='%s' detail='%s'\n  %s\n", sc->name.c_str (), r.ok, r.infra.c_str (),
            (unsigned long long) r.hash, (unsigned long long) r.made, r.nontriv, r.cls.c_str (), r.detail.c_str (), r.desc.c_str ());
        for (auto &n : r.notes) printf ("  %s=%llu\n", n.first.c_str (), (unsigned long long) n.second);
        return r.ok && r.cls.empty () ? 0 : 1;
    }
    if (mode == "replay")
    {
        std::ifstream f (o["file"]);
        std::string line, p, sn, cls;
        u64 want = 0, seed = 0;
        std::vector<Choice> cs;
        while (std::getline (f, line))
        {
            std::stringstream ss (line);
            std::string k;
            ss >> k;
            if (k == "prop") ss >> p;
            else if (k == "scenario") ss >> sn;
            else if (k == "seed") ss >> seed;
            else if (k == "tier") { std::string t; ss >> t; g_thorough = t == "thorough"; }
            else if (k == "class") { std::getline (ss, cls); if (!cls.empty ()) cls.erase (0, 1); }
            else if (k == "hash") ss >> std::hex >> want >> std::dec;
            else if (k == "choice") { Choice c; ss >> c.idx >> c.val; std::getline (ss, c.stream); c.stream.erase (0, 1); cs.push_back (c); }
        }
        const Scenario *sc = find_sc (p, sn);
        if (!sc) { fprintf (stderr, "unknown scenario %s/%s\n", p.c_str (), sn.c_str ()); return 2; }
        Result r = run_given (*sc, seed, cs, o.count ("v"));
        for (auto &l : r.log) puts (l.c_str ());
        if (!r.ok) { printf ("replay failed: %s\n", r.infra.c_str ()); return 2; }
        printf ("replay property=%s scenario=%s class='%s' detail='%s' hash=%016llx\n", p.c_str (), sn.c_str (), r.cls.c_str (), oneline (r.detail).c_str (), (unsigned long long) r.hash);
        if (r.cls == cls && r.hash == want) { puts ("reproduced exactly"); return 1; }
        if (!r.cls.empty ()) { puts (r.cls == cls ? "same violation, different trace (code changed?)" : "another violation"); return r.cls == cls ? 4 : 3; }
        puts ("no violation");
        return 0;
    }
    if (mode == "hashes")
    {
        for (u64 i = 0; i < max_runs; ++i)
        {
            const u64 seed = seed_of (i);
            const Scenario *sc = pick_sc (prop, seed, o["scenario"]);
            Result r = run_seed (*sc, seed);
            printf ("%llu %s %016llx %s %s\n", (unsigned long long) i, sc->name.c_str (), (unsigned long long) r.hash, r.cls.c_str (), r.infra.c_str ());
        }
        return 0;
    }
    if (mode != "batch") { fprintf (stderr, "usage: spocsim batch|replay|one|list|hashes ...\n"); return 2; }

    Strs known;
    {
        std::ifstream f (o["known"]);
        std::string l;
        // lines of the form: known: property=<id> class=<class> <text>
        while (std::getline (f, l))
            if (l.compare (0, 6, "known:") == 0 && l.find ("property=" + prop + " ") != std::string::npos)
            {
                const size_t c = l.find (" class=");
                if (c == std::string::npos) continue;
                std::stringstream ss (l.substr (c + 7));
                std::string w;
                ss >> w;
                known.push_back (w);
            }
    }
    auto is_known = [&] (const std::string &c) { return std::find (known.begin (), known.end (), c) != known.end (); };

    Shared *sh = (Shared *) mmap (nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (sh) Shared {};
    const double t0 = now_s ();
    std::vector<pid_t> kids;
    const std::string tmp = o["tmp"];
    for (int w = 0; w < workers; ++w)
    {
        const pid_t pid = fork ();
        if (pid) { kids.push_back (pid); continue; }
        prctl (PR_SET_PDEATHSIG, SIGKILL);
        // one CPU per worker: the simulated threads hand over to each other on it
        cpu_set_t all, one;
        CPU_ZERO (&all);
        if (sched_getaffinity (0, sizeof all, &all) == 0)
        {
            const int n = CPU_COUNT (&all);
            int k = w % std::max (1, n);
            CPU_ZERO (&one);
            for (int c = 0; c < CPU_SETSIZE; ++c)
                if (CPU_ISSET (c, &all) && k-- == 0) { CPU_SET (c, &one); break; }
            sched_setaffinity (0, sizeof one, &one);
        }
        shm = (Shm *) mmap (nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        std::ofstream out (tmp + "/w" + std::to_string (w));
        std::map<std::string, u64> notes;
        u64 runs = 0, nontriv = 0, sim_ns = 0, made = 0, rechecks = 0;
        std::map<std::string, u64> per_sc;
        std::set<u64> hashes, sigs;
        int samples = 0;
        while (!sh->stop.load ())
        {
            const u64 i = sh->next.fetch_add (1);
            if (i >= max_runs || now_s () - t0 > secs) break;
            const u64 seed = seed_of (i);
            const Scenario *sc = pick_sc (prop, seed, o["scenario"]);
            if (!sc) { out << "infra no scenario for " << prop << "\n"; break; }
            Result r = run_seed (*sc, seed);
            if (!r.ok) { out << "infra run " << i << " (" << sc->name << "): " << r.infra << "\n"; sh->stop = 1; break; }
            ++runs;
            ++per_sc[sc->name];
            made += r.made;
            sim_ns += r.sim_ns;
            for (auto &n : r.notes) notes[n.first] += n.second;
            if (r.nontriv) { ++nontriv; hashes.insert (r.hash); if (samples < 2) { out << "sample [" << sc->name << "] " << oneline (r.desc) << "\n"; ++samples; } }
            sigs.insert (r.sig);
            if (i % 23 == 0 && r.cls.compare (0, 5, "hang/") != 0)
            {
                ++rechecks;
                Result q = run_seed (*sc, seed);
                if (!q.ok || q.hash != r.hash || q.cls != r.cls) { out << "infra run " << i << " (" << sc->name << ") is not deterministic\n"; sh->stop = 1; break; }
            }
            if (!r.cls.empty ())
            {
                out << "viol " << i << " " << r.cls << "\n";
                if (!is_known (r.cls) && !o.count ("keep-going")) { sh->stop = 1; break; }
            }
        }
        out << "sum runs " << runs << "\nsum nontriv " << nontriv << "\nsum sim_ns " << sim_ns << "\nsum choices " << made << "\nsum rechecks " << rechecks << "\n";
        for (auto &n : notes) out << "note " << n.second << " " << n.first << "\n";
        for (auto &n : per_sc) out << "sc " << n.second << " " << n.first << "\n";
        for (u64 hsh : hashes) out << "h " << hsh << "\n";
        for (u64 s : sigs) out << "s " << s << "\n";
        out << "end\n";
        out.close ();
        syscall (SYS_exit_group, 0);
    }
    for (pid_t k : kids) { int st; waitpid (k, &st, 0); }
    const double wall = now_s () - t0;
    std::map<std::string, u64> notes, sums, per_sc;
    std::set<u64> hashes, sigs;
    Strs samples, infra;
    std::map<std::string, u64> viols; // class -> lowest run
    std::map<std::string, u64> violn;
    for (int w = 0; w < workers; ++w)
    {
        std::ifstream f (tmp + "/w" + std::to_string (w));
        std::string l;
        bool end = false;
        while (std::getline (f, l))
        {
            std::stringstream ss (l);
            std::string k;
            ss >> k;
            if (k == "end") end = true;
            else if (k == "infra") infra.push_back (l.substr (6));
            else if (k == "sample") samples.push_back (l.substr (7));
            else if (k == "viol") { u64 i; std::string c; ss >> i; std::getline (ss, c); c.erase (0, 1); if (!viols.count (c) || viols[c] > i) viols[c] = i; ++violn[c]; }
            else if (k == "sum") { std::string n; u64 v; ss >> n >> v; sums[n] += v; }
            else if (k == "note" || k == "sc") { u64 v; std::string n; ss >> v; std::getline (ss, n); n.erase (0, 1); (k == "sc" ? per_sc : notes)[n] += v; }
            else if (k == "h") { u64 v; ss >> v; hashes.insert (v); }
            else if (k == "s") { u64 v; ss >> v; sigs.insert (v); }
        }
        if (!end && infra.empty ()) infra.push_back ("a worker ended early");
    }
    int rc = 0;
    std::ostringstream js;
    js << "{\n\"runs\": " << sums["runs"] << ", \"nontrivial\": " << sums["nontriv"] << ", \"distinct_nontrivial\": " << hashes.size ()
        << ", \"distinct_interleavings\": " << sigs.size () << ", \"sim_ns\": " << sums["sim_ns"] << ", \"choices\": " << sums["choices"] << ", \"determinism_rechecks\": " << sums["rechecks"]
        << ", \"wall_s\": " << wall << ", \"workers\": " << workers << ",\n\"scenarios\": {";
    bool first = true;
    for (auto &n : per_sc) { js << (first ? "" : ", ") << '"' << esc (n.first) << "\": " << n.second; first = false; }
    js << "},\n\"notes\": {";
    first = true;
    for (auto &n : notes) { js << (first ? "" : ", ") << '"' << esc (n.first) << "\": " << n.second; first = false; }
    js << "},\n\"samples\": [";
    first = true;
    for (auto &s : samples) { js << (first ? "" : ",\n  ") << '"' << esc (s.substr (0, 600)) << '"'; first = false; }
    js << "],\n\"violations\": [";
    first = true;
    int shown = 0;
    std::vector<std::pair<u64, std::string>> order;
    for (auto &v : viols) order.push_back ({v.second, v.first});
    std::sort (order.begin (), order.end ());
    for (auto &ov : order)
    {
        const std::string &cls = ov.second;
        const u64 seed = seed_of (ov.first);
        const bool kn = is_known (cls);
        std::string rp, detail;
        u64 nchoices = 0;
        int tries = 0;
        const Scenario *sc = pick_sc (prop, seed, o["scenario"]);
        if (!kn && infra.empty () && shown < 4)
        {
            ++shown;
            Result r = run_seed (*sc, seed);
            if (!r.ok || r.cls != cls) { infra.push_back ("violation " + cls + " of run " + std::to_string (ov.first) + " did not reproduce from its seed"); continue; }
            std::vector<Choice> m = minimise (*sc, seed, r, tries, o.count ("minsecs") ? atof (o["minsecs"].c_str ()) : 20);
            Result a = run_given (*sc, seed, m), b = run_given (*sc, seed, m);
            if (!a.ok || a.cls != cls || a.hash != b.hash || b.cls != cls)
            {
                infra.push_back ("minimised violation " + cls + " did not reproduce");
                continue;
            }
            detail = a.detail;
            nchoices = m.size ();
            rp = o["replays"] + "/" + prop + "-" + std::to_string (shown) + ".replay";
            std::ofstream f (rp);
            f << "spocsim-replay 1\nprop " << prop << "\nscenario " << sc->name << "\nseed " << seed << "\ntier " << (g_thorough ? "thorough" : "quick") << "\nclass " << cls << "\ndetail " << oneline (a.detail)
                << "\nrun " << oneline (a.desc) << "\nhash " << std::hex << a.hash << std::dec << "\n";
            for (auto &c : m) f << "choice " << c.idx << " " << c.val << " " << c.stream << "\n";
            f << "end\n";
        }
        js << (first ? "" : ",\n  ") << "{\"class\": \"" << esc (cls) << "\", \"count\": " << violn[cls] << ", \"first_run\": " << ov.first << ", \"scenario\": \"" << (sc ? sc->name : "") << "\", \"known\": " << (kn ? "true" : "false")
            << ", \"replay\": \"" << esc (rp) << "\", \"detail\": \"" << esc (detail) << "\", \"choices\": " << nchoices << ", \"min_runs\": " << tries << "}";
        first = false;
        if (!kn) rc = 1;
    }
    js << "],\n\"infra\": [";
    first = true;
    for (auto &s : infra) { js << (first ? "" : ", ") << '"' << esc (s) << '"'; first = false; }
    js << "]\n}\n";
    std::ofstream (o["out"]) << js.str ();
    if (!infra.empty ()) { for (auto &s : infra) fprintf (stderr, "infra: %s\n", s.c_str ()); return 2; }
    return rc;
}
