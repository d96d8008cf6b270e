// Part of the module made of /repo's Python extension: a real interpreter, imported extension, plans executed by Python code.
// Not instrumented (it is no code under test); the extension itself is.
#include <Python.h>
#include "pynode.h"
#include <cstring>

extern "C" PyObject *PyInit_spocpy_cpp (void);
extern "C" int sim_set_app (int on);
extern "C" unsigned long long sim_live (void), sim_fds (void);

using namespace pynode;
static const char *driver = R"PY(
import spocpy_cpp as sp
F = {}
def rec(t):
    p = sp.PointRecord()
    p.x, p.y, p.z, p.c, p.p, p.i, p.r, p.g, p.b = t[:9]
    p.extra = t[9]
    return p
def tup(r): return (r.x, r.y, r.z, r.c, r.p, r.i, r.r, r.g, r.b, list(r.extra))
def wkt(f):
    try: return (1, f.getWKT())
    except UnicodeDecodeError: return (0, '')
def new(s, w, c, recs):
    f = sp.SpocFile(w, c)
    if recs: f.setPointRecords([rec(t) for t in recs])
    if sp.getmajorversion() != f.getMajorVersion() or sp.getminorversion() != f.getMinorVersion(): raise ValueError('versions differ')
    F[s] = f
def spoil(r):
    r.x, r.c, r.b = r.x + 1, r.c ^ 1, r.b ^ 1
    r.extra = [e ^ 1 for e in r.extra]
def read(s, path): F[s] = sp.readspocfile(path)
def header(path):
    h = sp.readheader(path)
    try: w = (1, h.wkt)
    except UnicodeDecodeError: w = (0, '')
    return (h.major_version, h.minor_version, w, h.extra_fields, h.total_points, int(h.compressed))
def write(s, path): sp.writespocfile(path, F[s])
def setwkt(s, w): F[s].setWKT(w)
def setcomp(s, c): F[s].setCompressed(c)
# what is handed over or given back is a copy
def setrec(s, i, t):
    r = rec(t)
    F[s].setPointRecord(i, r)
    spoil(r)
def setrecs(s, ts):
    rs = [rec(t) for t in ts]
    F[s].setPointRecords(rs)
    for r in rs[-3:]: spoil(r)
def getrec(s, i):
    r = F[s].getPointRecord(i)
    t = tup(r)
    spoil(r)
    return t
def extra(s, k): return list(F[s].getExtra(k))
def look(s):
    f = F[s]
    got = f.getPointRecords()
    rs = [tup(r) for r in got]
    for r in got[-3:]: spoil(r)
    if got: spoil(f.getPointRecord(0))
    if rs and rs[0][9]: f.getExtra(0).append(1)
    f.getX().append(1.0)
    def same(a, b): return len(a) == len(b) and all(x == y and (x != 0 or str(x) == str(y)) or (x != x and y != y) for x, y in zip(a, b))
    bad = ''
    for k, n in enumerate('XYZCPIRGB'):
        if not same(list(getattr(f, 'get' + n)()), [r[k] for r in rs]): bad = 'get' + n
    for k in range(len(rs[0][9]) if rs else 0):
        if not same(list(f.getExtra(k)), [r[9][k] for r in rs]): bad = 'getExtra'
    return (f.getMajorVersion(), f.getMinorVersion(), wkt(f), bool(f.getCompressed()), rs, bad)
def drop(s): F.pop(s, None)
def clear(): F.clear()
)PY";
static PyObject *ns;

extern "C" __attribute__ ((visibility ("default"))) void module_boot ()
{
    PyImport_AppendInittab ("spocpy_cpp", PyInit_spocpy_cpp);
    PyConfig c;
    PyConfig_InitIsolatedConfig (&c);
    c.site_import = 0;
    c.install_signal_handlers = 0;
    c.use_hash_seed = 1;
    c.hash_seed = 1;
    c.write_bytecode = 0;
    PyStatus st = Py_InitializeFromConfig (&c);
    if (PyStatus_Exception (st)) { fprintf (stderr, "python: %s\n", st.err_msg ? st.err_msg : "?"); _exit (2); }
    PyConfig_Clear (&c);
    PyObject *m = PyImport_AddModule ("__main__");
    ns = PyModule_GetDict (m);
    PyObject *r = PyRun_String (driver, Py_file_input, ns, ns);
    if (!r) { PyErr_Print (); _exit (2); }
    Py_DECREF (r);
    PyEval_SaveThread ();
}

static PyObject *py_rec (const ref::Rec &r)
{
    PyObject *e = PyList_New (r.e.size ());
    for (size_t k = 0; k < r.e.size (); ++k) PyList_SET_ITEM (e, k, PyLong_FromUnsignedLongLong (r.e[k]));
    return Py_BuildValue ("(dddIIIIIIN)", r.x, r.y, r.z, r.c, r.p, unsigned (r.i), unsigned (r.r), unsigned (r.g), unsigned (r.b), e);
}
static PyObject *py_recs (const std::vector<ref::Rec> &v)
{
    PyObject *l = PyList_New (v.size ());
    for (size_t i = 0; i < v.size (); ++i) PyList_SET_ITEM (l, i, py_rec (v[i]));
    return l;
}
static u64 num (PyObject *o, bool &ok)
{
    if (!PyLong_Check (o)) { ok = false; return 0; }
    const u64 v = PyLong_AsUnsignedLongLong (o);
    if (PyErr_Occurred ()) { PyErr_Clear (); ok = false; }
    return v;
}
static ref::Rec rec_from (PyObject *t, bool &ok)
{
    ref::Rec r;
    double *d[] = {&r.x, &r.y, &r.z};
    for (int k = 0; k < 3; ++k) { PyObject *o = PyTuple_GET_ITEM (t, k); if (!PyFloat_Check (o)) ok = false; else *d[k] = PyFloat_AS_DOUBLE (o); }
    u64 v[6];
    for (int k = 0; k < 6; ++k) v[k] = num (PyTuple_GET_ITEM (t, 3 + k), ok);
    r.c = u32 (v[0]); r.p = u32 (v[1]); r.i = u16 (v[2]); r.r = u16 (v[3]); r.g = u16 (v[4]); r.b = u16 (v[5]);
    for (int k = 0; k < 6; ++k) if (v[k] > (k < 2 ? 0xFFFFFFFFull : 0xFFFFull)) ok = false;
    PyObject *e = PyTuple_GET_ITEM (t, 9);
    for (Py_ssize_t k = 0; k < PyList_GET_SIZE (e); ++k) r.e.push_back (num (PyList_GET_ITEM (e, k), ok));
    return r;
}
static void text (PyObject *t, std::string &w, bool &decodable)
{
    decodable = PyLong_AsLong (PyTuple_GET_ITEM (t, 0)) != 0;
    Py_ssize_t n;
    const char *s = PyUnicode_AsUTF8AndSize (PyTuple_GET_ITEM (t, 1), &n);
    if (s) w.assign (s, n);
    else { PyErr_Clear (); decodable = false; }
}
static PyObject *call (const char *f, PyObject *args)
{
    // everything Python does from here on is done by the simulated process
    sim_set_app (1);
    PyObject *r = PyObject_CallObject (PyDict_GetItemString (ns, f), args);
    sim_set_app (0);
    Py_XDECREF (args);
    return r;
}
static void step (const Step &s, Obs &o)
{
    PyObject *r = nullptr;
    auto str = [] (const std::string &t) { return PyUnicode_DecodeUTF8 (t.data (), t.size (), "replace"); };
    auto flag = [] (bool b) { PyObject *p = b ? Py_True : Py_False; Py_INCREF (p); return p; };
    switch (s.kind)
    {
        case P_NEW: r = call ("new", Py_BuildValue ("(iNNN)", s.slot, str (s.wkt), flag (s.comp), py_recs (s.recs))); break;
        case P_READ: r = call ("read", Py_BuildValue ("(is)", s.slot, s.path.c_str ())); break;
        case P_HEADER: r = call ("header", Py_BuildValue ("(s)", s.path.c_str ())); break;
        case P_WRITE: r = call ("write", Py_BuildValue ("(is)", s.slot, s.path.c_str ())); break;
        case P_WKT: r = call ("setwkt", Py_BuildValue ("(iN)", s.slot, str (s.wkt))); break;
        case P_COMP: r = call ("setcomp", Py_BuildValue ("(iN)", s.slot, flag (s.comp))); break;
        case P_SETREC: r = call ("setrec", Py_BuildValue ("(iKN)", s.slot, (unsigned long long) s.i, py_rec (s.recs[0]))); break;
        case P_SETRECS: r = call ("setrecs", Py_BuildValue ("(iN)", s.slot, py_recs (s.recs))); break;
        case P_GETREC: r = call ("getrec", Py_BuildValue ("(iK)", s.slot, (unsigned long long) s.i)); break;
        case P_LOOK: r = call ("look", Py_BuildValue ("(i)", s.slot)); break;
        case P_EXTRA: r = call ("extra", Py_BuildValue ("(iK)", s.slot, (unsigned long long) s.i)); break;
        default: r = call ("drop", Py_BuildValue ("(i)", s.slot)); break;
    }
    if (!r)
    {
        o.threw = true;
        PyObject *e = PyErr_GetRaisedException ();
        o.type = e ? Py_TYPE (e)->tp_name : "?";
        PyObject *t = e ? PyObject_Str (e) : nullptr;
        const char *u = t ? PyUnicode_AsUTF8 (t) : nullptr;
        if (u) o.what = u;
        PyErr_Clear ();
        Py_XDECREF (t);
        sim_set_app (1); // a traceback may hold the last reference to an object of the extension
        Py_XDECREF (e);
        sim_set_app (0);
        return;
    }
    bool ok = true;
    if (s.kind == P_LOOK)
    {
        o.major = unsigned (num (PyTuple_GET_ITEM (r, 0), ok));
        o.minor = unsigned (num (PyTuple_GET_ITEM (r, 1), ok));
        text (PyTuple_GET_ITEM (r, 2), o.c.wkt, o.wkt_ok);
        o.c.compressed = PyTuple_GET_ITEM (r, 3) == Py_True;
        PyObject *l = PyTuple_GET_ITEM (r, 4);
        for (Py_ssize_t i = 0; i < PyList_GET_SIZE (l); ++i) o.c.r.push_back (rec_from (PyList_GET_ITEM (l, i), ok));
        o.c.extra = o.c.r.empty () ? 0 : unsigned (o.c.r[0].e.size ());
        for (auto &x : o.c.r) if (x.e.size () != o.c.extra) o.columns = "records with different numbers of extra fields";
        o.columns += PyUnicode_AsUTF8 (PyTuple_GET_ITEM (r, 5));
    }
    else if (s.kind == P_HEADER)
    {
        o.major = unsigned (num (PyTuple_GET_ITEM (r, 0), ok));
        o.minor = unsigned (num (PyTuple_GET_ITEM (r, 1), ok));
        text (PyTuple_GET_ITEM (r, 2), o.c.wkt, o.wkt_ok);
        o.c.extra = unsigned (num (PyTuple_GET_ITEM (r, 3), ok));
        o.total = num (PyTuple_GET_ITEM (r, 4), ok);
        o.c.compressed = num (PyTuple_GET_ITEM (r, 5), ok) != 0;
    }
    else if (s.kind == P_GETREC) o.c.r.push_back (rec_from (r, ok));
    else if (s.kind == P_EXTRA) for (Py_ssize_t i = 0; i < PyList_GET_SIZE (r); ++i) o.col.push_back (num (PyList_GET_ITEM (r, i), ok));
    if (!ok) o.columns += " a value of another type or range";
    sim_set_app (1);
    Py_DECREF (r);
    sim_set_app (0);
}
extern "C" __attribute__ ((visibility ("default"))) int node_py (void *v)
{
    Plan &p = *static_cast<Plan *> (v);
    sim_set_app (0);
    PyGILState_STATE g = PyGILState_Ensure ();
    for (auto &s : p.steps)
    {
        p.obs.emplace_back ();
        step (s, p.obs.back ());
        p.obs.back ().live = sim_live ();
        p.obs.back ().fds = sim_fds ();
    }
    PyObject *r = call ("clear", PyTuple_New (0));
    Py_XDECREF (r);
    PyGILState_Release (g);
    sim_set_app (1);
    return 0;
}
