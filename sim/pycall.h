/* Calls through the Python interface: the module is built into this program, the interpreter
   runs inside it.  What is handed over and what comes back are Python objects. */
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#include <numpy/arrayobject.h>
extern "C" PyObject *PyInit_xrtm(void);
static PyObject *py_class = 0; static std::string py_bad; static uint64_t py_calls = 0;
static void *py_import() { import_array1(0); return (void *) 1; }
static void py_start() {
     if (py_class) return;
     PyImport_AppendInittab("xrtm", PyInit_xrtm);
     PyConfig cf; PyConfig_InitIsolatedConfig(&cf); cf.install_signal_handlers = 0; cf.use_hash_seed = 1; cf.hash_seed = 0; cf.site_import = 1; cf.write_bytecode = 0;
     PyConfig_SetBytesString(&cf, &cf.program_name, "/usr/bin/python3"); PyStatus s = Py_InitializeFromConfig(&cf); PyConfig_Clear(&cf);
     if (PyStatus_Exception(s)) { fprintf(stderr, "python does not start: %s\n", s.err_msg ? s.err_msg : "?"); exit(2); }
     if (!py_import()) { PyErr_Print(); exit(2); }
     PyObject *m = PyImport_ImportModule("xrtm"); if (!m) { PyErr_Print(); exit(2); }
     py_class = PyObject_GetAttrString(m, "xrtm"); if (!py_class) { PyErr_Print(); exit(2); }
     PyObject *g = PyImport_ImportModule("gc"); PyObject *r = PyObject_CallMethod(g, "disable", 0); Py_XDECREF(r); Py_DECREF(g); Py_DECREF(m);
}
template <class T> struct NpyT { static constexpr int t = NPY_DOUBLE; }; template <> struct NpyT<int> { static constexpr int t = NPY_INT; };
struct PyCall {
     const char *name; std::vector<PyObject *> args; std::vector<std::pair<PyObject *, std::string>> watch; PyObject *res = 0, *wrong = 0; int wrong_at = 0; uint64_t k;
     PyCall(const char *n) : name(n) { k = py_calls++; }
     ~PyCall() { for (auto &w : watch) Py_DECREF(w.first); Py_XDECREF(res); }
     void bad(const std::string &s) { if (py_bad.empty()) py_bad = std::string(name ? name : "xrtm") + ": " + s; }
     void i(long x) { args.push_back(PyLong_FromLong(x)); }
     void d(double x) { args.push_back(PyFloat_FromDouble(x)); }
     void s(const char *x) { args.push_back(PyUnicode_FromString(x ? x : "no such name")); }
     template <class M, class F> void mask_(unsigned x, F f) { PyObject *l = PyList_New(0); for (int b = 0; b < 32; ++b) if (x & (1u << b)) { const char *q = f((M) (1u << b)); PyObject *o = PyUnicode_FromString(q ? q : "no such name"); PyList_Append(l, o); Py_DECREF(o); } args.push_back(l); }
     template <class R, class M> void mask(int x, R (*f)(M)) { mask_<M>((unsigned) x, f); }
     void kernels(int n, enum xrtm_kernel_type *v) { PyObject *l = PyList_New(0); for (int b = 0; b < n; ++b) { const char *q = xrtm_kernel_value_to_name(v[b]); PyObject *o = PyUnicode_FromString(q ? q : "no such name"); PyList_Append(l, o); Py_DECREF(o); } args.push_back(l); }
     template <class X, class T> static void walk(X t, T *p, const npy_intp *n, const npy_intp *st, int d, bool to) {   /* st: strides of the array in elements */
          if constexpr (std::is_pointer<typename std::remove_pointer<X>::type>::value) { for (npy_intp q = 0; q < n[d]; ++q) walk(t[q], p + q * st[d], n, st, d + 1, to); }
          else { for (npy_intp q = 0; q < n[d]; ++q) { if (to) p[q * st[d]] = t[q]; else t[q] = p[q * st[d]]; } }
     }
     template <class T, int R, class X> void a(X t, std::array<int, R> dims) {
          npy_intp n[R], st[R]; bool empty = false; for (int q = 0; q < R; ++q) { n[q] = std::max(0, dims[q]); if (!n[q]) empty = true; }
          if (!t && NpyT<T>::t == NPY_DOUBLE) { Py_INCREF(Py_None); args.push_back(Py_None); return; }
          int how = k % 3;      /* rows after rows, columns after columns, every other element of a larger array */
          PyObject *o = PyArray_New(&PyArray_Type, R, n, NpyT<T>::t, 0, 0, 0, how == 1 ? NPY_ARRAY_F_CONTIGUOUS : 0, 0);
          if (how == 2) { npy_intp m[R]; for (int q = 0; q < R; ++q) m[q] = n[q]; m[R - 1] = 2 * n[R - 1] + 1; Py_DECREF(o); PyObject *big = PyArray_ZEROS(R, m, NpyT<T>::t, 0);
               npy_intp bs[R]; for (int q = 0; q < R; ++q) bs[q] = PyArray_STRIDE((PyArrayObject *) big, q); bs[R - 1] *= 2;
               o = PyArray_New(&PyArray_Type, R, n, NpyT<T>::t, bs, PyArray_DATA((PyArrayObject *) big), 0, NPY_ARRAY_WRITEABLE | NPY_ARRAY_ALIGNED, 0); PyArray_SetBaseObject((PyArrayObject *) o, big); }
          for (int q = 0; q < R; ++q) st[q] = PyArray_STRIDE((PyArrayObject *) o, q) / (npy_intp) sizeof(T);
          if (!t) { for (npy_intp q = 0; q < n[0]; ++q) ((T *) PyArray_DATA((PyArrayObject *) o))[q * st[0]] = (T) bm.mc; } else if (!empty) walk(t, (T *) PyArray_DATA((PyArrayObject *) o), n, st, 0, true);
          if (k % 23 == 0 && !wrong) {      /* one too many somewhere, or one dimension too many */
               npy_intp m[R + 1]; for (int q = 0; q < R; ++q) m[q] = n[q]; m[R] = 1; bool more = k % 2; if (!more) m[(k / 46) % R]++;
               wrong = PyArray_ZEROS(R + more, m, NpyT<T>::t, 0); wrong_at = (int) args.size();
          }
          args.push_back(o); Py_INCREF(o); watch.push_back({o, "argument " + std::to_string(args.size())});
     }
     PyObject *tuple() { PyObject *t = PyTuple_New(args.size()); for (size_t q = 0; q < args.size(); ++q) PyTuple_SET_ITEM(t, q, args[q]); args.clear(); return t; }
     bool failed() {      /* an exception is the error; one that the interpreter itself raises because of the module is not */
          PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b);
          if (!t) { bad("neither a value nor an exception comes back"); return false; }
          if (PyErr_GivenExceptionMatches(t, PyExc_SystemError) || PyErr_GivenExceptionMatches(t, PyExc_AttributeError)) { PyObject *s = v ? PyObject_Str(v) : 0; bad(s ? PyUnicode_AsUTF8(s) : "a system error"); Py_XDECREF(s); }
          if (getenv("SIM_LOUD")) { PyObject *s = v ? PyObject_Str(v) : 0; fprintf(stderr, "%s: %s\n", name ? name : "xrtm", s ? PyUnicode_AsUTF8(s) : "?"); Py_XDECREF(s); } Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b); return false;
     }
     void refs() { for (auto &w : watch) if (Py_REFCNT(w.first) != 1) bad(w.second + " is still referred to after the call"); }
     bool create(void *d) {
          py_start(); *(PyObject **) d = 0; PyObject *t = tuple(); PyObject *o = PyObject_CallObject(py_class, t); Py_DECREF(t);
          if (!o) return failed(); if (PyErr_Occurred()) { bad("an exception is left behind"); PyErr_Clear(); } *(PyObject **) d = o; return true;
     }
     bool call(void *d, int n) {
          PyObject *o = *(PyObject **) d, *f = PyObject_GetAttrString(o, name); if (!f) return failed();
          Py_ssize_t before = Py_REFCNT(o); PyObject *t = tuple();
          if (wrong) {
               PyObject *w = PyTuple_New(PyTuple_GET_SIZE(t)); for (Py_ssize_t q = 0; q < PyTuple_GET_SIZE(t); ++q) { PyObject *x = q == wrong_at ? wrong : PyTuple_GET_ITEM(t, q); Py_INCREF(x); PyTuple_SET_ITEM(w, q, x); }
               PyObject *x = PyObject_CallObject(f, w); Py_DECREF(w); if (x) { Py_DECREF(x); bad("an array of another shape is accepted as argument " + std::to_string(wrong_at + 1)); } else failed();
               if (Py_REFCNT(wrong) != 1) bad("a refused array is still referred to"); Py_DECREF(wrong); wrong = 0;
          }
          res = PyObject_CallObject(f, t); Py_DECREF(t);
          if (Py_REFCNT(o) != before) bad("the instance is still referred to after the call");
          Py_DECREF(f); refs(); if (!res) return failed();
          if (PyErr_Occurred()) { bad("an exception is left behind"); PyErr_Clear(); }
          if (n > 1 && (!PyTuple_Check(res) || PyTuple_GET_SIZE(res) != n)) { bad("the number of values returned"); return false; }
          if (n > 0) for (int q = 0; q < n; ++q) { PyObject *x = n > 1 ? PyTuple_GET_ITEM(res, q) : res; if (PyArray_Check(x) && Py_REFCNT(x) != 1) bad("value " + std::to_string(q) + " can never be released"); }
          one = n == 1; return true;
     }
     bool one = false;
     PyObject *item(int q) { return one ? res : PyTuple_GET_ITEM(res, q); }
     void num(PyObject *x, int *v) { if (!PyLong_Check(x)) bad("not a whole number"); *v = (int) PyLong_AsLong(x); PyErr_Clear(); }
     void num(PyObject *x, double *v) { if (!PyFloat_Check(x)) bad("not a number"); *v = PyFloat_AsDouble(x); PyErr_Clear(); }
     template <class T> void o(int q, T *v) { num(item(q), v); }
     template <class T> T value() { T v = 0; num(res, &v); return v; }
     int kernel() { if (!PyUnicode_Check(res)) { bad("not a name"); return -1; } return (int) xrtm_kernel_name_to_value(PyUnicode_AsUTF8(res)); }
     template <class T, int R, class X> void oa(int q, X t, std::array<int, R> dims) {
          PyObject *x = item(q); if (!PyArray_Check(x)) { bad("value " + std::to_string(q) + " is no array"); return; } PyArrayObject *y = (PyArrayObject *) x;
          if (PyArray_NDIM(y) != R || PyArray_TYPE(y) != NpyT<T>::t) { bad("value " + std::to_string(q) + " has another rank or type"); return; }
          npy_intp n[R], st[R]; for (int z = 0; z < R; ++z) { n[z] = PyArray_DIM(y, z); if (n[z] != std::max(0, dims[z])) { bad("value " + std::to_string(q) + " has another shape"); return; } st[z] = PyArray_STRIDE(y, z) / (npy_intp) sizeof(T); if (!n[z]) return; }
          if (t) walk(t, (T *) PyArray_DATA(y), n, st, 0, false);
     }
};
static int py_xrtm_destroy(xrtm_data *d) { PyObject *o = *(PyObject **) d; *(PyObject **) d = 0; if (!o) return XRTM_INT_ERROR; if (Py_REFCNT(o) != 1 && py_bad.empty()) py_bad = "the instance can never be released"; Py_DECREF(o); if (PyErr_Occurred()) { PyErr_Clear(); return XRTM_INT_ERROR; } return 0; }
static xrtm_data *py_raw(void *d) { PyObject *o = *(PyObject **) d; return (xrtm_data *) ((char *) o + sizeof(PyObject)); }
#include "bindpy.h"
