// Declarations only: enough of the C++ library, Python and numpy APIs for clang to type-check the
// repository's extension sources. Meanings are given in frdsv/cpp.py.
#pragma once
typedef unsigned long size_t;
typedef long ptrdiff_t;
typedef long ssize_t;
typedef long Py_ssize_t;
typedef long npy_intp;
typedef unsigned int npy_uint32;
typedef long int64_t; typedef unsigned long uint64_t; typedef int int32_t; typedef unsigned int uint32_t;
typedef double npy_double;
#define NULL __null
#define NAN __builtin_nan("")
#define INFINITY __builtin_inf()
#define M_PI 3.14159265358979323846
#define M_E 2.7182818284590452354
#define HUGE_VAL __builtin_inf()
extern "C" {
double sqrt(double); double exp(double); double log(double); double log2(double); double log1p(double); double expm1(double);
double pow(double, double); double fabs(double); double ceil(double); double floor(double); double fmax(double, double); double fmin(double, double);
double round(double); double trunc(double); double fma(double, double, double); double hypot(double, double); double erf(double); double erfc(double);
double log10(double); double tanh(double); double cbrt(double); double copysign(double, double); double fmod(double, double);
int abs(int);
size_t strlen(const char *); size_t strnlen(const char *, size_t); int memcmp(const void *, const void *, size_t); int strcmp(const char *, const char *); int strncmp(const char *, const char *, size_t);
void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t);
}
bool isnan(double); bool isinf(double); bool isfinite(double); bool signbit(double);
namespace std {
typedef ::size_t size_t; typedef ::ptrdiff_t ptrdiff_t; typedef decltype(nullptr) nullptr_t;
using ::int64_t; using ::uint64_t;
double sqrt(double); double exp(double); double log(double); double log2(double); double log1p(double); double expm1(double);
double pow(double, double); double fabs(double); double abs(double); int abs(int); long abs(long); double ceil(double); double floor(double); double fmax(double, double); double fmin(double, double);
double round(double); double trunc(double); double fma(double, double, double); double hypot(double, double); double erf(double); double erfc(double); double log10(double); double tanh(double); double fmod(double,double); double cbrt(double); double copysign(double,double);
bool isnan(double); bool isinf(double); bool isfinite(double); bool signbit(double);
template <class T> struct initializer_list { const T *p; size_t n; const T *begin() const; const T *end() const; size_t size() const; };
template <class T> struct remove_reference { typedef T type; };
template <class T> struct remove_reference<T &> { typedef T type; };
template <class T> struct remove_reference<T &&> { typedef T type; };
template <class T> typename remove_reference<T>::type &&move(T &&);
template <class T> T &&forward(typename remove_reference<T>::type &);
template <class T> const T &max(const T &, const T &);
template <class T> const T &min(const T &, const T &);
template <class T> T max(initializer_list<T>);
template <class T> T min(initializer_list<T>);
template <class T> const T &clamp(const T &, const T &, const T &);
template <class T> void swap(T &, T &);
template <class T> struct numeric_limits { static T infinity(); static T quiet_NaN(); static T max(); static T min(); static T lowest(); static T epsilon(); };
template <class T> class vector {
public:
  typedef T value_type; typedef T *iterator; typedef const T *const_iterator; typedef size_t size_type;
  vector(); explicit vector(size_t); vector(size_t, const T &); vector(initializer_list<T>); vector(const vector &); vector(vector &&); vector(const T *, const T *);
  vector &operator=(const vector &); vector &operator=(vector &&); vector &operator=(initializer_list<T>);
  ~vector();
  T &operator[](size_t); const T &operator[](size_t) const; T &at(size_t); const T &at(size_t) const;
  size_t size() const; bool empty() const; void reserve(size_t); void resize(size_t); void resize(size_t, const T &); void push_back(const T &); void push_back(T &&); void clear(); void pop_back();
  template <class... A> T &emplace_back(A &&...); void assign(size_t, const T &);
  T &front(); T &back(); const T &front() const; const T &back() const; T *data(); const T *data() const;
  iterator begin(); iterator end(); const_iterator begin() const; const_iterator end() const; const_iterator cbegin() const; const_iterator cend() const;
};
template <class T, size_t N> struct array { T e[N]; T &operator[](size_t); const T &operator[](size_t) const; size_t size() const; T *begin(); T *end(); const T *begin() const; const T *end() const; T *data(); };
template <class... T> class tuple { public: tuple(); tuple(const T &...); template <class... U> tuple(const tuple<U...> &); template <class... U> tuple &operator=(const tuple<U...> &); };
template <class A, class B> struct pair { A first; B second; pair(); pair(const A &, const B &); };
template <class A, class B> pair<A, B> make_pair(A, B);
template <class... T> tuple<T...> make_tuple(T...);
template <class... T> tuple<T &...> tie(T &...);
template <size_t I, class Tp> struct tuple_element; template <class Tp> struct tuple_size;
template <class H, class... R> struct tuple_element<0, tuple<H, R...>> { typedef H type; };
template <size_t I, class H, class... R> struct tuple_element<I, tuple<H, R...>> { typedef typename tuple_element<I - 1, tuple<R...>>::type type; };
template <class... T> struct tuple_size<tuple<T...>> { static constexpr size_t value = sizeof...(T); };
template <size_t I, class... T> typename tuple_element<I, tuple<T...>>::type &get(tuple<T...> &);
template <size_t I, class... T> const typename tuple_element<I, tuple<T...>>::type &get(const tuple<T...> &);
template <size_t I, class... T> typename tuple_element<I, tuple<T...>>::type &&get(tuple<T...> &&);
template <class I, class O> O copy(I, I, O);
template <class I, class T> void fill(I, I, const T &);
template <class I, class T> T accumulate(I, I, T);
template <class I, class T, class F> T accumulate(I, I, T t, F) { return t; }
template <class I, class J, class T> T inner_product(I, I, J, T);
template <class I, class T> void iota(I, I, T);
template <class I, class F> F for_each(I, I, F f) { return f; }
template <class I, class O, class F> O transform(I, I, O o, F) { return o; }
template <class I, class J, class O, class F> O transform(I, I, J, O o, F) { return o; }
template <class I> I max_element(I, I); template <class I> I min_element(I, I);
template <class I, class F> I partition(I i, I, F) { return i; } template <class I> void sort(I, I);
template <class T> class unique_ptr { public: unique_ptr(); unique_ptr(nullptr_t); explicit unique_ptr(T *); unique_ptr(unique_ptr &&); unique_ptr &operator=(unique_ptr &&); unique_ptr &operator=(nullptr_t); T *operator->() const; T &operator*() const; T *get() const; explicit operator bool() const; void reset(T * = nullptr); ~unique_ptr(); };
template <class T> class shared_ptr { public: shared_ptr(); shared_ptr(nullptr_t); shared_ptr(const shared_ptr &); shared_ptr &operator=(const shared_ptr &); T *operator->() const; T &operator*() const; T *get() const; explicit operator bool() const; };
template <class T, class... A> unique_ptr<T> make_unique(A &&...);
template <class T, class... A> shared_ptr<T> make_shared(A &&...);
template <class T> bool operator==(const unique_ptr<T> &, nullptr_t); template <class T> bool operator!=(const unique_ptr<T> &, nullptr_t);
struct string { string(); string(const char *); string(const char *, size_t); size_t size() const; size_t length() const; int compare(const string &) const; const char *c_str() const; bool operator<(const string &) const; bool operator==(const string &) const; };
struct string_view { string_view(); string_view(const char *, size_t); string_view(const char *); size_t size() const; size_t length() const; int compare(string_view) const; };
struct mt19937_64 { mt19937_64(unsigned long = 0); unsigned long operator()(); };
struct mt19937 { mt19937(unsigned int = 0); unsigned int operator()(); };
template <class T = int> struct uniform_int_distribution { uniform_int_distribution(); uniform_int_distribution(T, T); template <class G> T operator()(G &); };
template <class T = double> struct uniform_real_distribution { uniform_real_distribution(); uniform_real_distribution(T, T); template <class G> T operator()(G &); };
struct thread { thread(); template <class F, class... A> explicit thread(F &&, A &&...) {} thread(thread &&); thread &operator=(thread &&); bool joinable() const; void join(); void detach(); void swap(thread &); static unsigned int hardware_concurrency(); };
template <class C> struct back_insert_iterator { back_insert_iterator &operator*(); back_insert_iterator &operator++(); template <class U> back_insert_iterator &operator=(const U &); };
template <class C> back_insert_iterator<C> back_inserter(C &);
template <class I, class O, class D, class G> O sample(I, I, O, D, G &&);
template <class T> struct function;
}
extern "C" {
typedef struct _object { int x; } PyObject;
typedef struct _typeobject { int x; } PyTypeObject;
typedef struct _arr { int x; } PyArrayObject;
typedef struct _descr { int x; } PyArray_Descr;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
struct PyMethodDef { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; };
struct PyModuleDef { int m_base; const char *m_name; const char *m_doc; long m_size; PyMethodDef *m_methods; };
#define PyModuleDef_HEAD_INIT 0
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_NOARGS 4
#define PyMODINIT_FUNC extern "C" PyObject *
#define Py_BEGIN_ALLOW_THREADS {
#define Py_END_ALLOW_THREADS }
extern PyTypeObject PyArray_Type;
extern PyObject *PyExc_ValueError, *PyExc_TypeError, *PyExc_RuntimeError;
extern PyObject *Py_None, *Py_True, *Py_False;
#define Py_RETURN_NONE return Py_None
int PyArg_ParseTuple(PyObject *, const char *, ...);
PyObject *Py_BuildValue(const char *, ...);
void PyErr_SetString(PyObject *, const char *);
PyObject *PyErr_Occurred();
PyObject *PyModule_Create(PyModuleDef *);
PyObject *PyFloat_FromDouble(double); double PyFloat_AsDouble(PyObject *); PyObject *PyBool_FromLong(long); PyObject *PyLong_FromLong(long); long PyLong_AsLong(PyObject *);
PyObject *PyObject_GetIter(PyObject *); PyObject *PyIter_Next(PyObject *);
PyObject *PySequence_Fast(PyObject *, const char *); PyObject *PySequence_GetItem(PyObject *, long); long PySequence_Size(PyObject *); long PySequence_Length(PyObject *);
PyObject *PyTuple_Pack(long, ...);
void Py_DECREF(void *); void Py_XDECREF(void *); void Py_INCREF(void *);
void *PyArray_DATA(PyArrayObject *); char *PyArray_BYTES(PyArrayObject *);
npy_intp PyArray_DIM(PyArrayObject *, int); npy_intp *PyArray_DIMS(PyArrayObject *); int PyArray_NDIM(PyArrayObject *); npy_intp PyArray_SIZE(PyArrayObject *); npy_intp PyArray_STRIDE(PyArrayObject *, int);
npy_intp PyArray_ITEMSIZE(PyArrayObject *); int PyArray_TYPE(PyArrayObject *); int PyArray_IS_C_CONTIGUOUS(PyArrayObject *);
void *PyArray_GETPTR1(PyArrayObject *, npy_intp); void *PyArray_GETPTR2(PyArrayObject *, npy_intp, npy_intp);
PyObject *PyArray_SimpleNew(int, npy_intp *, int); PyObject *PyArray_ZEROS(int, npy_intp *, int, int); PyObject *PyArray_EMPTY(int, npy_intp *, int, int);
PyObject *PyArray_FROM_OTF(PyObject *, int, int);
int PyArray_SETITEM(PyArrayObject *, char *, PyObject *);
void import_array();
}
#define NPY_DOUBLE 12
#define NPY_STRING 18
#define NPY_ARRAY_IN_ARRAY 1
#define NPY_ARRAY_INOUT_ARRAY 2
#define NPY_ARRAY_INOUT_ARRAY2 3
#define NPY_API_VERSION 0x10
#define NPY_1_7_API_VERSION 7
#define Py_SIZE(x) 0
