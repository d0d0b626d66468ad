// Contract language.  The same harness text is used twice: symbolically (compiled to LLVM IR and
// executed by the verifier, -DVF_SYM) and natively (compiled with the code under test and run on
// concrete inputs, to replay counterexamples and to stand in, within a bound, where no proof was found).
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>

extern "C" {
void vf_assume(bool);
void vf_assert(bool, const char *);
void vf_cover(const char *);
long vf_int_(const char *, long lo, long hi, bool upper);
double vf_real_(const char *, double lo, double hi, int mode);
bool vf_bool_(const char *);
void *vf_buffer_(const char *, long n, long size, int kind, double lo, double hi);
void *vf_object_(const char *, long size);
void *vf_frame_(long size, long last);      // symbolic only: a local variable of a function being executed, by its size
void vf_family_(void *outer, long foff, const char *name, long size, long (*len)(const void *, long), const void *env);
bool vf_forall_(long, long, bool (*)(const void *, long), const void *);
double vf_sumr_(long, long, double (*)(const void *, long), const void *);
long vf_sumi_(long, long, long (*)(const void *, long), const void *);
void vf_loose_();
void vf_hint_(const char *fn, int depth, int kind, const void *f, const void *env);
void vf_may_throw(bool);
void *vf_snapshot_(const void *, long bytes);
void vf_havoc_(void *, long lo, long hi, long size);
void vf_term_(long);
bool vf_throws_(void (*)(const void *), const void *);
bool vf_implies_(bool, bool);
bool vf_and_(bool, bool);
bool vf_or_(bool, bool);
double vf_iter_(bool, double, double);
long vf_itei_(bool, long, long);
bool vf_eq_(double, double);
long vf_div_(long, long);
long vf_mod_(long, long);
}

namespace vf {
struct Skip {};
struct Fail { std::string what; };

// ---- inputs.  nat: unbounded above (native runs sample up to nhi); range: bounded in both modes
inline long nat(const char *n, long lo, long nhi) { return vf_int_(n, lo, nhi, false); }
inline long range(const char *n, long lo, long hi) { return vf_int_(n, lo, hi, true); }
// real: any value (sampled in lo..hi natively); positive: > 0; nonneg: >= 0; within: lo <= x <= hi
inline double real(const char *n, double lo = -3, double hi = 3) { return vf_real_(n, lo, hi, 0); }
inline double positive(const char *n, double hi = 3) { return vf_real_(n, 0.0, hi, 1 | 4); }
inline double nonneg(const char *n, double hi = 3) { return vf_real_(n, 0.0, hi, 1); }
inline double within(const char *n, double lo, double hi) { return vf_real_(n, lo, hi, 3); }
inline bool boolean(const char *n) { return vf_bool_(n); }

template <class T> struct Kind { static const int k = 0; };
template <> struct Kind<double> { static const int k = 1; };
template <> struct Kind<float> { static const int k = 4; };
template <> struct Kind<int> { static const int k = 2; };
template <> struct Kind<unsigned> { static const int k = 2; };
template <> struct Kind<long> { static const int k = 3; };
template <> struct Kind<unsigned long> { static const int k = 3; };

template <class T> T *buffer(const char *n, long cnt, double lo = -3, double hi = 3)
{
    return (T *)vf_buffer_(n, cnt, sizeof(T), Kind<T>::k, lo, hi);
}
template <class T> T &object(const char *n) { return *(T *)vf_object_(n, sizeof(T)); }

// ---- logic
template <class F> bool tb(const void *e, long j) { return (*(const F *)e)(j); }
template <class F> double tr(const void *e, long j) { return (*(const F *)e)(j); }
template <class F> long ti(const void *e, long j) { return (*(const F *)e)(j); }
template <class F> bool forall(long lo, long hi, const F &f) { return vf_forall_(lo, hi, &tb<F>, &f); }
template <class F> double sum(long lo, long hi, const F &f) { return vf_sumr_(lo, hi, &tr<F>, &f); }
template <class F> long sumi(long lo, long hi, const F &f) { return vf_sumi_(lo, hi, &ti<F>, &f); }
inline bool implies(bool a, bool b) { return vf_implies_(a, b); }
inline bool both(bool a, bool b) { return vf_and_(a, b); }
inline bool all() { return true; }
template <class... A> bool all(bool a, A... r) { return vf_and_(a, all(r...)); }
inline bool any() { return false; }
template <class... A> bool any(bool a, A... r) { return vf_or_(a, any(r...)); }
inline double ite(bool c, double a, double b) { return vf_iter_(c, a, b); }
inline long itei(bool c, long a, long b) { return vf_itei_(c, a, b); }
// equality of reals: exact in the proof, relative tolerance when run natively
inline bool eq(double a, double b) { return vf_eq_(a, b); }
inline long idiv(long a, long b) { return vf_div_(a, b); }
inline long imod(long a, long b) { return vf_mod_(a, b); }

inline void assume(bool c) { vf_assume(c); }
inline void check(bool c, const char *n) { vf_assert(c, n); }

// ---- loop hints: candidate invariants; depth = number of loop counters passed (innermost last)
template <class F> bool h1(const void *e, long a) { return (*(const F *)e)(a); }
template <class F> bool h2(const void *e, long a, long b) { return (*(const F *)e)(a, b); }
template <class F> bool h3(const void *e, long a, long b, long c) { return (*(const F *)e)(a, b, c); }
template <class F> bool a1(const void *e, long a, double v) { return (*(const F *)e)(a, v); }
template <class F> bool a2(const void *e, long a, long b, double v) { return (*(const F *)e)(a, b, v); }
template <class F> bool a3(const void *e, long a, long b, long c, double v) { return (*(const F *)e)(a, b, c, v); }
template <class F> bool i1(const void *e, long a, long v) { return (*(const F *)e)(a, v); }
template <class F> bool i2(const void *e, long a, long b, long v) { return (*(const F *)e)(a, b, v); }
// the contracts of this harness fix more than the property says (the order of calls, who is asked): a refuted obligation
// without a failing run is no violation
inline void loose() { vf_loose_(); }
// the hints for a function are complete: nothing is guessed about integers in memory
inline void plain(const char *fn) { vf_hint_(fn, 0, 9, nullptr, nullptr); }
template <class F> void hint1(const char *fn, const F &f) { vf_hint_(fn, 1, 0, (const void *)&h1<F>, &f); }
template <class F> void hint2(const char *fn, const F &f) { vf_hint_(fn, 2, 0, (const void *)&h2<F>, &f); }
template <class F> void hint3(const char *fn, const F &f) { vf_hint_(fn, 3, 0, (const void *)&h3<F>, &f); }
template <class F> void hacc1(const char *fn, const F &f) { vf_hint_(fn, 1, 1, (const void *)&a1<F>, &f); }
template <class F> void hacc2(const char *fn, const F &f) { vf_hint_(fn, 2, 1, (const void *)&a2<F>, &f); }
template <class F> void hacc3(const char *fn, const F &f) { vf_hint_(fn, 3, 1, (const void *)&a3<F>, &f); }
template <class F> void hint_int1(const char *fn, const F &f) { vf_hint_(fn, 1, 2, (const void *)&i1<F>, &f); }
template <class F> void hint_int2(const char *fn, const F &f) { vf_hint_(fn, 2, 2, (const void *)&i2<F>, &f); }

// does f() throw?
template <class F> void tv(const void *e) { (*(const F *)e)(); }
template <class F> bool throws(const F &f) { return vf_throws_(&tv<F>, &f); }

// ---- containers
template <class T> void vec(std::vector<T> &v, const char *name, long n, double lo = -3, double hi = 3)
{
#ifdef VF_SYM
    T *p = buffer<T>(name, n, lo, hi);
    v._M_impl._M_start = p;
    v._M_impl._M_finish = p + n;
    v._M_impl._M_end_of_storage = p + n;
#else
    T *p = buffer<T>(name, n, lo, hi);
    v = std::vector<T>(p, p + n);
#endif
}
template <class T> const T *snapshot(const T *p, long n) { return (const T *)vf_snapshot_(p, n * sizeof(T)); }
template <class T> const T *snapshot(const std::vector<T> &v) { return snapshot(v.data(), v.size()); }

#ifdef BZ_ARRAY_H
template <class T> void arr1(blitz::Array<T, 1> &a, const char *name, long n, double lo = -3, double hi = 3)
{
#ifdef VF_SYM
    a.data_      = buffer<T>(name, n, lo, hi);
    a.length_[0] = n;
    a.stride_[0] = 1;
    a.storage_.ordering_[0]         = 0;
    a.storage_.ascendingFlag_[0]    = true;
    a.storage_.base_[0]             = 0;
    a.zeroOffset_                   = 0;
    a.block_                        = nullptr;
#else
    a.resize(n);
    T *p = buffer<T>(name, n, lo, hi);
    for (long i = 0; i < n; i++) a((int)i) = p[i];
#endif
}
template <class T>
void arr2(blitz::Array<T, 2> &a, const char *name, long n, long m, double lo = -3, double hi = 3)
{
#ifdef VF_SYM
    a.data_      = buffer<T>(name, n * m, lo, hi);
    a.length_[0] = n;
    a.length_[1] = m;
    a.stride_[0] = m;
    a.stride_[1] = 1;
    a.storage_.ordering_[0]      = 1;
    a.storage_.ordering_[1]      = 0;
    a.storage_.ascendingFlag_[0] = true;
    a.storage_.ascendingFlag_[1] = true;
    a.storage_.base_[0]          = 0;
    a.storage_.base_[1]          = 0;
    a.zeroOffset_                = 0;
    a.block_                     = nullptr;
#else
    a.resize(n, m);
    T *p = buffer<T>(name, n * m, lo, hi);
    for (long i = 0; i < n; i++)
        for (long j = 0; j < m; j++) a((int)i, (int)j) = p[i * m + j];
#endif
}
#endif

struct Reg {
    const char *name;
    void (*f)();
    Reg *next;
    static Reg *&head()
    {
        static Reg *h = nullptr;
        return h;
    }
    Reg(const char *n, void (*g)()) : name(n), f(g), next(head()) { head() = this; }
};
}

#ifdef VF_SYM
#define VF_HARNESS(n) extern "C" void vfh_##n()
#define VF_CONTRACT(n, target) extern "C" const char vf_ctname_##n[]; const char vf_ctname_##n[] = target;
#else
#define VF_HARNESS(n)                        \
    extern "C" void vfh_##n();               \
    static vf::Reg vfreg_##n(#n, &vfh_##n);  \
    extern "C" void vfh_##n()
#endif
