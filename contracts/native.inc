// Native run-time of the contract language (included by the native build after the harness).
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
#include <fstream>
#include <sstream>
#include <iostream>

namespace vfn {
static uint64_t s;
static uint64_t rnd() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static double u01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
static std::ostringstream trace;
static std::map<std::string, std::vector<std::vector<long double>>> fixed;
static std::map<std::string, int> occ;
static const char *cur = "?";
static long trial = 0;
static std::vector<void *> mem;
static std::vector<bool> mayt;
static char path[512] = "";
static const std::vector<long double> *given(const char *n)
{
    auto it = fixed.find(n);
    int k = occ[n]++;
    if (it == fixed.end() || k >= (int)it->second.size()) return nullptr;
    return &it->second[k];
}
static double nice(double lo, double hi)
{
    switch (rnd() % 8) {
    case 0: return lo;
    case 1: return std::floor(lo + (hi - lo) * u01());
    default: return lo + (hi - lo) * u01();
    }
}
}
extern "C" {
void vf_assume(bool c) { if (!c) throw vf::Skip(); }
void vf_assert(bool c, const char *n) { if (!c) throw vf::Fail{n}; }
void vf_cover(const char *) {}
long vf_int_(const char *n, long lo, long hi, bool)
{
    const std::vector<long double> *g = vfn::given(n);
    long v;
    if (g) v = (long)(*g)[0];
    else { long w = hi - lo + 1; v = (vfn::rnd() % 6 == 0) ? lo : lo + (long)(vfn::rnd() % (uint64_t)(w > 0 ? w : 1)); }
    vfn::trace << n << " " << v << "\n";
    return v;
}
double vf_real_(const char *n, double lo, double hi, int mode)
{
    const std::vector<long double> *g = vfn::given(n);
    double v;
    if (g) v = (*g)[0];
    else { v = vfn::nice(lo, hi); if ((mode & 4) && v <= lo) v = lo + (hi - lo) * (0.05 + 0.9 * vfn::u01()); }
    vfn::trace.precision(17);
    vfn::trace << n << " " << v << "\n";
    return v;
}
bool vf_bool_(const char *n)
{
    const std::vector<long double> *g = vfn::given(n);
    bool v = g ? (*g)[0] != 0 : (vfn::rnd() & 1);
    vfn::trace << n << " " << v << "\n";
    return v;
}
void *vf_object_(const char *, long size)
{
    void *p = calloc(1, size + 64);
    vfn::mem.push_back(p);
    return p;
}
void *vf_buffer_(const char *n, long cnt, long size, int kind, double lo, double hi)
{
    if (cnt < 0 || cnt > 100000000) throw vf::Skip();
    char *p = (char *)vf_object_(n, cnt * size);
    if (!kind) return p;
    const std::vector<long double> *g = vfn::given(n);
    vfn::trace.precision(17);
    vfn::trace << n;
    for (long i = 0; i < cnt; i++) {
        double v = g && i < (long)g->size() ? (*g)[i] : vfn::nice(lo, hi);
        if (kind == 1) ((double *)p)[i] = v;
        if (kind == 4) ((float *)p)[i] = (float)v;
        if (kind == 2) { if (!g) v = lo + (long)(vfn::rnd() % (uint64_t)(hi - lo + 1)); ((int *)p)[i] = (int)v; }
        if (kind == 3) { if (!g) v = lo + (long)(vfn::rnd() % (uint64_t)(hi - lo + 1)); ((long *)p)[i] = (long)v; }
        if (i < 4096) vfn::trace << " " << v;
    }
    vfn::trace << "\n";
    return p;
}
void vf_family_(void *, long, const char *, long, long (*)(const void *, long), const void *) {}
bool vf_forall_(long lo, long hi, bool (*f)(const void *, long), const void *e) { for (long j = lo; j < hi; j++) if (!f(e, j)) return false; return true; }
double vf_sumr_(long lo, long hi, double (*f)(const void *, long), const void *e) { double s = 0; for (long j = lo; j < hi; j++) s += f(e, j); return s; }
long vf_sumi_(long lo, long hi, long (*f)(const void *, long), const void *e) { long s = 0; for (long j = lo; j < hi; j++) s += f(e, j); return s; }
void vf_loose_() {}
void vf_hint_(const char *, int, int, const void *, const void *) {}
void vf_may_throw(bool c) { vfn::mayt.push_back(c); }
void *vf_snapshot_(const void *p, long n) { void *q = vf_object_("", n); if (n) memcpy(q, p, n); return q; }
void vf_havoc_(void *, long, long, long) {}
void vf_term_(long) {}
bool vf_throws_(void (*f)(const void *), const void *e)
{
    try { f(e); } catch (vf::Skip &) { throw; } catch (vf::Fail &) { throw; } catch (...) { return true; }
    return false;
}
bool vf_implies_(bool a, bool b) { return !a || b; }
bool vf_and_(bool a, bool b) { return a && b; }
bool vf_or_(bool a, bool b) { return a || b; }
double vf_iter_(bool c, double a, double b) { return c ? a : b; }
long vf_itei_(bool c, long a, long b) { return c ? a : b; }
bool vf_eq_(double a, double b)
{
    if (a == b) return true;
    double m = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b);
    return std::fabs(a - b) <= 1e-8 * m + 1e-11;
}
long vf_div_(long a, long b) { return a / b; }
long vf_mod_(long a, long b) { return a % b; }
}
static FILE *vfn_out = stdout;      // the code under test prints to standard output: results go to a copy of it
static void vfn_emit(const char *what)
{
    std::string t = vfn::trace.str();
    FILE *f = vfn::path[0] ? fopen(vfn::path, "w") : nullptr;
    if (f) { fprintf(f, "%s", t.c_str()); fclose(f); }
    fprintf(vfn_out, "FAIL harness=%s trial=%ld obligation=%s\n", vfn::cur, vfn::trial, what);
    fflush(vfn_out);
}
static void vfn_sig(int sg)
{
    static char b[64];
    if (sg == SIGALRM) _exit(2);      // out of time: no result
    snprintf(b, sizeof b, "crash (signal %d)", sg);
    vfn_emit(b);
    _exit(3);
}
int main(int argc, char **argv)
{
    // usage: prog harness trials seed outfile [inputfile]
    if (argc < 5) {
        for (vf::Reg *r = vf::Reg::head(); r; r = r->next) printf("%s\n", r->name);
        return 0;
    }
    long n = atol(argv[2]);
    uint64_t seed = strtoull(argv[3], 0, 10);
    snprintf(vfn::path, sizeof vfn::path, "%s", argv[4]);
    if (argc > 5) {
        std::ifstream in(argv[5]);
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream is(line);
            std::string k; is >> k;
            std::vector<long double> v; long double x;
            while (is >> x) v.push_back(x);
            vfn::fixed[k].push_back(v);
        }
    }
    vfn_out = fdopen(dup(1), "w");
    if (!freopen("/dev/null", "w", stdout)) return 2;
    signal(SIGSEGV, vfn_sig); signal(SIGABRT, vfn_sig); signal(SIGFPE, vfn_sig); signal(SIGBUS, vfn_sig); signal(SIGALRM, vfn_sig);
    for (vf::Reg *r = vf::Reg::head(); r; r = r->next) {
        if (strcmp(argv[1], r->name)) continue;
        vfn::cur = r->name;
        long done = 0, skipped = 0;
        const char *lim = getenv("VF_SECS");
        double secs = lim ? atof(lim) : 1e9;
        time_t t0 = time(nullptr);
        for (long t = 0; done < n && t < n * 50; t++) {
            if (done > 0 && difftime(time(nullptr), t0) > secs) break;
            vfn::s = seed * 1000003ull + t * 7919ull + 17;
            vfn::trial = t;
            vfn::trace.str(""); vfn::occ.clear(); vfn::mayt.clear();
            alarm(100);
            try {
                r->f();
                done++;
            } catch (vf::Skip &) { skipped++; }
            catch (vf::Fail &f) { vfn_emit(f.what.c_str()); return 3; }
            catch (std::exception &e) {
                bool ok = false;
                for (bool b : vfn::mayt) ok = ok || b;
                if (!ok) { vfn_emit((std::string("exception ") + e.what()).c_str()); return 3; }
                done++;
            } catch (...) {
                bool ok = false;
                for (bool b : vfn::mayt) ok = ok || b;
                if (!ok) { vfn_emit("exception"); return 3; }
                done++;
            }
            alarm(0);
            for (void *p : vfn::mem) free(p);
            vfn::mem.clear();
        }
        fprintf(vfn_out, "OK harness=%s trials=%ld skipped=%ld\n", r->name, done, skipped);
    }
    fclose(vfn_out);
    return 0;
}
