// C08, bounded: construction from tables, copies, assignment (real constructors, public interface)
#include "core/scattering_matrix.hpp"
#include "vf.hpp"
#include <memory>
#ifndef VF_SYM
using namespace mocc;
struct Table {
    long ng;
    std::vector<double> v;
    double at(long to, long from) const { return v[to * ng + from]; }
};
static Table table(const char *name, long ng)
{
    Table t;
    t.ng      = ng;
    double *b = vf::buffer<double>(name, ng * ng, -1.5, 1.0);
    for (long i = 0; i < ng * ng; i++) t.v.push_back(b[i] > 0 ? b[i] : 0.0);
    // rows and columns that are empty, one-sided or lower triangular
    long shape = vf::range("shape", 0, 5), at = vf::range("line", 0, ng - 1);
    for (long i = 0; i < ng; i++)
        for (long j = 0; j < ng; j++) {
            double &x = t.v[i * ng + j];
            if (shape == 1 && i == at) x = 0;
            if (shape == 2 && j == at) x = 0;
            if (shape == 3 && j > i) x = 0;
            if (shape == 4 && i == at && j <= i) x = 0;
            if (shape == 5 && i == at && j >= i) x = 0;
        }
    return t;
}
static void same(const ScatteringMatrix &m, const Table &t)
{
    vf::check(m.n_group() == t.ng, "number of groups");
    VecF flat = m.as_vector();
    vf::check((long)flat.size() == t.ng * t.ng, "flat length");
    long n = 0;
    for (const auto &row : m) {
        vf::check(&row == &m.to(n), "iteration gives the rows in order");
        n++;
    }
    vf::check(n == t.ng, "one row per group");
    for (long to = 0; to < t.ng; to++) {
        const ScatteringRow &r = m.to(to);
        vf::check(r.min_g >= 0 && r.max_g < t.ng && r.min_g <= to && r.max_g >= to, "row holds the within-group entry");
        vf::check(r.end() - r.begin() == r.max_g - r.min_g + 1, "row length");
        vf::check(m.self_scat(to) == t.at(to, to), "within-group entry");
        for (long from = 0; from < t.ng; from++) {
            bool in = from >= r.min_g && from <= r.max_g;
            vf::check(in || t.at(to, from) == 0, "no transfer is lost");
            if (in) vf::check(r[from] == t.at(to, from) && r.begin()[from - r.min_g] == t.at(to, from), "entries are kept");
            if (in && (from == r.min_g || from == r.max_g)) vf::check(from == to || t.at(to, from) != 0, "rows are no longer than needed");
            vf::check(flat[to * t.ng + from] == t.at(to, from), "flattened table");
        }
    }
    for (long from = 0; from < t.ng; from++) {
        double s = 0;
        for (long to = 0; to < t.ng; to++) s += t.at(to, from);
        vf::check(vf::eq(m.out(from), s), "out-scatter is the sum of the transfers");
        if (s > 0) {
            VecF c = m.out_cdf(from);
            vf::check((long)c.size() == t.ng, "cdf length");
            double p = 0;
            for (long to = 0; to < t.ng; to++) {
                p += t.at(to, from) / s;
                vf::check(vf::eq(c[to], p), "cdf");
            }
            vf::check(vf::eq(c.back(), 1.0), "cdf ends at one");
        }
    }
}
static ArrayB2 array(const Table &t)
{
    ArrayB2 a((int)t.ng, (int)t.ng);
    for (long i = 0; i < t.ng; i++)
        for (long j = 0; j < t.ng; j++) a((int)i, (int)j) = t.at(i, j);
    return a;
}
static std::vector<VecF> rows(const Table &t)
{
    std::vector<VecF> a;
    for (long i = 0; i < t.ng; i++) a.push_back(VecF(t.v.begin() + i * t.ng, t.v.begin() + (i + 1) * t.ng));
    return a;
}
VF_HARNESS(from_array)
{
    Table t = table("t", vf::range("ng", 1, 8));
    same(ScatteringMatrix(array(t)), t);
}
VF_HARNESS(from_vectors)
{
    Table t = table("t", vf::range("ng", 1, 8));
    same(ScatteringMatrix(rows(t)), t);
}
VF_HARNESS(not_square)
{
    Table t = table("t", vf::range("ng", 1, 8));
    auto r  = rows(t);
    long k  = vf::range("k", 0, t.ng - 1);
    if (vf::boolean("longer")) r[k].push_back(0.1);
    else r[k].pop_back();
    vf::check(vf::throws([&]() { ScatteringMatrix m(r); }), "a table that is not square is rejected");
}
VF_HARNESS(copies)
{
    Table t = table("t", vf::range("ng", 1, 8)), u = table("u", vf::range("mg", 1, 8));
    std::unique_ptr<ScatteringMatrix> a(new ScatteringMatrix(array(t)));
    ScatteringMatrix b(*a), c(array(u)), d;
    vf::check(b == *a && !(b != *a), "a copy is equal");
    c = *a;
    d = c;
    d = d;
    vf::check(c == *a && d == *a, "an assigned matrix is equal");
    *a = ScatteringMatrix(array(u));
    same(*a, u);
    vf::check((*a == b) == (t.ng == u.ng && t.v == u.v), "equality");
    a.reset();
    same(b, t);
    same(c, t);
    same(d, t);
    std::vector<ScatteringMatrix> v(3, c);
    v.push_back(b);
    v.resize(9);
    same(v[3], t);
    same(v[1], t);
}
#endif
