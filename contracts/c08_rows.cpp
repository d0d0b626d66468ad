// C08: reading a scattering matrix that is in the state its constructors leave it in
#include "core/scattering_matrix.hpp"
#include "vf.hpp"
using namespace mocc;

// dense(to, from) as the stored rows give it
static double entry(const ScatteringRow *r, long to, long from)
{
    bool in = vf::both(from >= r[to].min_g, from <= r[to].max_g);
    return vf::ite(in, r[to].from[vf::itei(in, from - r[to].min_g, 0)], 0.0);
}
#ifndef VF_SYM
static ArrayB2 dense(long ng)
{
    double *v = vf::buffer<double>("dense", ng * ng, -1.0, 2.0);
    ArrayB2 a((int)ng, (int)ng);
    for (long i = 0; i < ng; i++)
        for (long j = 0; j < ng; j++) a((int)i, (int)j) = v[i * ng + j] > 0 ? v[i * ng + j] : 0.0;
    return a;
}
#endif
static ScatteringMatrix &matrix(bool with_out = false)
{
    ScatteringMatrix &m = vf::object<ScatteringMatrix>("scat");
    long ng = vf::nat("ng", 1, 6);
    vf::assume(ng <= 10000); // ng * ng is formed in int
#ifdef VF_SYM
    m.ng_ = ng;
    ScatteringRow *r = vf::buffer<ScatteringRow>("rows", ng);
    vf_family_(r, 8, "from", 8, [](const void *e, long k) { const ScatteringRow *r = (const ScatteringRow *)e; return (long)r[k].max_g - r[k].min_g + 1; }, r);
    m.rows_._M_impl._M_start = r;
    m.rows_._M_impl._M_finish = m.rows_._M_impl._M_end_of_storage = r + ng;
    vf::assume(vf::forall(0, ng, [&](long k) { return vf::all(r[k].min_g >= 0, r[k].min_g <= k, r[k].max_g >= k, r[k].max_g < ng); }));
    vf::vec(m.out_, "out", ng);
#else
    new (&m) ScatteringMatrix(dense(ng));
#endif
    return m;
}
VF_HARNESS(one_row)
{
    ScatteringMatrix &m = matrix();
    const ScatteringRow *r = &m.rows_[0];
    long to = vf::nat("to", 0, 5), from = vf::nat("from", 0, 5);
    vf::assume(to < m.ng_ && from < m.ng_);
    vf::check(m.n_group() == m.ng_, "number of groups");
    const ScatteringRow &row = m.to(to);
    vf::check(&row == r + to, "row of the group asked for");
    vf::check(row.begin() == r[to].from && row.end() == r[to].from + (r[to].max_g - r[to].min_g + 1), "row extent");
    vf::check(m.self_scat(to) == entry(r, to, to), "within-group entry");
    vf::assume(from >= row.min_g && from <= row.max_g);
    vf::check(row[from] == entry(r, to, from), "entry");
    vf::check(m.out(from) == m.out_[from], "out-scatter");
}
VF_HARNESS(flatten)
{
    ScatteringMatrix &m = matrix();
    const ScatteringRow *r = &m.rows_[0];
    long ng = m.ng_;
    long to = vf::nat("to", 0, 5), from = vf::nat("from", 0, 5);
    vf::assume(to < ng && from < ng);
    alignas(VecF) char slot[sizeof(VecF)];
    VecF &v   = *(VecF *)slot;
    auto at   = [&](bool done) { return v[to * ng + from] == vf::ite(done, entry(r, to, from), 0.0); };
    vf::hint2("as_vector", [&](long a, long b) { return at(vf::any(to < a, vf::both(to == a, from < r[a].min_g + b))); });
    vf::hint1("as_vector", [&](long a) { return at(to < a); });
    new (slot) VecF(m.as_vector());
    vf::check((long)v.size() == ng * ng, "length");
    vf::check(v[to * ng + from] == entry(r, to, from), "dense list holds the table");
}
VF_HARNESS(outscatter_cdf)
{
    ScatteringMatrix &m = matrix();
    const ScatteringRow *r = &m.rows_[0];
    long ng = m.ng_;
    long g  = vf::nat("g", 0, 5), k = vf::nat("k", 0, 5);
    vf::assume(g < ng && k < ng);
    double out = m.out_[g];
    vf::assume(out > 0);
    alignas(VecF) char slot[sizeof(VecF)];
    VecF &c = *(VecF *)slot;
    auto upto = [&](long i) { return vf::sum(0, i, [&](long j) { return entry(r, j, g); }) / out; };
    vf::hint1("out_cdf", [&](long i) { return vf::implies(k < i, c[k] == upto(k + 1)); });
    vf::hint1("out_cdf", [&](long i) { return (long)c.size() == i; });
    vf::hacc1("out_cdf", [&](long i, double v) { return v == upto(i); });
    new (slot) VecF(m.out_cdf(g));
    vf::check((long)c.size() == ng, "length");
    vf::check(vf::eq(c[k], vf::sum(0, k + 1, [&](long i) { return entry(r, i, g); }) / out), "cumulative share of the transfers out of the group");
}
