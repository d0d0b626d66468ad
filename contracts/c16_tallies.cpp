// C16: scoring, committing and reading Monte Carlo tallies
#include <cassert>
#include <cmath>
#include <memory>
#include <vector>
#include "sweepers/mc/tally_scalar.hpp"
#include "sweepers/mc/tally_spatial.hpp"
#include "vf.hpp"
using namespace mocc;
using namespace mocc::mc;

VF_HARNESS(scalar_empty)
{
    TallyScalar t;
    vf::check(t.sum_ == 0 && t.sum_square_ == 0 && t.weight_ == 0, "a new tally holds nothing");
    double v = vf::real("v"), w = vf::positive("w");
    t.score(v);
    t.add_weight(w);
    vf::assume(w != 1);
    vf::check(vf::eq(t.get().first, v / w), "mean of the first score");
    t.reset();
    vf::check(t.sum_ == 0 && t.sum_square_ == 0 && t.weight_ == 0, "reset forgets everything");
}
static TallyScalar scalar()
{
    TallyScalar t;
    t.sum_ = vf::real("sum");
    t.sum_square_ = vf::nonneg("square");
    t.weight_ = vf::nonneg("weight");
    return t;
}
VF_HARNESS(scalar_score)
{
    TallyScalar t = scalar(), o = t;
    double v = vf::real("v"), w = vf::nonneg("w");
    t.score(v);
    vf::check(t.sum_ == o.sum_ + v, "sum of the scores");
    vf::check(t.sum_square_ == o.sum_square_ + v * v, "sum of the squares");
    vf::check(t.weight_ == o.weight_, "a score has no weight of its own");
    t.add_weight(w);
    vf::check(t.weight_ == o.weight_ + w && t.sum_ == o.sum_ + v && t.sum_square_ == o.sum_square_ + v * v, "weight");
    t.reset();
    vf::check(t.sum_ == 0 && t.sum_square_ == 0 && t.weight_ == 0, "reset forgets everything");
}
VF_HARNESS(scalar_result)
{
    TallyScalar t = scalar();
    // at least two units of weight and scores that differ
    vf::assume(t.weight_ > 1 && t.sum_ > 0);
    vf::assume(t.sum_square_ * t.weight_ > t.sum_ * t.sum_);
    TallyScalar o = t;
    auto r = ((const TallyScalar &)t).get();
    double mean = o.sum_ / o.weight_, var = (o.sum_square_ / o.weight_ - mean * mean) / (o.weight_ - 1);
    vf::check(vf::eq(r.first, mean), "mean");
    vf::check(r.second >= 0, "deviation is not negative");
    vf::check(vf::eq(r.second * r.second * mean * mean, var), "relative deviation of the mean");
}

struct Spatial {
    long n;
    VecF norm;
    TallySpatial *t;
    const double *score, *data;
#ifdef VF_SYM
    Spatial()
    {
        n = vf::nat("n", 1, 8);
        vf::assume(n <= 1000000);
        vf::vec(norm, "norm", n);
        t = &vf::object<TallySpatial>("tally");
        t->nreg_ = n;
        *(const VecF **)((char *)&t->data_ - sizeof(void *)) = &norm;
        vf::vec(t->data_, "data", n);
        vf::vec(t->realization_scores_, "scores", n);
        t->weight_ = vf::positive("weight");
        vf::assume(t->n_ >= 0 && t->n_ < 1000000);
        vf::assume(vf::forall(0, n, [&](long i) { return norm[i] > 0; }));
        data = (const double *)vf::snapshot(t->data_.data(), n);
        score = vf::snapshot(t->realization_scores_.data(), n);
    }
#else
    std::unique_ptr<TallySpatial> own;
    Spatial()
    {
        n = vf::nat("n", 1, 8);
        double *p = vf::buffer<double>("norm", n, 0.1, 3);
        for (long i = 0; i < n; i++) norm.push_back(fabs(p[i]) + 0.05);
        own.reset(new TallySpatial(norm));
        t = own.get();
        t->n_ = vf::range("count", 0, 5);
        t->weight_ = vf::positive("weight");
        double *d = vf::buffer<double>("data", 2 * n, 0, 3), *s = vf::buffer<double>("scores", n);
        for (long i = 0; i < n; i++) {
            t->data_[i] = {d[2 * i], fabs(d[2 * i + 1])};
            t->realization_scores_[i] = s[i];
        }
        data = vf::snapshot(d, 2 * n);
        for (long i = 0; i < n; i++) ((double *)data)[2 * i + 1] = t->data_[i].second;
        score = vf::snapshot(t->realization_scores_);
    }
#endif
};
static double score_of(const Spatial &s, long j, long i, double v) { return vf::ite(i == j, s.score[j] + v, s.score[j]); }
VF_HARNESS(spatial_score)
{
    Spatial s;
    TallySpatial &t = *s.t;
    long i = vf::nat("i", 0, 7), j = vf::nat("j", 0, 7);
    vf::assume(i < s.n && j < s.n);
    double v = vf::real("v"), w0 = t.weight_, w = vf::real("w");
    int n0 = t.n_;
    t.score(i, v);
    vf::check(t.realization_scores_[j] == score_of(s, j, i, v), "only the scored bin grows, by the score");
    vf::check(t.data_[j].first == s.data[2 * j] && t.data_[j].second == s.data[2 * j + 1], "committed realizations stay");
    vf::check(t.weight_ == w0 && t.n_ == n0, "neither weight nor count change");
    t.add_weight(w);
    vf::check(t.weight_ == w0 + w && t.n_ == n0, "weight");
    vf::check(t.realization_scores_[j] == score_of(s, j, i, v), "weight changes no score");
}
VF_HARNESS(spatial_commit)
{
    Spatial s;
    TallySpatial &t = *s.t;
    long j = vf::nat("j", 0, 7);
    vf::assume(j < s.n);
    double w = t.weight_, v = s.score[j] * (1.0 / w);
    int n0 = t.n_;
    vf::hint1("commit_realization", [&](long k) { return vf::implies(j < k, vf::all(t.data_[j].first == s.data[2 * j] + v, t.data_[j].second == s.data[2 * j + 1] + v * v, t.realization_scores_[j] == 0)); });
    vf::hint1("commit_realization", [&](long k) { return vf::implies(j >= k, vf::all(t.data_[j].first == s.data[2 * j], t.data_[j].second == s.data[2 * j + 1], t.realization_scores_[j] == s.score[j])); });
    t.commit_realization();
    vf::check(vf::eq(t.data_[j].first, s.data[2 * j] + s.score[j] / w), "sum of the realizations");
    vf::check(vf::eq(t.data_[j].second, s.data[2 * j + 1] + (s.score[j] / w) * (s.score[j] / w)), "sum of their squares");
    vf::check(t.realization_scores_[j] == 0 && t.weight_ == 0, "the next realization starts empty");
    vf::check(t.n_ == n0 + 1, "one more realization");
}
VF_HARNESS(spatial_reset)
{
    Spatial s;
    TallySpatial &t = *s.t;
    long j = vf::nat("j", 0, 7);
    vf::assume(j < s.n);
    vf::hint1("reset", [&](long k) { return vf::implies(j < k, vf::both(t.data_[j].first == 0, t.data_[j].second == 0)); });
    vf::hint1("reset", [&](long k) { return vf::implies(j < k, t.realization_scores_[j] == 0); });
    t.reset();
    vf::check(t.data_[j].first == 0 && t.data_[j].second == 0, "no realizations");
    vf::check(t.realization_scores_[j] == 0, "no scores");
    vf::check(t.weight_ == 0 && t.n_ == 0, "no weight, no count");
}
typedef std::vector<std::pair<real_t, real_t>> Result;
VF_HARNESS(spatial_result)
{
    Spatial s;
    TallySpatial &t = *s.t;
    long j = vf::nat("j", 0, 7);
    vf::assume(j < s.n);
    vf::assume(t.n_ > 1);
    double n = t.n_, a = s.data[2 * j], b = s.data[2 * j + 1], v = s.norm[j];
    vf::assume(a > 0 && v > 0);
    vf::assume(b * n >= a * a);
    alignas(Result) static char slot[sizeof(Result)];
    Result &c = *(Result *)slot;
#ifdef VF_SYM
    vf::hint1("get", [&](long k) { return (long)c.size() == k; });
    vf::hint1("get", [&](long k) { return vf::implies(j < k, c[j].first == a / n * (1.0 / v)); });
    vf::hint1("get", [&](long k) { return vf::implies(j < k, vf::both(c[j].second >= 0, c[j].second * (a / n) * (c[j].second * (a / n)) == (b - a * a / n) / (n - 1))); });
#endif
    new (slot) Result(((const TallySpatial &)t).get());
    vf::check((long)c.size() == s.n, "one result per bin");
    vf::check(vf::eq(c[j].first, a / n / v), "mean per unit volume");
    vf::check(c[j].second >= 0, "deviation is not negative");
    vf::check(vf::eq(c[j].second * c[j].second * a * a * (n - 1), (b - a * a / n) * n * n), "relative deviation of the realizations");
#ifndef VF_SYM
    c.~Result();
#endif
}
