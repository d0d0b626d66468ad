// C16, bounded: histories of scores, commits and resets against a plain record of them
#include <cassert>
#include <cmath>
#include <vector>
#include "sweepers/mc/tally_scalar.hpp"
#include "sweepers/mc/tally_spatial.hpp"
#include "vf.hpp"
#ifndef VF_SYM
using namespace mocc;
using namespace mocc::mc;
static bool near(double a, double b) { return fabs(a - b) <= 1e-7 * (fabs(a) + fabs(b)) + 1e-300; }
VF_HARNESS(scalar_history)
{
    TallyScalar t;
    std::vector<double> x;
    long n = vf::range("n", 1, 30);
    for (long i = 0; i < n; i++) {
        if (vf::range("reset", 0, 15) == 0) {
            t.reset();
            x.clear();
        }
        double v = vf::positive("v") + 0.01;
        t.score(v);
        x.push_back(v);
        if (vf::boolean("split")) {
            t.add_weight(0.25);
            t.add_weight(0.75);
        } else
            t.add_weight(1);
        double s = 0, d = 0;
        for (double y : x) s += y;
        s /= x.size();
        for (double y : x) d += (y - s) * (y - s);
        vf::check(near(t.get().first, s), "mean");
        if (x.size() > 1 && d > 1e-4) vf::check(near(t.get().second, sqrt(d / (x.size() - 1) / x.size()) / s), "relative deviation of the mean");
    }
}
VF_HARNESS(spatial_history)
{
    long nb = vf::range("bins", 1, 6);
    VecF vol;
    for (long i = 0; i < nb; i++) vol.push_back(vf::positive("vol") + 0.05);
    TallySpatial t(vol);
    std::vector<std::vector<double>> x(nb);
    long n = vf::range("n", 1, 12);
    for (long r = 0; r < n; r++) {
        if (vf::range("reset", 0, 15) == 0) {
            t.score(0, 3.0); // part of a realization that is never committed
            t.add_weight(2.0);
            t.reset();
            for (auto &b : x) b.clear();
        }
        std::vector<double> sc(nb, 0.0);
        double w = 0;
        long m = vf::range("m", 1, 20);
        for (long k = 0; k < m; k++) {
            long i = vf::range("bin", 0, nb - 1);
            double v = vf::positive("v") + 0.01;
            t.score(i, v);
            sc[i] += v;
            if (k == 0 || vf::boolean("more")) {
                double u = vf::positive("w") + 0.1;
                t.add_weight(u);
                w += u;
            }
        }
        t.commit_realization();
        for (long i = 0; i < nb; i++) x[i].push_back(sc[i] / w);
        auto g = t.get();
        vf::check((long)g.size() == nb, "one result per bin");
        for (long i = 0; i < nb; i++) {
            double s = 0, d = 0;
            for (double y : x[i]) s += y;
            s /= x[i].size();
            for (double y : x[i]) d += (y - s) * (y - s);
            vf::check(near(g[i].first, s / vol[i]), "mean per unit volume");
            if (x[i].size() > 1 && d > 1e-4) vf::check(near(g[i].second, sqrt(d / (x[i].size() - 1)) / s), "relative deviation of the realizations");
        }
    }
}
#endif
