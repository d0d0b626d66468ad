// Cross-section meshes.  Symbolically an arbitrary mesh whose regions' lists partition the flat regions (owner and pos are
// the inverse maps); natively the mesh of a generated core.
#pragma once
#include "core/xs_mesh.hpp"
#include "cores.hpp"
#include "vf.hpp"
namespace vfx {
using namespace mocc;
struct XS {
#ifdef VF_SYM
    XSMesh &m;
#else
    std::unique_ptr<vfc::Core> core;
    std::unique_ptr<XSMesh> keep;
    XSMesh &m;
    std::vector<int> own, at;
    std::vector<long> count;
#endif
    long ng, nreg, nxs;
    XSMeshRegion *reg;
    const int *owner, *pos;
    const long *cnt;
#ifdef VF_SYM
    static long row_len(const void *e, long k, long i)
    {
        const ScatteringRow &r = (*(XSMeshRegion **)e)[k].xsmacsc_.rows_[i];
        return (long)r.max_g - r.min_g + 1;
    }
    XS() : XS(vf::object<XSMesh>("xsmesh")) {}
    // as part of another object
    explicit XS(XSMesh &mm) : m(mm)
    {
        ng = vf::nat("ng", 1, 5), nreg = vf::nat("nreg", 1, 20), nxs = vf::nat("nxs", 1, 4);
        vf::assume(ng <= 1000000 && nreg <= 1000000000);
        m.ng_ = ng;
        m.n_reg_expanded_ = nreg;
        reg = vf::buffer<XSMeshRegion>("regions", nxs);
        m.regions_._M_impl._M_start  = reg;
        m.regions_._M_impl._M_finish = m.regions_._M_impl._M_end_of_storage = reg + nxs;
        cnt = vf::buffer<long>("count", nxs);
        long *c = const_cast<long *>(cnt), g = ng;
        auto count = [](const void *e, long k) { return ((const long *)e)[k]; };
        auto groups = [](const void *e, long) { return *(const long *)e; };
        vf_family_(reg, (char *)&reg[0].reg_ - (char *)reg, "reg", 4, count, c);
        // in the order of the members: a family also covers the two pointers after the first (vector layout)
        vf_family_(reg, (char *)&reg[0].xsmactr_ - (char *)reg, "tr", 8, groups, &ng);
        vf_family_(reg, (char *)&reg[0].xsmacnf_ - (char *)reg, "nf", 8, groups, &ng);
        vf_family_(reg, (char *)&reg[0].xsmacf_ - (char *)reg, "f", 8, groups, &ng);
        vf_family_(reg, (char *)&reg[0].xsmacch_ - (char *)reg, "ch", 8, groups, &ng);
        vf_family_(reg, (char *)&reg[0].xsmacrm_ - (char *)reg, "rm", 8, groups, &ng);
        vf_family_(reg, (char *)&reg[0].xsmacsc_.rows_ - (char *)reg, "rows", 16, groups, &ng);
        vf_family_(reg, (char *)&reg[0].xsmacsc_.out_ - (char *)reg, "out", 8, groups, &ng);
        vf_family_(&reg[0].xsmacsc_.rows_[0], 8, "from", 8, (long (*)(const void *, long))&row_len, &reg);
        vf::assume(vf::forall(0, nxs, [&](long k) { return vf::all(cnt[k] >= 0, reg[k].xsmacsc_.ng_ == ng); }));
        int *o = vf::buffer<int>("owner", nreg), *p = vf::buffer<int>("pos", nreg);
        owner = o, pos = p;
    }
    // every flat region is in exactly one list, once
    void partition()
    {
        vf::assume(vf::forall(0, nxs, [&](long k) {
            return vf::forall(0, cnt[k], [&](long j) { int r = reg[k].reg_[j]; return vf::all(r >= 0, r < nreg, owner[r] == k, pos[r] == j); });
        }));
    }
    void owned(long r)
    {
        vf::assume(vf::both(owner[r] >= 0, owner[r] < nxs));
        vf::assume(vf::both(pos[r] >= 0, pos[r] < cnt[owner[r]]));
        vf::assume(reg[owner[r]].reg_[pos[r]] == r);
    }
    // rows for transfers into group g hold the within-group entry
    void rows_ok(long g)
    {
        vf::assume(vf::forall(0, nxs, [&](long k) { const ScatteringRow &r = reg[k].xsmacsc_.rows_[g]; return vf::all(r.min_g >= 0, r.min_g <= g, r.max_g >= g, r.max_g < ng); }));
    }
#else
    static vfc::Options opt()
    {
        vfc::Options o;
        o.max_ng = 4;
        return o;
    }
    XS() : core(new vfc::Core(vfc::spec(opt()))), keep(new XSMesh(*core->mesh, MeshTreatment::TRUE)), m(*keep) { index(); }
    explicit XS(XSMesh &mm) : m(mm) { index(); }
    void index()
    {
        ng = m.n_group(), nreg = m.n_reg_expanded(), nxs = m.size();
        reg = const_cast<XSMeshRegion *>(&*m.begin());
        own.assign(nreg, -1), at.assign(nreg, -1);
        for (long k = 0; k < nxs; k++)
            for (long j = 0; j < (long)reg[k].reg().size(); j++) {
                own[reg[k].reg()[j]] = k;
                at[reg[k].reg()[j]]  = j;
            }
        owner = &own[0], pos = &at[0];
        for (long k = 0; k < nxs; k++) count.push_back(reg[k].reg().size());
        cnt = &count[0];
    }
    void partition() {}
    void owned(long r) {}
    void rows_ok(long g) {}
#endif
    // transfer cross section of material k
    double scat(long k, long to, long from) const
    {
#ifdef VF_SYM
        const ScatteringRow &r = reg[k].xsmacsc_.rows_[to];
#else
        const ScatteringRow &r = reg[k].xsmacsc().to(to);
#endif
        bool in = vf::both(from >= r.min_g, from <= r.max_g);
        return vf::ite(in, r.from[vf::itei(in, from - r.min_g, 0)], 0.0);
    }
};
}
