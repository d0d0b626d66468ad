// C09, bounded: materials, cross-section meshes of real cores, histories of expansion
// trials *: 80 2000
#include "core/material.hpp"
#include "xsmesh.hpp"
#ifndef VF_SYM
using namespace mocc;
VF_HARNESS(material)
{
    long ng = vf::range("ng", 1, 8);
    double *b = vf::buffer<double>("v", ng * (4 + ng), -0.7, 1.5);
    auto at = [&](long i) { return b[i] > 0 ? b[i] : 0.0; };
    VecF ab, nf, f, ch;
    std::vector<VecF> sc(ng, VecF(ng, 0.0));
    bool fissile = vf::boolean("fissile"), spectrum = fissile || vf::boolean("spectrum");
    for (long g = 0; g < ng; g++) {
        ab.push_back(at(g));
        f.push_back(fissile ? at(ng + g) : 0.0);
        nf.push_back((2.1 + 0.2 * g) * f[g]);
        ch.push_back(spectrum ? at(2 * ng + g) : 0.0);
        for (long h = 0; h < ng; h++) sc[g][h] = at((4 + g) * ng + h);
    }
    double total = 0;
    bool any = false;
    for (long g = 0; g < ng; g++) total += ch[g], any = any || nf[g] > 0;
    Material m(ab, nf, f, ch, sc);
    double sum = 0;
    for (long g = 0; g < ng; g++) {
        double out = 0;
        for (long h = 0; h < ng; h++) out += sc[h][g];
        vf::check(vf::eq(m.xstr((int)g), ab[g] + out) && vf::eq(m.xstr()((int)g), ab[g] + out), "transport is absorption plus out-scatter");
        vf::check(m.xsab((int)g) == ab[g] && m.xsnf((int)g) == nf[g] && m.xsf((int)g) == f[g], "given data are kept");
        vf::check(m.xsab()((int)g) == ab[g] && m.xsnf()((int)g) == nf[g] && m.xsf()((int)g) == f[g], "given data are kept");
        vf::check(total == 0 ? m.xsch((int)g) == 0 : vf::eq(m.xsch((int)g), ch[g] / total), "spectrum is proportional to the one given");
        sum += m.xsch((int)g);
        for (long h = 0; h < ng; h++) vf::check(m.xssc().as_vector()[g * ng + h] == sc[g][h], "scattering");
    }
    vf::check(total == 0 || vf::eq(sum, 1.0), "spectrum sums to one");
    vf::check(m.is_fissile() == any, "fissile when there is nu-fission");
}
static void mesh(MeshTreatment how)
{
    vfc::Options op;
    op.max_ng = 4;
    vfc::Spec s = vfc::spec(op);
    vfc::Core c(s);
    XSMesh m(*c.mesh, how);
    const CoreMesh &cm = *c.mesh;
    // the material of every flat region, in the order of the numbering
    std::vector<int> mat;
    auto add = [&](const Pin &p) {
        int i = 0;
        for (int id : p.mat_ids()) {
            for (int k = 0; k < (int)p.mesh().n_fsrs(i); k++) mat.push_back(id);
            i++;
        }
    };
    if (how == MeshTreatment::TRUE) {
        for (const auto &p : cm) add(*p);
    } else {
        for (const auto &mp : cm.macroplanes())
            for (const auto &p : mp) add(*p);
    }
    vf::check(m.n_reg_expanded() == (int)mat.size(), "number of flat regions");
    vf::check((int)m.n_group() == s.ng, "number of groups");
    std::vector<int> seen(mat.size(), 0);
    for (const auto &x : m) {
        vf::check(x.n_group() == s.ng, "groups of the region");
        vf::check(!x.reg().empty(), "no unused materials");
        const Material &lib = cm.mat_lib()[mat[x.reg()[0]]];
        for (int r : x.reg()) {
            vf::check(r >= 0 && r < (int)mat.size() && !seen[r], "each flat region is listed once");
            seen[r] = 1;
            vf::check(&cm.mat_lib()[mat[r]] == &lib, "regions share a material");
        }
        bool fis = false;
        for (int g = 0; g < s.ng; g++) {
            fis = fis || lib.xsnf(g) > 0;
            vf::check(x.xsmactr(g) == lib.xstr(g) && x.xsmacnf(g) == lib.xsnf(g) && x.xsmacf(g) == lib.xsf(g) && x.xsmacch(g) == lib.xsch(g), "cross sections of the material");
            vf::check(x.xsmactr()[g] == lib.xstr(g) && x.xsmacnf()[g] == lib.xsnf(g) && x.xsmacf()[g] == lib.xsf(g) && x.xsmacch()[g] == lib.xsch(g), "cross sections of the material");
            vf::check(vf::eq(x.xsmacrm(g), lib.xstr(g) - lib.xssc().self_scat(g)) && x.xsmacrm()[g] == x.xsmacrm(g), "removal");
            if (lib.xstr(g) > 0) {
                VecF rc = x.reaction_cdf(g);
                vf::check(vf::eq(rc[0], lib.xssc().out(g) / lib.xstr(g)) && vf::eq(rc[1] - rc[0], lib.xsf(g) / lib.xstr(g)) && rc[2] == 1.0, "reactions");
            }
        }
        VecF cc = x.chi_cdf();
        double t = 0;
        for (int g = 0; g < s.ng; g++) {
            t += lib.xsch(g);
            vf::check(vf::eq(cc[g], t), "spectrum");
        }
        vf::check(!fis || vf::eq(cc.back(), 1.0), "spectrum ends at one");
        vf::check(x.is_fissile() == fis, "fissile");
        vf::check(x.xsmacsc() == lib.xssc(), "scattering");
    }
    for (int v : seen) vf::check(v, "every flat region is listed");
}
VF_HARNESS(mesh_true) { mesh(MeshTreatment::TRUE); }
VF_HARNESS(mesh_plane) { mesh(MeshTreatment::PLANE); }
VF_HARNESS(histories)
{
    vfx::XS x;
    ExpandedXS a(&x.m), b, c(a);
    b = a; // shares storage and state
    ArrayB1 split((int)x.nreg), none(0);
    double *d = vf::buffer<double>("split", x.nreg, 0, 2);
    for (long i = 0; i < x.nreg; i++) split((int)i) = d[i];
    for (int step = 0; step < 8; step++) {
        int g = vf::range("group", 0, x.ng - 1), what = vf::range("what", 0, 4);
        bool with = false;
        ExpandedXS &e = vf::boolean("second") ? b : vf::boolean("third") ? c : a;
        if (what == 0) {
            for (long k = 0; k < x.nxs; k++) {
                VecF tr, nf, ch, f;
                for (long h = 0; h < x.ng; h++) {
                    tr.push_back(x.reg[k].xsmactr(h) + 0.5);
                    nf.push_back(x.reg[k].xsmacnf(h));
                    ch.push_back(x.reg[k].xsmacch(h));
                    f.push_back(x.reg[k].xsmacf(h));
                }
                ScatteringMatrix sc = x.reg[k].xsmacsc();
                x.reg[k].update(tr, nf, ch, f, sc);
                for (long h = 0; h < x.ng; h++) vf::check(vf::eq(x.reg[k].xsmacrm(h), tr[h] - sc.self_scat(h)), "removal after an update");
            }
            x.m.state_++;
            e.expand(g);
        } else if (what == 1) {
            e.expand(g, split), with = true;
        } else if (what == 2) {
            e.expand(g, none);
        } else {
            e.expand(g);
        }
        for (long i = 0; i < x.nreg; i++)
            vf::check(vf::eq(e[(int)i], x.reg[x.owner[i]].xsmactr(g) + (with ? split((int)i) : 0.0)), "value of the material in this group");
    }
}
#endif
