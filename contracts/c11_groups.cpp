// C11, bounded: sources built for many groups in any order, with and without an external source, from real input
// trials *: 60 1500
#include "core/source_factory.hpp"
#include "core/source_isotropic.hpp"
#include "core/constants.hpp"
#include "xsmesh.hpp"
#ifndef VF_SYM
#include "util/h5file.hpp"
#include "pugixml.hpp"
using namespace mocc;
static void run(bool external)
{
    vfx::XS x;
    int ng = x.ng, nreg = x.nreg;
    ArrayB2 flux(nreg, ng), ext(ng, nreg);
    ArrayB1 fs(nreg), aux(nreg), xs(nreg);
    double *p = vf::buffer<double>("flux", nreg * ng, 0, 3), *q = vf::buffer<double>("ext", nreg * ng, 0, 3), *f = vf::buffer<double>("fs", 3 * nreg, 0.1, 3);
    for (int i = 0; i < nreg; i++) {
        for (int g = 0; g < ng; g++) {
            flux(i, g) = p[i * ng + g];
            ext(g, i)  = q[i * ng + g];
        }
        fs(i) = f[i], aux(i) = f[nreg + i], xs(i) = fabs(f[2 * nreg + i]) + 0.01;
    }
    pugi::xml_document doc;
    if (external) {
        H5Node h("ext.h5", H5Access::WRITE);
        h.write("/source", ext);
        doc.load_string("<source scattering=\"P0\" file=\"ext.h5\"/>");
    } else {
        doc.load_string("<source scattering=\"p0\"/>");
    }
    UP_Source_t s = SourceFactory(doc.child("source"), nreg, &x.m, flux);
    vf::check(s->n_reg() == nreg, "number of regions");
    for (int step = 0; step < 4; step++) {
        int g = vf::range("group", 0, ng - 1);
        bool with_aux = vf::boolean("aux"), norm = vf::boolean("norm");
        s->initialize_group(g);
        if (vf::boolean("restart")) {
            s->fission(aux, g);
            s->in_scatter(g);
            s->initialize_group(g);
        }
        s->fission(fs, g);
        s->in_scatter(g);
        if (with_aux) s->auxiliary(aux);
        if (norm) s->self_scatter(g, xs);
        else s->self_scatter(g);
        // the group's own flux may change between inner iterations
        for (int i = 0; i < nreg; i++) flux(i, g) += 0.25 * (1 + i % 3);
        if (norm) s->self_scatter(g, xs);
        else s->self_scatter(g);
        const VectorX &tr = s->get_transport(0);
        for (int i = 0; i < nreg; i++) {
            const XSMeshRegion &m = x.reg[x.owner[i]];
            double want = external ? ext(g, i) : 0.0;
            want += m.xsmacch(g) * fs(i);
            VecF t = m.xsmacsc().as_vector();
            for (int h = 0; h < ng; h++)
                if (h != g) want += t[g * ng + h] * flux(i, h);
            if (with_aux) want += aux(i);
            vf::check(vf::eq((*s)[i], want) && vf::eq(s->get()[i], want), "source without self-scatter");
            double all = (want + t[g * ng + g] * flux(i, g)) / FPI;
            if (norm) all /= xs(i);
            vf::check(vf::eq(tr[i], all), "source with self-scatter");
        }
    }
}
VF_HARNESS(groups) { run(false); }
VF_HARNESS(groups_external) { run(true); }
VF_HARNESS(external_shape)
{
    vfx::XS x;
    int ng = x.ng, nreg = x.nreg;
    vf::assume(ng != nreg);
    ArrayB2 flux(nreg, ng), ext(vf::boolean("swap") ? nreg : ng + 1, ng);
    flux = 0.0, ext = 1.0;
    pugi::xml_document doc;
    {
        H5Node h("ext.h5", H5Access::WRITE);
        h.write("/source", ext);
    }
    doc.load_string("<source scattering=\"P0\" file=\"ext.h5\"/>");
    vf::check(vf::throws([&]() { SourceFactory(doc.child("source"), nreg, &x.m, flux); }), "an external source of the wrong shape is rejected");
}
#endif
