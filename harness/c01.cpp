// C01: a distributed mesh read is one consistent mesh for every partitioning.
#include "dist.h"
#include "catalog.h"
#include "mpi.h"
using namespace hpgem;
template <std::size_t DIM>
std::string body(int, const std::string& fn, int pulls) {
    Base::ConfigurationData config(1, 1);
    Base::MeshManipulator<DIM> mesh(&config, 1, 1, 1, 1);
    mesh.readMesh(fn);
    dist::Blob b;
    if (pulls) {
        std::vector<Base::Element*> g;
        for (auto* e : mesh.getElementsList(Base::IteratorType::GLOBAL))
            if (!e->isOwnedByCurrentProcessor()) g.push_back(e);
        if (pulls == 2) std::reverse(g.begin(), g.end());
        for (auto* e : g) mesh.getMesh().getSubmesh().addPullElement(e);
        if (pulls == 2)
            for (auto* e : g) mesh.getMesh().getSubmesh().addPullElement(e);
    }
    dist::capture(mesh, b);
    return b.s;
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 3;
    auto cat = mg::catalog(mc::thorough());
    std::string fn = mc::str("m", getpid(), ".hpgem");
    int rc = mc::run([&] {
        int P = 1 + mc::choose(mc::tier(3, 4), "P-1");
        const mg::Mesh& m = mc::pick(cat, "mesh");
        if (!mc::thorough() && P == 3 && m.elems.size() > 4) throw mc::Prune();
        if (P == 3 && m.elems.size() > 6) throw mc::Prune();
        if (P == 4 && m.elems.size() > 4) throw mc::Prune();
        if (P == 2 && m.elems.size() > 9) throw mc::Prune();
        mc::note(m.name);
        int variant = mc::choose(P == 1 ? 3 : 5, "variant");  // 0: plain, 1: reversed listing, 2: version 1, 3/4: extra pulls
        auto part = mg::chooseParts(m.elems.size(), P);
        m.write(fn, part, P, variant == 1, variant == 2 ? 1 : 2);
        int pulls = variant >= 3 ? variant - 2 : 0;
        for (int mode = 0; mode < (pulls ? 2 : 1); ++mode) {
            mcmpi::Options o;
            o.mode = mode;
            mcmpi::explore(
                P, o,
                [&](int r) {
                    return m.dim == 1 ? body<1>(r, fn, pulls) : m.dim == 2 ? body<2>(r, fn, pulls) : body<3>(r, fn, pulls);
                },
                [&](const std::vector<std::string>& res) {
                    std::vector<dist::View> v;
                    std::string all;
                    for (auto& s : res) {
                        dist::Blob b(s);
                        v.push_back(dist::parse(b));
                        all += s;
                        mc::state(s);
                    }
                    mc::outcome(all);
                    dist::checkMesh(m, part, P, v, pulls > 0, variant != 2);
                });
        }
    });
    unlink(fn.c_str());
    return rc;
}
