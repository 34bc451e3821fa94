// Reads a mesh file with the solver on every process and compares all views with the description.
#ifndef VERIF_PREREAD_H
#define VERIF_PREREAD_H
#include "dist.h"
#include "mpi.h"
namespace preread {
template <std::size_t D>
std::string body(const std::string& fn) {
    hpgem::Base::ConfigurationData config(1, 1);
    hpgem::Base::MeshManipulator<D> mesh(&config, 1, 1, 1, 1);
    mesh.readMesh(fn);
    dist::Blob b;
    dist::capture(mesh, b);
    return b.s;
}
inline void check(const mg::Mesh& m, const std::string& fn, const std::vector<int>& part, int P, bool zonesKnown = true) {
    mcmpi::Options o;
    mcmpi::explore(P, o, [&](int) { return m.dim == 1 ? body<1>(fn) : m.dim == 2 ? body<2>(fn) : body<3>(fn); },
                   [&](const std::vector<std::string>& res) {
                       std::vector<dist::View> v;
                       for (auto& s : res) {
                           dist::Blob b(s);
                           v.push_back(dist::parse(b));
                           mc::state(s);
                       }
                       dist::checkMesh(m, part, P, v, false, zonesKnown);
                   });
}
}  // namespace preread
#endif
