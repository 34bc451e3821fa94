// A mesh built directly from elements and faces, so that every element can have its own basis functions.
#ifndef VERIF_WORLD_H
#define VERIF_WORLD_H
#include "shapes.h"
#include "meshgen.h"
#include "bfsets.h"
#include "Base/Element.h"
#include "Base/Face.h"
#include "Base/Node.h"
#include "Base/Zone.h"
#include "Base/CoordinateTransformation.h"
#include "Base/H1ConformingTransformation.h"
#include "Base/HCurlConformingTransformation.h"
#include "Base/HDivConformingTransformation.h"
namespace wd {
using namespace hpgem;
using sh::V;
template <std::size_t D>
using Vec = LinearAlgebra::SmallVector<D>;
template <std::size_t D>
using Ref = Geometry::PointReference<D>;
// a function with everything: value, gradient, vector value, curl and divergence
struct UserFunction : FE::BaseBasisFunction {
    double a, b;
    UserFunction(double a, double b) : a(a), b(b) {}
    template <std::size_t D>
    double scalar(const Ref<D>& p) const {
        double r = b;
        for (std::size_t d = 0; d < D; ++d) r += (a + d) * p[d] * p[d] - p[(d + 1) % D] * p[d];
        return r;
    }
    template <std::size_t D>
    double deriv(const Ref<D>& p, std::size_t d) const {
        return 2 * (a + d) * p[d] - (D == 1 ? 2 * p[0] : D == 2 ? 2 * p[1 - d] : p[(d + 1) % D] + p[(d + D - 1) % D]);
    }
    template <std::size_t D>
    Vec<D> value(const Ref<D>& p) const {
        Vec<D> r;
        for (std::size_t d = 0; d < D; ++d) r[d] = a * p[d] * p[(d + 1) % D] + b * (d + 1) + p[(d + D - 1) % D];
        return r;
    }
    template <std::size_t D>
    Vec<D> curl(const Ref<D>& p) const {
        Vec<D> r;
        for (std::size_t d = 0; d < D; ++d) r[d] = a * p[d] - b * p[(d + 1) % D] + d;
        return r;
    }
    template <std::size_t D>
    double div(const Ref<D>& p) const {
        double r = b * b;
        for (std::size_t d = 0; d < D; ++d) r += a * p[(d + 1) % D];
        return r;
    }
    double eval(const Ref<1>& p) const override { return scalar<1>(p); }
    double eval(const Ref<2>& p) const override { return scalar<2>(p); }
    double eval(const Ref<3>& p) const override { return scalar<3>(p); }
    double evalDeriv0(const Ref<1>& p) const override { return deriv<1>(p, 0); }
    double evalDeriv0(const Ref<2>& p) const override { return deriv<2>(p, 0); }
    double evalDeriv0(const Ref<3>& p) const override { return deriv<3>(p, 0); }
    double evalDeriv1(const Ref<2>& p) const override { return deriv<2>(p, 1); }
    double evalDeriv1(const Ref<3>& p) const override { return deriv<3>(p, 1); }
    double evalDeriv2(const Ref<3>& p) const override { return deriv<3>(p, 2); }
    void eval(const Ref<2>& p, Vec<2>& r) const override { r = value<2>(p); }
    void eval(const Ref<3>& p, Vec<3>& r) const override { r = value<3>(p); }
    Vec<2> evalCurl(const Ref<2>& p) const override { return curl<2>(p); }
    Vec<3> evalCurl(const Ref<3>& p) const override { return curl<3>(p); }
    double evalDiv(const Ref<2>& p) const override { return div<2>(p); }
    double evalDiv(const Ref<3>& p) const override { return div<3>(p); }
};
inline FE::BasisFunctionSet* userSet(std::size_t n) {
    auto* s = new FE::BasisFunctionSet(2);
    for (std::size_t i = 0; i < n; ++i) s->addBasisFunction(new UserFunction(1 + i, n));
    return s;
}
template <std::size_t DIM>
struct World {
    std::vector<Geometry::PointPhysical<DIM>> points;
    Base::Element::CollectionOfBasisFunctionSets sets;
    Base::Zone zone{"zone", 0};
    std::vector<Base::Element*> el;
    std::vector<Base::Face*> faces;
    std::vector<std::string> faceName;
    std::vector<double> angle;  // of the rotation that takes the right side of the face to the left side
    std::size_t unknowns;
    std::map<std::pair<int, int>, std::size_t> pos;
    explicit World(std::size_t unknowns) : unknowns(unknowns) { points.reserve(4096); }
    std::size_t set(int shape, int order) {  // order < 0: -order user functions
        auto it = pos.find({shape, order});
        if (it != pos.end()) return it->second;
        FE::BasisFunctionSet* s = nullptr;
        if (order < 0)
            s = userSet(-order);
        else
            for (auto& m : bf::makers())
                if (m.shape == shape && !m.vec) {
                    s = m.make(order);
                    break;
                }
        sets.push_back(std::shared_ptr<const FE::BasisFunctionSet>(s));
        return pos[{shape, order}] = sets.size() - 1;
    }
    static int shShape(int mgShape) {
        static const int t[] = {sh::LINE, sh::TRI, sh::SQUARE, sh::TET, sh::CUBE, sh::PYR, sh::PRISM};
        return t[mgShape];
    }
    // orders(element number, unknown); turn: rotation between the sides of periodic faces
    void add(const mg::Mesh& m, std::function<int(int, int)> orders, double turn = 0) {
        std::size_t base = points.size(), ebase = el.size();
        std::map<std::pair<int, int>, std::size_t> id;
        for (std::size_t n = 0; n < m.nodes.size(); ++n)
            for (std::size_t c = 0; c < m.nodes[n].coords.size(); ++c) {
                id[{(int)n, (int)c}] = points.size();
                Geometry::PointPhysical<DIM> p;
                for (std::size_t d = 0; d < DIM; ++d) p[d] = m.nodes[n].coords[c][d];
                points.push_back(p);
            }
        std::vector<Base::Node*> nodes;
        for (std::size_t n = 0; n < m.nodes.size(); ++n) nodes.push_back(new Base::Node(base + n));
        for (std::size_t e = 0; e < m.elems.size(); ++e) {
            std::vector<std::size_t> g;
            for (auto& n : m.elemNodes[e]) g.push_back(id[n]);
            int s = shShape(m.elems[e].shape);
            std::vector<std::size_t> at;
            for (std::size_t u = 0; u < unknowns; ++u) at.push_back(set(s, orders(el.size(), u)));
            auto* x = new Base::Element(g, &sets, points, unknowns, 1, el.size(), zone);
            for (std::size_t u = 0; u < unknowns; ++u) x->setDefaultBasisFunctionSet(at[u], u);
            for (std::size_t j = 0; j < m.elemNodes[e].size(); ++j) nodes[m.elemNodes[e][j].first]->addElement(x, j);
            x->setNumberOfTimeIntegrationVectors(1);
            LinearAlgebra::MiddleSizeVector v(x->getTotalNumberOfBasisFunctions());
            for (std::size_t i = 0; i < v.size(); ++i) v[i] = 1 + .375 * i - .0625 * i * i + el.size();
            x->setTimeIntegrationVector(0, v);
            el.push_back(x);
        }
        for (std::size_t f = 0; f < m.faces.size(); ++f) {
            auto& i = m.faces[f];
            auto* L = el[ebase + i[0].first];
            if (i.size() == 1)
                faces.push_back(new Base::Face(L, i[0].second, Geometry::FaceType::WALL_BC, faces.size()));
            else
                faces.push_back(new Base::Face(L, i[0].second, el[ebase + i[1].first], i[1].second, faces.size()));
            faceName.push_back(mc::str("face ", faces.size() - 1, i.size() == 1 ? " (boundary)" : m.periodicFace(f) ? " (periodic)" : " (internal)"));
            double a = 0;
            if (i.size() == 2 && m.periodicFace(f) && turn) {
                // sign: from the coordinates of the two sides
                V cl(2, 0), cr(2, 0);
                for (int k : mg::table(m.elems[i[0].first].shape).faces[i[0].second])
                    for (int d = 0; d < 2; ++d) cl[d] += m.phi(m.elems[i[0].first].v[k])[d];
                for (int k : mg::table(m.elems[i[1].first].shape).faces[i[1].second])
                    for (int d = 0; d < 2; ++d) cr[d] += m.phi(m.elems[i[1].first].v[k])[d];
                a = std::atan2(cl[1], cl[0]) - std::atan2(cr[1], cr[0]);
            }
            angle.push_back(a);
        }
    }
};
}  // namespace wd
#endif
