// C11: quadrature rules are exact to their stated order, lie inside the shape, are found by the lookup, and tabulate
// basis functions faithfully over any history of set creation and destruction.
#include "shapes.h"
#include "Integration/QuadratureRules/AllGaussQuadratureRules.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
#include "Integration/QuadratureRules/GaussQuadratureRulesForPoint.h"
#include "Integration/QuadratureRules/GaussQuadratureRulesForLine.h"
#include "Integration/QuadratureRules/GaussQuadratureRulesForSquare.h"
#include "Integration/QuadratureRules/GaussQuadratureRulesForTriangle.h"
#include "Integration/QuadratureRules/GaussQuadratureRulesForCube.h"
#include "Integration/QuadratureRules/GaussQuadratureRulesForTetrahedron.h"
#include "Integration/QuadratureRules/GaussQuadratureRulesForPyramid.h"
#include "Integration/QuadratureRules/GaussQuadratureRulesForTriangularPrism.h"
#include "Integration/QuadratureRules/GaussQuadratureRulesForHypercube.h"
#include "Geometry/ReferenceCurvilinearTriangle.h"
#include "Geometry/ReferenceCurvilinearLine.h"
#include "Geometry/ReferenceCurvilinearTetrahedron.h"
#include "Geometry/Mappings/ConcatenatedMapping.h"
#include "FE/BasisFunctions1DH1ConformingLine.h"
#include "FE/BasisFunctions2DH1ConformingSquare.h"
#include "FE/BasisFunctions2DH1ConformingTriangle.h"
#include "FE/BasisFunctions2DNedelec.h"
#include "FE/BasisFunctions3DH1ConformingCube.h"
#include "FE/BasisFunctions3DH1ConformingTetrahedron.h"
#include "FE/BasisFunctions3DH1ConformingPrism.h"
#include "FE/BasisFunctions3DH1ConformingPyramid.h"
#include "FE/BasisFunctions3DNedelec.h"
#include "FE/BasisFunctions3DAinsworthCoyle.h"
#include "FE/BasisFunctionSet.h"
#include "FE/BasisFunctionsMonomials.h"
using namespace hpgem;
using namespace sh;
typedef QuadratureRules::GaussQuadratureRule Rule;
typedef FE::BasisFunctionSet Set;
static const int maxOrder = 14;
static std::vector<std::vector<Rule*>> rules(NSHAPES);
static void collect() {
    using namespace QuadratureRules;
    std::vector<Rule*> all = {&Cn0_inf_1::Instance(), &Cn1_1_1::Instance(), &Cn1_3_2::Instance(), &Cn1_5_3::Instance(), &C1_7_4::Instance(),
        &C1_9_5::Instance(), &C1_11_6::Instance(), &Cn2_1_1::Instance(), &Cn2_3_4::Instance(), &Cn2_5_9::Instance(), &C2_7_4::Instance(),
        &C2_9_5::Instance(), &C2_11_6::Instance(), &Tn2_1_1::Instance(), &Tn2_2_3::Instance(), &Tn2_4_6::Instance(), &T2_5_7::Instance(),
        &T2_6_12::Instance(), &T2_8_16::Instance(), &T2_9_19::Instance(), &T2_10_25::Instance(), &T2_11_28::Instance(), &Cn3_1_1::Instance(),
        &Cn3_3_4::Instance(), &Cn3_5_9::Instance(), &C3_7_2::Instance(), &C3_9_2::Instance(), &C3_11_2::Instance(), &Pyramid_1_4::Instance(),
        &Pyramid_3_16::Instance(), &Pyramid_5_36::Instance(), &Pyramid_7_48::Instance(), &Tn3_1_1::Instance(), &Tn3_2_4::Instance(),
        &Tn3_3_10::Instance(), &Tn3_4_14::Instance(), &T3_5_14::Instance(), &T3_6_24::Instance(), &T3_7_31::Instance(), &T3_8_43::Instance(),
        &T3_9_53::Instance(), &T3_10_126::Instance(), &TriPrism_1_1::Instance(), &TriPrism_5_21::Instance(), &TriPrism_7_64::Instance(),
        &Cn4_1_1::Instance(), &Cn4_3_16::Instance()};
    auto add = [&](int s, Rule* r) {
        if (std::find(rules[s].begin(), rules[s].end(), r) == rules[s].end()) rules[s].push_back(r);
    };
    for (Rule* r : all)
        for (int s = 0; s < NSHAPES; ++s)
            if (r->forReferenceGeometry()->getGeometryType() == shape(s).type) add(s, r);
    for (int s = 0; s < NSHAPES; ++s)
        for (int o = 0; o <= maxOrder; ++o) try {
                if (Rule* r = AllGaussQuadratureRules::instance().getRule(&ref(s), o)) add(s, r);
            } catch (mc::Fatal&) {
            }
}
static void exactness(int s) {
    const Shape& t = shape(s);
    Rule* r = mc::pick(rules[s], "rule");
    mc::note(t.name);
    mc::note(r->getName());
    mc::require(r->forReferenceGeometry() == &ref(s), "rule ", r->getName(), " is for another shape");
    mc::require((int)r->dimension() == t.dim, "rule ", r->getName(), " reports dimension ", r->dimension());
    int order = s == POINT ? 3 : (int)r->order();
    auto ex = exponents(t.dim, order);
    std::vector<V> x;
    for (std::size_t i = 0; i < r->getNumberOfPoints(); ++i) {
        x.push_back(coordsOf(r->getPoint(i), t.dim));
        mc::require(t.dim == 0 || minSlack(s, x.back()) > -1e-12, "rule ", r->getName(), ": point ", i, " ", str(x.back()), " is outside the ", t.name);
    }
    mc::require(x.size() > 0, "rule without points");
    const std::vector<int>& a = mc::pick(ex, "monomial");
    double sum = 0;
    for (std::size_t i = 0; i < x.size(); ++i) sum += r->weight(i) * monomial(x[i], a);
    double want = monomialIntegral(s, a);
    std::string e;
    for (int k : a) e += std::to_string(k);
    // the pyramid and prism tables have ten significant digits, all others full precision
    if (!(std::abs(sum - want) <= (s == PYR || s == PRISM ? 1e-9 : 1e-12))) mc::fail("rule ", r->getName(), " integrates monomial ", e, " to ", sum, " instead of ", want);
    mc::step(x.size());
    mc::state(mc::str(r->getName(), e, sum));
}
static void lookup() {
    int s = mc::choose(NSHAPES, "shape");
    int order = mc::choose(maxOrder + 1, "order");
    int via = mc::choose(2, "via");
    // curvilinear elements of order 1..3 share the quadrature of their base shape but need at least order p+1
    int curv = mc::choose(s == LINE || s == TRI || s == TET ? 4 : 1, "curvilinear");
    const Geometry::ReferenceGeometry* g = &ref(s);
    int best = -1, need = order;
    for (Rule* r : rules[s]) best = std::max(best, s == POINT ? 1000 : (int)r->order());
    if (curv) {
        try {
            g = s == LINE ? (Geometry::ReferenceGeometry*)&Geometry::ReferenceCurvilinearLine::getReferenceLagrangeLine(curv + 1)
                : s == TRI ? (Geometry::ReferenceGeometry*)&Geometry::ReferenceCurvilinearTriangle::getReferenceLagrangeTriangle(curv + 1)
                           : (Geometry::ReferenceGeometry*)&Geometry::ReferenceCurvilinearTetrahedron::getReferenceCurvilinearTetrahedron(curv + 1);
        } catch (mc::Fatal&) {
            throw mc::Prune();
        }
        need = std::max(order, curv + 2);
    }
    Rule* r = nullptr;
    bool refused = false;
    try {
        r = via ? g->getGaussQuadratureRule(order) : QuadratureRules::AllGaussQuadratureRules::instance().getRule(g, order);
    } catch (mc::Fatal&) {
        refused = true;
    }
    mc::step();
    if (refused || !r) {
        mc::require(need > best, "no rule found for the ", shape(s).name, " and order ", order, " although one exists");
        mc::state(mc::str(s, order, "none"));
        return;
    }
    mc::require(r->forReferenceGeometry()->getGeometryType() == shape(s).type, "asked for a rule on the ", shape(s).name, ", got ", r->getName());
    mc::require((int)r->order() >= need || s == POINT, "asked for order ", order, " on the ", shape(s).name, ", got ", r->getName(), " of order ", r->order());
    mc::state(mc::str(s, order, curv, r->getName()));
}
// tabulation histories
// vector functions as a user may write them, with a divergence
struct UserFunction : FE::BaseBasisFunction {
    double a, b;
    UserFunction(double a, double b) : a(a), b(b) {}
    template <std::size_t D>
    void value(const Geometry::PointReference<D>& p, LinearAlgebra::SmallVector<D>& r) const {
        for (std::size_t d = 0; d < D; ++d) r[d] = a * p[d] * p[(d + 1) % D] + b * (d + 1) + p[(d + D - 1) % D];
    }
    template <std::size_t D>
    double div(const Geometry::PointReference<D>& p) const {
        double r = 0;
        for (std::size_t d = 0; d < D; ++d) r += a * p[(d + 1) % D];
        return r + b * b;
    }
    void eval(const Geometry::PointReference<2>& p, LinearAlgebra::SmallVector<2>& r) const override { value<2>(p, r); }
    void eval(const Geometry::PointReference<3>& p, LinearAlgebra::SmallVector<3>& r) const override { value<3>(p, r); }
    void eval(const Geometry::PointReference<4>& p, LinearAlgebra::SmallVector<4>& r) const override { value<4>(p, r); }
    double evalDiv(const Geometry::PointReference<2>& p) const override { return div<2>(p); }
    double evalDiv(const Geometry::PointReference<3>& p) const override { return div<3>(p); }
    double evalDiv(const Geometry::PointReference<4>& p) const override { return div<4>(p); }
};
static Set* userSet(std::size_t n) {
    Set* s = new Set(n);
    for (std::size_t i = 0; i <= n; ++i) s->addBasisFunction(new UserFunction(1 + i, n));
    return s;
}
template <void (*F)(Set&, std::size_t)>
Set* monomials(std::size_t n) {
    Set* s = new Set(n);
    F(*s, n);
    return s;
}
struct Maker {
    int shape;
    const char* name;
    Set* (*make)(std::size_t);
    int vec;  // 0: scalar, 1: with curl, 2: with divergence
    int lo, hi;
};
static const std::vector<Maker> makers = {
    {LINE, "line", FE::createDGBasisFunctionSet1DH1Line, false, 0, 3},
    {TRI, "triangle", FE::createDGBasisFunctionSet2DH1Triangle, false, 0, 3},
    {SQUARE, "square", FE::createDGBasisFunctionSet2DH1Square, false, 0, 2},
    {TRI, "Nedelec 2D", FE::createDGBasisFunctionSet2DNedelec, true, 1, 2},
    {TET, "tetrahedron", FE::createDGBasisFunctionSet3DH1Tetrahedron, false, 0, 2},
    {CUBE, "cube", FE::createDGBasisFunctionSet3DH1Cube, false, 0, 2},
    {PRISM, "prism", FE::createDGBasisFunctionSet3DH1ConformingPrism, false, 0, 2},
    {PYR, "pyramid", FE::createDGBasisFunctionSet3DH1ConformingPyramid, false, 1, 1},
    {TET, "Nedelec 3D", FE::createDGBasisFunctionSet3DNedelec, true, 1, 2},
    {TET, "Ainsworth-Coyle", FE::createDGBasisFunctionSet3DAinsworthCoyle, true, 1, 2},
    {SQUARE, "user 2D", userSet, 2, 0, 2},
    {TRI, "user 2D", userSet, 2, 0, 2},
    {CUBE, "user 3D", userSet, 2, 0, 2},
    {TET, "user 3D", userSet, 2, 0, 2},
    {HYPER, "user 4D", userSet, 2, 0, 1},
    {HYPER, "monomials 4D", monomials<FE::assembleMonomialBasisFunctions4D>, 0, 0, 2},
    {TRI, "monomials 2D", monomials<FE::assembleMonomialBasisFunctions2D>, 0, 0, 2}};
template <std::size_t D>
void checkTable(Rule* r, const Set* set, bool vec, const Geometry::MappingReferenceToReference<1>* map, int what) {
    for (std::size_t q = 0; q < r->getNumberOfPoints(); ++q) {
        Geometry::PointReference<D> p;
        if (map) {
            const Geometry::PointReference<D - 1>& f = static_cast<const Geometry::PointReference<D - 1>&>(r->getPoint(q));
            p = map->transform(f);
        } else
            p = static_cast<const Geometry::PointReference<D>&>(r->getPoint(q));
        for (std::size_t i = 0; i < set->size(); ++i) {
            mc::step();
            V got, want;
            if (!vec && what == 0) {
                got = {map ? r->eval(set, i, q, map) : r->eval(set, i, q)};
                want = {set->eval(i, p)};
            } else if (!vec) {
                auto g = map ? r->evalGrad(set, i, q, map) : r->evalGrad(set, i, q);
                LinearAlgebra::SmallVector<D> w = set->evalDeriv(i, p);
                for (std::size_t d = 0; d < D; ++d) {
                    got.push_back(std::real(g[d]));
                    want.push_back(w[d]);
                }
            }
            mc::require(got == want, "rule ", r->getName(), map ? " on a face" : "", ": tabulated ", what ? "gradient" : "value", " of function ", i, " at point ", q, " is ", str(got),
                        " instead of ", str(want));
        }
    }
}
template <std::size_t D>
void checkVector(Rule* r, const Set* set, int kind, const Geometry::MappingReferenceToReference<1>* map, int what) {
    for (std::size_t q = 0; q < r->getNumberOfPoints(); ++q) {
        Geometry::PointReference<D> p;
        if (map) {
            const Geometry::PointReference<D - 1>& f = static_cast<const Geometry::PointReference<D - 1>&>(r->getPoint(q));
            p = map->transform(f);
        } else
            p = static_cast<const Geometry::PointReference<D>&>(r->getPoint(q));
        for (std::size_t i = 0; i < set->size(); ++i) {
            mc::step();
            LinearAlgebra::SmallVector<D> g, w;
            if (what == 0) {
                if (map)
                    r->eval(set, i, q, map, g);
                else
                    r->eval(set, i, q, g);
                set->eval(i, p, w);
            } else if (kind == 2) {
                g[0] = map ? r->evalDiv(set, i, q, map) : r->evalDiv(set, i, q);
                w[0] = set->evalDiv(i, p);
            } else {
                g = map ? r->template evalCurl<D>(set, i, q, map) : r->template evalCurl<D>(set, i, q);
                w = set->evalCurl(i, p);
            }
            mc::require(coords<D>(g) == coords<D>(w), "rule ", r->getName(), map ? " on a face" : "", ": tabulated ", !what ? "value" : kind == 2 ? "divergence" : "curl", " of function ", i, " at point ", q,
                        " is ", str(coords<D>(g)), " instead of ", str(coords<D>(w)));
        }
    }
}
static void checkVector4(Rule* r, const Set* set, const Geometry::MappingReferenceToReference<1>* map, int what) {
    // no curl in four dimensions
    for (std::size_t q = 0; q < r->getNumberOfPoints(); ++q) {
        Geometry::PointReference<4> p;
        if (map) {
            const Geometry::PointReference<3>& f = static_cast<const Geometry::PointReference<3>&>(r->getPoint(q));
            p = map->transform(f);
        } else
            p = static_cast<const Geometry::PointReference<4>&>(r->getPoint(q));
        for (std::size_t i = 0; i < set->size(); ++i) {
            mc::step();
            LinearAlgebra::SmallVector<4> g, w;
            if (what == 0) {
                map ? r->eval(set, i, q, map, g) : r->eval(set, i, q, g);
                set->eval(i, p, w);
            } else {
                g[0] = map ? r->evalDiv(set, i, q, map) : r->evalDiv(set, i, q);
                w[0] = set->evalDiv(i, p);
            }
            mc::require(coords<4>(g) == coords<4>(w), "rule ", r->getName(), map ? " on a face" : "", ": tabulated ", what ? "divergence" : "value", " of function ", i, " at point ", q,
                        " is ", str(coords<4>(g)), " instead of ", str(coords<4>(w)));
        }
    }
}
static void histories() {
    const Maker& m = mc::pick(makers, "functions");
    int dim = shape(m.shape).dim;
    // one rule on the element and one on every face, also seen through a rotated face
    int rounds = 3;
    std::vector<Set*> live(2, nullptr);
    std::vector<std::unique_ptr<Geometry::ConcatenatedMapping>> maps;
    std::vector<int> ord(2, -1);
    Rule* er = ref(m.shape).getGaussQuadratureRule(3);
    int nf = ref(m.shape).getNumberOfCodim1Entities();
    // which tables are consulted: all, or only some of (values, derivatives) x (element, faces)
    const int subsets = mc::tier(5, 15);
    static const int order[] = {15, 4, 8, 1, 2, 3, 5, 6, 7, 9, 10, 11, 12, 13, 14};
    const int uses = order[mc::choose(subsets, "tables")];
    for (int k = 0; k < rounds; ++k) {
        int slot = mc::choose(2, "slot");
        int op = mc::choose(m.hi - m.lo + 1, "order");
        const Set* old = live[slot];
        delete live[slot];  // the next set may get the same address
        live[slot] = m.make(m.lo + op);
        if (old) mc::count(old == live[slot] ? "sets at the address of a deleted set" : "sets at a new address");
        ord[slot] = m.lo + op;
        for (int sl = 0; sl < 2; ++sl) {
            Set* set = live[sl];
            if (!set) continue;
            for (int what = 0; what < 2; ++what) {
                if (uses >> what & 1) {
                    if (dim == 1) checkTable<1>(er, set, m.vec, nullptr, what);
                    if (dim == 2) m.vec ? checkVector<2>(er, set, m.vec, nullptr, what) : checkTable<2>(er, set, m.vec, nullptr, what);
                    if (dim == 3) m.vec ? checkVector<3>(er, set, m.vec, nullptr, what) : checkTable<3>(er, set, m.vec, nullptr, what);
                    if (dim == 4) m.vec ? checkVector4(er, set, nullptr, what) : checkTable<4>(er, set, m.vec, nullptr, what);
                }
                if (!(uses >> (2 + what) & 1)) continue;
                for (int f = 0; f < nf; ++f) {
                    const Geometry::MappingReferenceToReference<1>* fm = ref(m.shape).getCodim1MappingPtr(f);
                    const Geometry::ReferenceGeometry* fg = ref(m.shape).getCodim1ReferenceGeometry(f);
                    Rule* fr = fg->getGaussQuadratureRule(dim >= 3 ? 1 : 3);
                    int nm = dim == 1 ? 1 : dim == 4 ? 0 : dim == 2 ? 2 : fg->getNumberOfNodes() == 3 ? 6 : 8;
                    for (int o = -1; o < nm; ++o) {
                        const Geometry::MappingReferenceToReference<1>* use = fm;
                        if (o >= 0) {
                            if (o % 3 == 2 && k) continue;
                            maps.emplace_back(new Geometry::ConcatenatedMapping(*fg->getCodim0MappingPtr(std::size_t(o)), *fm));
                            use = maps.back().get();
                        }
                        if (dim == 1) checkTable<1>(fr, set, m.vec, use, what);
                        if (dim == 2) m.vec ? checkVector<2>(fr, set, m.vec, use, what) : checkTable<2>(fr, set, m.vec, use, what);
                        if (dim == 3) m.vec ? checkVector<3>(fr, set, m.vec, use, what) : checkTable<3>(fr, set, m.vec, use, what);
                        if (dim == 4) m.vec ? checkVector4(fr, set, use, what) : checkTable<4>(fr, set, m.vec, use, what);
                    }
                }
            }
        }
        mc::state(mc::str(m.name, uses, "/", k, slot, ord[0], ord[1]));
    }
    for (Set* s : live) delete s;
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    collect();
    mc::S().splitDepth = 3;
    return mc::run([&] {
        switch (mc::choose(3, "part")) {
            case 0: {
                int s = mc::choose(NSHAPES, "shape");
                exactness(s);
                break;
            }
            case 1: lookup(); break;
            default: histories();
        }
    });
}
