// C14: derivatives, dimension and span of every basis function set.
#include "bfsets.h"
using namespace bf;
// derivative at 0 of the polynomial interpolating f at m+1 Chebyshev points in [-h,h]: exact for degree <= m
static std::vector<std::pair<double, double>> stencil(int m, double h) {
    std::vector<long double> t;
    for (int k = 0; k <= m; ++k) t.push_back(h * std::cos(3.14159265358979323846L * (2 * k + 1) / (2 * m + 2)));
    std::vector<std::pair<double, double>> r;
    for (int k = 0; k <= m; ++k) {
        long double den = 1, num = 0;
        for (int j = 0; j <= m; ++j)
            if (j != k) den *= t[k] - t[j];
        for (int j = 0; j <= m; ++j) {
            if (j == k) continue;
            long double p = 1;
            for (int l = 0; l <= m; ++l)
                if (l != k && l != j) p *= -t[l];
            num += p;
        }
        r.push_back({(double)t[k], (double)(num / den)});
    }
    return r;
}
static V direction(const Set* s, int i, const V& x, int d, bool vec, const std::vector<std::pair<double, double>>& st) {
    V r;
    for (auto& k : st) {
        V y = x;
        y[d] += k.first;
        V v = value(s, i, y, vec);
        r.resize(v.size(), 0.0);
        for (std::size_t c = 0; c < v.size(); ++c) r[c] += k.second * v[c];
    }
    return r;
}
static void checkDerivatives(const Set* set, int shapeId, bool vec, int degree, const std::string& what) {
    const Shape& t = shape(shapeId);
    bool pyr = shapeId == PYR && degree >= 1;
    auto st = pyr ? stencil(10, 0.1) : stencil(degree, 0.5);
    std::vector<V> pts;
    for (auto& x : lattice(shapeId, t.dim >= 3 ? 3 : 5)) {
        if (pyr && x[2] > 0.4) continue;
        pts.push_back(x);
    }
    V c(t.dim, 0.0);
    for (auto& v : t.vert)
        for (int d = 0; d < t.dim; ++d) c[d] += v[d] / t.vert.size() * 0.97;
    pts.push_back(c);
    for (std::size_t i = 0; i < set->size(); ++i)
        for (auto& x : pts) {
            mc::step();
            std::vector<V> der;
            double scale = 1;
            for (int d = 0; d < t.dim; ++d) {
                der.push_back(direction(set, i, x, d, vec, st));
                for (double v : der.back()) scale = std::max(scale, std::abs(v));
            }
            double tol = (pyr ? 1e-8 : 1e-10) * scale;
            V got, want;
            if (!vec) {
                got = grad(set, i, x);
                for (auto& d : der) want.push_back(d[0]);
            } else if (t.dim == 2) {
                got = curl(set, i, x);
                want = {der[0][1] - der[1][0], 0};
            } else {
                got = curl(set, i, x);
                want = {der[1][2] - der[2][1], der[2][0] - der[0][2], der[0][1] - der[1][0]};
            }
            mc::require(closeV(got, want, tol), what, ": ", vec ? "curl" : "gradient", " of function ", i, " at ", str(x), " is ", str(got), " but the values have ", str(want));
        }
}
// one row per function: its values at a unisolvent lattice
static std::vector<std::vector<long double>> rows(const std::function<V(int, const V&)>& f, int n, const std::vector<V>& pts) {
    std::vector<std::vector<long double>> r(n);
    for (int i = 0; i < n; ++i)
        for (auto& x : pts)
            for (double v : f(i, x)) r[i].push_back(v);
    return r;
}
// the advertised space, as rows; coordinates centred so that the monomials stay independent numerically
static std::vector<std::vector<long double>> spaceRows(int s, Space sp, int p, const std::vector<V>& pts) {
    const Shape& t = shape(s);
    int dim = t.dim;
    std::vector<std::function<V(const V&)>> f;
    bool unit = s == TRI || s == TET || s == PRISM;
    auto poly = [=](const std::vector<int>& a, const V& x) {  // product of Legendre polynomials
        long double r = 1;
        for (int d = 0; d < dim; ++d) {
            double y = (unit && !(s == PRISM && d == 2)) ? 2 * x[d] - 1 : x[d];
            r *= std::legendre((unsigned)a[d], std::max(-1.0, std::min(1.0, y)));
        }
        return (double)r;
    };
    auto mono = [](const std::vector<int>& a, const V& x) { return monomial(x, a); };
    if (sp == FULL)
        for (auto& a : exponents(dim, p)) f.push_back([=](const V& x) { return V{poly(a, x)}; });
    else if (sp == TENSOR) {
        for (auto& a : exponents(dim, p, true)) {
            if (s == PRISM && a[0] + a[1] > p) continue;
            f.push_back([=](const V& x) { return V{poly(a, x)}; });
        }
    } else if (sp == PYRAMID1) {
        for (auto& a : exponents(3, p)) f.push_back([=](const V& x) { return V{poly(a, x)}; });
        if (p == 1) f.push_back([=](const V& x) { return V{x[0] * x[1] / (1 - x[2])}; });
    } else if (sp == FULLVECTOR) {
        for (auto& a : exponents(dim, p))
            for (int d = 0; d < dim; ++d)
                f.push_back([=](const V& x) {
                    V v(dim, 0.0);
                    v[d] = poly(a, x);
                    return v;
                });
    } else {  // Nedelec: full vectors of degree p-1 plus x cross homogeneous degree p-1
        for (auto& a : exponents(dim, p - 1))
            for (int d = 0; d < dim; ++d)
                f.push_back([=](const V& x) {
                    V v(dim, 0.0);
                    v[d] = poly(a, x);
                    return v;
                });
        for (auto& a : exponents(dim, p - 1)) {
            int deg = 0;
            for (int k : a) deg += k;
            if (deg != p - 1) continue;
            if (dim == 2)
                f.push_back([=](const V& x) { return V{-x[1] * mono(a, x), x[0] * mono(a, x)}; });
            else
                for (int d = 0; d < 3; ++d)
                    f.push_back([=](const V& x) {
                        V v(3, 0.0);
                        v[(d + 1) % 3] = x[(d + 2) % 3] * mono(a, x);
                        v[(d + 2) % 3] = -x[(d + 1) % 3] * mono(a, x);
                        return v;
                    });
        }
    }
    return rows([&](int i, const V& x) { return f[i](x); }, f.size(), pts);
}
static int dimension(int s, Space sp, int p) {
    int d = shape(s).dim;
    switch (sp) {
        case FULL: return exponents(d, p).size();
        case TENSOR: return s == PRISM ? (p + 1) * (p + 1) * (p + 2) / 2 : exponents(d, p, true).size();
        case PYRAMID1: return p == 0 ? 1 : 5;
        case FULLVECTOR: return (p + 1) * (p + 2) * (p + 3) / 2;
        default: return d == 2 ? p * (p + 2) : p * (p + 2) * (p + 3) / 2;
    }
}
static std::vector<V> unisolvent(int s, int p) {
    std::vector<V> r;
    for (auto& x : lattice(s, s == PYR ? 4 : p + 2))
        if (s != PYR || x[2] < 0.99) r.push_back(x);
    return r;
}
static void checkSpan(const std::vector<std::vector<long double>>& a, int s, Space sp, int p, const std::vector<V>& pts, const std::string& what) {
    int dim = dimension(s, sp, p);
    mc::require((int)a.size() == dim, what, ": ", a.size(), " functions, the space has dimension ", dim);
    int ra = rank(a);
    mc::require(ra == dim, what, ": the functions are linearly dependent (rank ", ra, " of ", dim, ")");
    auto m = spaceRows(s, sp, p, pts);
    // every function lies in the space: adding it to the space's rows does not raise the rank
    int rm = rank(m);
    if (rm != dim) {
        std::cerr << "harness error: reference space has rank " << rm << " instead of " << dim << "\n";
        std::_Exit(71);
    }
    auto both = m;
    for (auto row : a) both.push_back(row);
    int rb = rank(both);
    mc::require(rb == dim, what, ": the functions leave the space (joint rank ", rb, " instead of ", dim, ")");
}
static void dg() {
    const Maker& m = mc::pick(makers(), "functions");
    int p = m.lo + mc::choose(mc::tier(m.hi, m.deep) - m.lo + 1, "order");
    int part = mc::choose(2, "aspect");
    std::string what = mc::str(m.name, " order ", p);
    mc::note(what);
    std::unique_ptr<Set> s(m.make(p));
    mc::require((int)s->getOrder() == p, what, ": reports order ", s->getOrder());
    if (part == 0)
        checkDerivatives(s.get(), m.shape, m.vec, p + 2, what);
    else {
        if (m.shape == PRISM && p >= 3) mc::setKey(mc::str("discontinuous prism order ", p, ": ", s->size(), " functions"));
        auto pts = unisolvent(m.shape, p);
        auto a = rows([&](int i, const V& x) { return value(s.get(), i, x, m.vec); }, s->size(), pts);
        mc::step(a.size() * pts.size());
        checkSpan(a, m.shape, m.space, p, pts, what);
    }
    mc::state(what + std::to_string(part));
}
// the pieces of the conforming sets: all orientations have true derivatives, and with any fixed choice of
// orientation per entity the pieces together span the same space as the discontinuous set
static void pieces() {
    const Conforming& c = mc::pick(conforming(), "shape");
    int p = 1 + mc::choose(mc::tier(c.hi, c.deep), "order");
    std::string what = mc::str("conforming ", shape(c.shape).name, " order ", p);
    mc::note(what);
    std::vector<const Set*> fixed;
    std::vector<std::vector<const Set*>> perEntity;  // the orientations of one entity
    std::vector<const Set*> all;
    const Set* in = c.interior(p);
    fixed.push_back(in);
    for (auto* v : c.vertex(p)) fixed.push_back(v);
    const auto& g = ref(c.shape);
    int nv = shape(c.shape).vert.size(), seen = fixed.size() - 1;
    mc::require(seen == nv, what, ": ", seen, " vertex sets");
    auto group = [&](const std::vector<const OSet*>& sets, int count, int maxOrient) {
        for (int e = 0; e < count; ++e) {
            std::vector<const Set*> l;
            for (int o = 0; o < maxOrient; ++o)
                for (auto* s : sets)
                    if (s->checkOrientation(o, e)) l.push_back(s);
            if (l.size()) perEntity.push_back(l);
        }
        for (auto* s : sets) all.push_back(s);
    };
    if (c.edge) group(c.edge(p), g.getNumberOfCodim2Entities(), 2);
    if (c.face) group(c.face(p), g.getNumberOfCodim1Entities(), 8);
    for (auto* s : fixed) all.push_back(s);
    int part = mc::choose(2, "aspect");
    if (part == 0) {
        for (auto* s : all) checkDerivatives(s, c.shape, false, p + 2, what);
    } else {
        int o = mc::choose(8, "orientation");
        std::vector<const Set*> use = fixed;
        for (auto& l : perEntity) {
            if (o >= (int)l.size() && l.size() > 1) {
                bool any = false;
                for (auto& k : perEntity) any = any || o < (int)k.size();
                if (!any) throw mc::Prune();
            }
            use.push_back(l[o % l.size()]);
        }
        auto pts = unisolvent(c.shape, p);
        std::vector<std::vector<long double>> a;
        for (auto* s : use)
            for (auto& r : rows([&](int i, const V& x) { return value(s, i, x, false); }, s->size(), pts)) a.push_back(r);
        mc::step(a.size() * pts.size());
        Space sp = c.shape == TRI || c.shape == TET ? FULL : c.shape == PYR ? PYRAMID1 : TENSOR;
        checkSpan(a, c.shape, sp, p, pts, mc::str(what, " orientation ", o));
    }
    for (auto* s : all) delete s;
    mc::state(what + std::to_string(part) + mc::joinChoices());
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 4;
    return mc::run([&] {
        if (mc::choose(2, "part") == 0)
            dg();
        else
            pieces();
    });
}
