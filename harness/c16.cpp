// C16: every time integrator satisfies the order conditions (all rooted trees) of the order it reports.
#include "hp.h"
#include "Base/TimeIntegration/AllTimeIntegrators.h"
#include "Base/TimeIntegration/ButcherTableau.h"
#include "Base/TimeIntegration/RK4Methods.h"
#include "Base/TimeIntegration/ForwardEuler.h"
#include "Base/TimeIntegration/DormandPrince.h"
#include "Base/TimeIntegration/BogackiShampine.h"
#include "Base/TimeIntegration/MidPoint.h"
#include "Base/TimeIntegration/RK2TVD.h"
#include "Base/TimeIntegration/RK3TVD.h"
using namespace hpgem;
using namespace hpgem::TimeIntegration;
typedef std::vector<long double> V;

struct Tree {
    int order;
    std::vector<int> kids;  // indices of smaller trees, non-decreasing
    long double density;
    std::string name;
};
static std::vector<Tree> trees(int maxOrder) {
    std::vector<Tree> t = {{1, {}, 1, "o"}};
    for (int n = 2; n <= maxOrder; ++n) {
        std::size_t have = t.size();
        std::vector<int> pick;
        std::function<void(int, std::size_t)> rec = [&](int left, std::size_t from) {
            if (left == 0) {
                Tree x{n, pick, (long double)n, "["};
                for (int k : pick) x.density *= t[k].density, x.name += t[k].name;
                x.name += "]";
                t.push_back(x);
                return;
            }
            for (std::size_t k = from; k < have; ++k)
                if (t[k].order <= left) {
                    pick.push_back(k);
                    rec(left - t[k].order, k);
                    pick.pop_back();
                }
        };
        rec(n - 1, 0);
    }
    return t;
}
struct Named {
    ButcherTableau* r;
    std::string name;
};
static std::vector<Named> rules() {
    return {{&ForwardEuler::instance(), "ForwardEuler"}, {&MidPoint::instance(), "MidPoint"}, {&RK2TVD::instance(), "RK2TVD"}, {&RK3TVD::instance(), "RK3TVD"}, {&RK4_4::instance(), "RK4_4"}, {&DormandPrince::instance(), "DormandPrince"}, {&BogackiShampine::instance(), "BogackiShampine"}};
}
// weights w against the elementary weight of every stage
static long double weight(const ButcherTableau& r, const std::vector<Tree>& t, int k, const V& w) {
    std::size_t s = r.getNumberOfStages();
    std::function<V(int)> inner = [&](int n) {  // prod over kids of (A phi(kid)), per stage
        V v(s, 1);
        for (int kid : t[n].kids) {
            V p = inner(kid);
            for (std::size_t i = 0; i < s; ++i) {
                long double q = 0;
                for (std::size_t j = 0; j < i; ++j) q += (long double)r.getA(i, j) * p[j];
                v[i] *= q;
            }
        }
        return v;
    };
    V p = inner(k);
    long double q = 0;
    for (std::size_t i = 0; i < s; ++i) q += w[i] * p[i];
    return q;
}
static void conditions(const Named& n) {
    const ButcherTableau& r = *n.r;
    std::size_t s = r.getNumberOfStages();
    int p = r.getOrder();
    mc::setKey(n.name);
    mc::require(s > 0 && p > 0, n.name, ": no stages or no order");
    V b(s);
    for (std::size_t i = 0; i < s; ++i) {
        b[i] = r.getB(i);
        long double row = 0;
        for (std::size_t j = 0; j < i; ++j) row += r.getA(i, j);
        mc::require(std::abs((double)(row - r.getC(i))) < 1e-13, n.name, ": stage ", i, " is evaluated at time fraction ", r.getC(i), " but its coefficients add up to ", (double)row);
        mc::step();
    }
    auto t = trees(p + 1);
    bool higher = true;
    for (std::size_t k = 0; k < t.size(); ++k) {
        long double got = weight(r, t, k, b), want = 1 / t[k].density;
        bool ok = std::abs((double)(got - want)) < 1e-12;
        mc::state(mc::str(n.name, t[k].name));
        mc::step();
        if (t[k].order <= p)
            mc::require(ok, n.name, ": order condition ", t[k].name, " (order ", t[k].order, " of ", p, ") gives ", (double)got, " instead of ", (double)want);
        else
            higher = higher && ok;
    }
    mc::require(!higher, n.name, ": has a higher order than the reported ", p);
    mc::count("trees", t.size());
}
static void errorEstimate(const Named& n) {
    const ButcherTableau& r = *n.r;
    mc::setKey(n.name + " error");
    if (!r.hasErrorEstimate()) return;
    std::size_t s = r.getNumberOfStages();
    int p = r.getOrder();
    V e(s);
    for (std::size_t i = 0; i < s; ++i) e[i] = r.getErrorCoefficient(i);
    auto t = trees(p);
    bool detects = false;
    for (std::size_t k = 0; k < t.size(); ++k) {
        double v = weight(r, t, k, e);
        mc::step();
        if (t[k].order < p)
            mc::require(std::abs(v) < 1e-13, n.name, ": the comparison solution of the error estimate violates condition ", t[k].name, " of order ", t[k].order, " by ", v);
        else
            detects = detects || std::abs(v) > 1e-6;
    }
    mc::require(detects, n.name, ": the error estimate does not see the leading error term");
}
// TVD: convex combination of forward Euler steps, i.e. a positive radius of absolute monotonicity
static void tvd(const Named& n) {
    const ButcherTableau& r = *n.r;
    mc::setKey(n.name + " tvd");
    if (!r.getTotalVariationDiminishing()) return;
    std::size_t s = r.getNumberOfStages();
    std::vector<V> K(s + 1, V(s + 1, 0));
    for (std::size_t i = 0; i < s; ++i)
        for (std::size_t j = 0; j < i; ++j) K[i][j] = r.getA(i, j);
    for (std::size_t j = 0; j < s; ++j) K[s][j] = r.getB(j);
    for (long double rad : {0.01L, 0.5L, 0.999L}) {
        // alpha = rK (I + rK)^-1 >= 0 and alpha e <= 1; strictly lower triangular: forward substitution by columns
        std::vector<V> al(s + 1, V(s + 1, 0));
        for (std::size_t i = 0; i <= s; ++i)
            for (std::size_t j = s + 1; j-- > 0;) {
                long double v = rad * K[i][j];
                for (std::size_t k = j + 1; k <= s; ++k) v -= al[i][k] * rad * K[k][j];
                al[i][j] = v;
            }
        for (std::size_t i = 0; i <= s; ++i) {
            long double sum = 0;
            for (std::size_t j = 0; j <= s; ++j) {
                mc::require(al[i][j] > -1e-14L, n.name, ": says it is total variation diminishing but stage ", i, " subtracts a multiple of stage ", j);
                sum += al[i][j];
            }
            mc::require(sum < 1 + 1e-14L, n.name, ": says it is total variation diminishing but stage ", i, " is not a convex combination");
            mc::step();
        }
    }
}
static void lookup() {
    auto all = rules();
    std::size_t order = mc::choose(8, "order"), stages = mc::choose(10, "stages");
    bool wantTvd = mc::choose(2, "tvd");
    bool asDefault = !wantTvd && mc::choose(2, "default argument");
    bool exists = false, exact = false;
    for (auto& n : all)
        if (n.r->getOrder() == order && n.r->getNumberOfStages() == stages) {
            exists = true;
            exact = exact || n.r->getTotalVariationDiminishing() == wantTvd;
        }
    ButcherTableau* r = nullptr;
    bool refused = false;
    try {
        auto& a = AllTimeIntegrators::Instance();
        r = asDefault ? a.getRule(order, stages) : a.getRule(order, stages, wantTvd);
    } catch (mc::Fatal&) {
        refused = true;
    }
    mc::require(!exists || (r && !refused), "no integrator found for order ", order, ", ", stages, " stages although one is offered");
    mc::require(exists || refused || !r, "an integrator was returned for order ", order, ", ", stages, " stages although none exists");
    if (r && !refused) {
        mc::require(r->getOrder() == order && r->getNumberOfStages() == stages && r->getNumStages() == stages, "lookup of order ", order, ", ", stages, " stages returned order ", r->getOrder(), ", ", r->getNumberOfStages(), " stages");
        if (exact) mc::require(r->getTotalVariationDiminishing() == wantTvd, "lookup of order ", order, ", ", stages, " stages, TVD ", wantTvd, " returned the other kind although it exists");
        // whatever is returned is a correct integrator too
        Named n{r, mc::str("lookup(", order, ",", stages, ",", wantTvd, ")")};
        conditions(n);
        errorEstimate(n);
        tvd(n);
    }
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    auto all = rules();
    mc::S().splitDepth = 2;
    return mc::run([&] {
        if (mc::choose(2, "part") == 0) {
            auto& n = all[mc::choose(all.size(), "integrator")];
            mc::note(n.name);
            switch (mc::choose(3, "aspect")) {
                case 0: conditions(n); break;
                case 1: errorEstimate(n); break;
                default: tvd(n);
            }
        } else
            lookup();
    });
}
