// C18: dense linear algebra agrees with its definition, leaves its operands alone and survives aliasing.
// Built twice: with real and with complex (HPGEM_USE_COMPLEX_PETSC) middle size entries.
#include "hp.h"
#include "LinearAlgebra/SmallMatrix.h"
#include "LinearAlgebra/SmallVector.h"
#include "LinearAlgebra/MiddleSizeMatrix.h"
#include "LinearAlgebra/MiddleSizeVector.h"
#include "LinearAlgebra/Axpy.h"
#include <complex>
using namespace hpgem;
using namespace hpgem::LinearAlgebra;
typedef MiddleSizeMatrix::type T;
typedef std::complex<double> C;
static constexpr bool isComplex = !std::is_same<T, double>::value;

static std::string str(double v) {
    char b[40];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}
static std::string str(C v) { return "(" + str(v.real()) + "," + str(v.imag()) + ")"; }
static double cj(double v) { return v; }
static C cj(C v) { return std::conj(v); }

// explicit reference: rows x cols, row major, entries of type S
template <class S>
struct Ref {
    std::size_t r, c;
    std::vector<S> a;
    Ref(std::size_t r = 0, std::size_t c = 0) : r(r), c(c), a(r * c) {}
    S& at(std::size_t i, std::size_t j) { return a[i * c + j]; }
    S at(std::size_t i, std::size_t j) const { return a[i * c + j]; }
};
template <class S>
Ref<S> mul(const Ref<S>& x, const Ref<S>& y) {
    Ref<S> o(x.r, y.c);
    for (std::size_t i = 0; i < x.r; ++i)
        for (std::size_t j = 0; j < y.c; ++j) {
            S s = 0;
            for (std::size_t k = 0; k < x.c; ++k) s += x.at(i, k) * y.at(k, j);
            o.at(i, j) = s;
        }
    return o;
}
template <class S, class F>
Ref<S> zip(const Ref<S>& x, const Ref<S>& y, F f) {
    Ref<S> o(x.r, x.c);
    for (std::size_t i = 0; i < o.a.size(); ++i) o.a[i] = f(x.a[i], y.a[i]);
    return o;
}
template <class S, class F>
Ref<S> map(const Ref<S>& x, F f) {
    return zip(x, x, [&](S a, S) { return f(a); });
}
template <class S>
Ref<S> tr(const Ref<S>& x, bool conj = false) {
    Ref<S> o(x.c, x.r);
    for (std::size_t i = 0; i < x.r; ++i)
        for (std::size_t j = 0; j < x.c; ++j) o.at(j, i) = conj ? cj(x.at(i, j)) : x.at(i, j);
    return o;
}
template <class S>
S det(const Ref<S>& x) {
    if (x.r == 0) return 1;
    S s = 0;
    for (std::size_t j = 0; j < x.r; ++j) {
        Ref<S> m(x.r - 1, x.r - 1);
        for (std::size_t i = 1; i < x.r; ++i)
            for (std::size_t k = 0, q = 0; k < x.r; ++k)
                if (k != j) m.at(i - 1, q++) = x.at(i, k);
        s += (j % 2 ? -1. : 1.) * x.at(0, j) * det(m);
    }
    return s;
}
template <class S>
Ref<S> wedge(const Ref<S>& x) {  // determinant of [x | e_i]
    Ref<S> o(x.r, 1);
    for (std::size_t i = 0; i < x.r; ++i) {
        Ref<S> m(x.r, x.r);
        for (std::size_t a = 0; a < x.r; ++a)
            for (std::size_t b = 0; b < x.r; ++b) m.at(a, b) = b < x.c ? x.at(a, b) : S(a == i ? 1. : 0.);
        o.a[i] = det(m);
    }
    return o;
}

// ---- comparing library objects with references
template <class S>
static void close(S got, S want, const char* what, double tol = 0) {
    bool ok = tol == 0 ? got == want : std::abs(got - want) <= tol * (1 + std::abs(want));
    if (!ok) mc::fail(std::string(what) + ": " + str(got) + " instead of " + str(want));
}
template <std::size_t R, std::size_t K>
static void same(const SmallMatrix<R, K>& m, const Ref<double>& r, const char* what, double tol = 0) {
    mc::step();
    mc::require(m.getNumberOfRows() == r.r && m.getNumberOfColumns() == r.c && m.getNRows() == r.r && m.getNCols() == r.c && m.size() == r.r * r.c, std::string(what) + ": wrong size");
    for (std::size_t i = 0; i < r.r; ++i)
        for (std::size_t j = 0; j < r.c; ++j) {
            close(m(i, j), r.at(i, j), what, tol);
            close(m[i + j * R], r.at(i, j), what, tol);
            close(m.data()[i + j * R], r.at(i, j), what, tol);
        }
}
static void same(const MiddleSizeMatrix& m, const Ref<T>& r, const char* what, double tol = 0) {
    mc::step();
    mc::require(m.getNumberOfRows() == r.r && m.getNumberOfColumns() == r.c && m.getNRows() == r.r && m.getNCols() == r.c && m.size() == r.r * r.c, std::string(what) + ": wrong size");
    for (std::size_t i = 0; i < r.r; ++i)
        for (std::size_t j = 0; j < r.c; ++j) {
            close(m(i, j), r.at(i, j), what, tol);
            close(m[i + j * r.r], r.at(i, j), what, tol);
            close(m.data()[i + j * r.r], r.at(i, j), what, tol);
        }
}
template <std::size_t N, class S>
static void same(const GSmallVector<N, S>& v, const Ref<S>& r, const char* what, double tol = 0) {
    mc::step();
    mc::require(v.size() == N && r.a.size() == N, std::string(what) + ": wrong size");
    for (std::size_t i = 0; i < N; ++i) {
        close(v[i], r.a[i], what, tol);
        close(v(i), r.a[i], what, tol);
        close(v.data()[i], r.a[i], what, tol);
    }
}
static void same(const MiddleSizeVector& v, const Ref<T>& r, const char* what, double tol = 0) {
    mc::step();
    mc::require(v.size() == r.a.size(), std::string(what) + ": wrong size");
    for (std::size_t i = 0; i < r.a.size(); ++i) {
        close(v[i], r.a[i], what, tol);
        close(v(i), r.a[i], what, tol);
        close(v.data()[i], r.a[i], what, tol);
    }
}

// ---- entries: exact in floating point
static const double VR[] = {0, 1, -2, 3, -0.5, 7, -1, 4, 5, -3, 0.25, -6, 2, 8, -4, 9};
static void entry(double& out, int k) { out = VR[((k % 16) + 16) % 16]; }
static void entry(C& out, int k) { out = C(VR[((k % 16) + 16) % 16], VR[((k * 5 + 3) % 16 + 16) % 16]); }
template <class S>
static Ref<S> filled(std::size_t r, std::size_t c, int pattern, const char* what) {
    Ref<S> o(r, c);
    if (pattern >= 0)
        for (std::size_t i = 0; i < r * c; ++i) entry(o.a[i], int(i * (2 * pattern + 1) + 3 * pattern + 1));
    else {  // a unit matrix E_ij (times i for complex entries, too)
        int u = -pattern - 1;
        S one;
        entry(one, 1);
        if (r * c) o.a[u % (r * c)] = one;
    }
    mc::note(std::string(what) + "=" + std::to_string(r) + "x" + std::to_string(c) + "#" + std::to_string(pattern));
    return o;
}
template <class S>
static Ref<S> pickFilled(std::size_t r, std::size_t c, const char* what, int patterns) {
    int units = (int)(r * c);
    int k = mc::choose(patterns + units, what);
    return filled<S>(r, c, k < patterns ? k : -(k - patterns) - 1, what);
}
template <std::size_t R, std::size_t K>
static SmallMatrix<R, K> mk(const Ref<double>& r) {
    SmallMatrix<R, K> m;
    for (std::size_t i = 0; i < R; ++i)
        for (std::size_t j = 0; j < K; ++j) m(i, j) = r.at(i, j);
    return m;
}
template <std::size_t N, class S>
static GSmallVector<N, S> mkv(const Ref<S>& r) {
    GSmallVector<N, S> v;
    for (std::size_t i = 0; i < N; ++i) v[i] = r.a[i];
    return v;
}
static MiddleSizeMatrix mkm(const Ref<T>& r) {
    MiddleSizeMatrix m(r.r, r.c);
    for (std::size_t i = 0; i < r.r; ++i)
        for (std::size_t j = 0; j < r.c; ++j) m(i, j) = r.at(i, j);
    return m;
}
static MiddleSizeVector mkmv(const Ref<T>& r) {
    MiddleSizeVector v(r.a.size());
    for (std::size_t i = 0; i < r.a.size(); ++i) v[i] = r.a[i];
    return v;
}
// well conditioned pseudo-arbitrary square matrix: any pattern plus an off-diagonal permutation scaled by 32 (forces pivoting)
template <class S>
static Ref<S> pickInvertible(std::size_t n, const char* what, int patterns) {
    std::vector<int> p(n);
    for (std::size_t i = 0; i < n; ++i) p[i] = i;
    std::vector<int> left = p, order;
    for (std::size_t i = 0; i < n; ++i) {
        int k = mc::choose(left.size(), "perm");
        order.push_back(left[k]);
        left.erase(left.begin() + k);
    }
    Ref<S> o = filled<S>(n, n, mc::choose(patterns, what), what);
    for (std::size_t i = 0; i < n; ++i) {
        S e;
        entry(e, 1 + (int)i);
        o.at(i, order[i]) += S(32.) + e;
    }
    return o;
}

// P A = L U for some row permutation (found by trying all)
template <class S, class G>
static void checkLU(const Ref<S>& a, G lu, const char* what) {
    std::size_t n = std::min(a.r, a.c);
    Ref<S> L(a.r, n), U(n, a.c);
    for (std::size_t i = 0; i < a.r; ++i)
        for (std::size_t j = 0; j < n; ++j) L.at(i, j) = i == j ? S(1.) : i > j ? lu(i, j) : S(0.);
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = i; j < a.c; ++j) U.at(i, j) = lu(i, j);
    Ref<S> p = mul(L, U);
    std::vector<int> perm(a.r);
    for (std::size_t i = 0; i < a.r; ++i) perm[i] = i;
    do {
        bool ok = true;
        for (std::size_t i = 0; i < a.r && ok; ++i)
            for (std::size_t j = 0; j < a.c && ok; ++j) ok = std::abs(p.at(i, j) - a.at(perm[i], j)) <= 1e-11 * (1 + std::abs(a.at(perm[i], j)));
        if (ok) return;
    } while (std::next_permutation(perm.begin(), perm.end()));
    mc::fail(std::string(what) + ": L U is not a row permutation of the matrix");
}

// ------------------------------------------------------------------------------------------------ SmallMatrix
template <std::size_t R, std::size_t K>
struct SM {
    typedef SmallMatrix<R, K> M;
    static void elementwise(Ref<double> a, Ref<double> b, double s) {
        M A = mk<R, K>(a), B = mk<R, K>(b);
        const M cA(A), cB(B);
        auto plus = zip(a, b, [](double x, double y) { return x + y; });
        auto minus = zip(a, b, [](double x, double y) { return x - y; });
        auto scaled = map(a, [&](double x) { return x * s; });
        auto divided = map(a, [&](double x) { return x / s; });
        auto axpyd = zip(a, b, [&](double x, double y) { return x + s * y; });
        same(A + B, plus, "SmallMatrix +");
        same(cA - cB, minus, "SmallMatrix -");
        same(-A, map(a, [](double x) { return -x; }), "SmallMatrix unary -");
        same(A * s, scaled, "SmallMatrix * scalar");
        same(s * A, scaled, "scalar * SmallMatrix");
        same(A / s, divided, "SmallMatrix / scalar", 1e-15);
        same(A, a, "operand changed");
        same(B, b, "operand changed");
        {
            M X(A);
            M& r = X += B;
            mc::require(&r == &X, "SmallMatrix += does not return the matrix itself");
            same(X, plus, "SmallMatrix +=");
            X = A;
            same(X -= B, minus, "SmallMatrix -=");
            X = A;
            same(X *= s, scaled, "SmallMatrix *= scalar");
            X = A;
            same(X /= s, divided, "SmallMatrix /= scalar", 1e-15);
            X = A;
            X.axpy(s, B);
            same(X, axpyd, "SmallMatrix axpy");
            X = A;
            LinearAlgebra::axpy(s, B, X);
            same(X, axpyd, "axpy(SmallMatrix)");
            X = A;
            X += X;
            same(X, map(a, [](double x) { return 2 * x; }), "SmallMatrix A += A");
            X = A;
            X -= X;
            same(X, Ref<double>(R, K), "SmallMatrix A -= A");
            X = A;
            X.axpy(s, X);
            same(X, map(a, [&](double x) { return x + s * x; }), "SmallMatrix A.axpy(s, A)");
            X = A;
            X = *&X;
            same(X, a, "SmallMatrix A = A");
            X = std::move(A);
            same(X, a, "SmallMatrix move assignment");
            M Y(std::move(X));
            same(Y, a, "SmallMatrix move construction");
            Y = M(s);
            same(Y, map(a, [&](double) { return s; }), "SmallMatrix constant");
        }
        same(B, b, "operand changed");
        same(M(), Ref<double>(R, K), "SmallMatrix default construction");
        // construction routes and parts
        std::array<SmallVector<R>, K> cols;
        for (std::size_t j = 0; j < K; ++j) {
            for (std::size_t i = 0; i < R; ++i) cols[j][i] = a.at(i, j);
            same(cA.getColumn(j), [&] { Ref<double> c(R, 1); for (std::size_t i = 0; i < R; ++i) c.a[i] = a.at(i, j); return c; }(), "SmallMatrix column");
        }
        for (std::size_t i = 0; i < R; ++i) same(cA.getRow(i), [&] { Ref<double> c(1, K); for (std::size_t j = 0; j < K; ++j) c.a[j] = a.at(i, j); return c; }(), "SmallMatrix row");
        same(M(cols), a, "SmallMatrix from columns");
        same(cA.transpose(), tr(a), "SmallMatrix transpose");
        // via MiddleSizeMatrix and back
        MiddleSizeMatrix big(cA);
        Ref<T> t(R, K);
        for (std::size_t i = 0; i < R * K; ++i) t.a[i] = a.a[i];
        same(big, t, "MiddleSizeMatrix from SmallMatrix");
        same(M(big), a, "SmallMatrix from MiddleSizeMatrix");
        same(cA, a, "operand changed");
    }
    static void vec(Ref<double> a, Ref<double> v, Ref<double> w) {
        M A = mk<R, K>(a);
        const M cA(A);
        SmallVector<K> x = mkv<K, double>(v);
        SmallVector<R> y = mkv<R, double>(w);
        same(A * x, mul(a, v), "SmallMatrix * SmallVector");
        same(cA * x, mul(a, v), "const SmallMatrix * SmallVector");
        same(y * A, mul(tr(w), a), "SmallVector * SmallMatrix");
        same(A, a, "operand changed");
        same(x, v, "operand changed");
        same(y, w, "operand changed");
    }
    template <std::size_t Q>
    static void product(Ref<double> a, Ref<double> b) {
        M A = mk<R, K>(a);
        const M cA(A);
        const SmallMatrix<K, Q> B = mk<K, Q>(b);
        same(A * B, mul(a, b), "SmallMatrix * SmallMatrix");
        same(cA * B, mul(a, b), "const SmallMatrix * SmallMatrix");
        same(A, a, "operand changed");
        same(B, b, "operand changed");
    }
    static void timesSquare(Ref<double> a, Ref<double> b) {
        M A = mk<R, K>(a);
        SmallMatrix<K, K> B = mk<K, K>(b);
        same(A *= B, mul(a, b), "SmallMatrix *= SmallMatrix");
        same(B, b, "operand changed");
        SmallMatrix<K, K> D = B;
        D *= D;
        same(D, mul(b, b), "SmallMatrix A *= A");
    }
};
template <std::size_t N>
static void squareSmall() {
    typedef SmallMatrix<N, N> M;
    int what = mc::choose(2, "square");
    if (what == 0) {  // determinants: all 0/1 matrices, plus all choices of unit columns scaled
        int bits = N * N;
        int block = std::max(0, bits - 8);
        long hi = mc::choose(1 << block, "high bits");
        for (int lo = 0; lo < (1 << (bits - block)); ++lo) {
            long code = (hi << (bits - block)) | lo;
            Ref<double> a(N, N);
            for (int i = 0; i < bits; ++i) a.a[i] = ((code >> i) & 1) * VR[1 + i % 15];
            M A = mk<N, N>(a);
            mc::step();
            close(A.determinant(), det(a), "determinant", 1e-14);
            for (int i = 0; i < bits; ++i) a.a[i] = (code >> i) & 1 ? 1 : -1;
            A = mk<N, N>(a);
            close(A.determinant(), det(a), "determinant");
            same(A, a, "operand changed");
        }
    } else {
        Ref<double> a = pickInvertible<double>(N, "A", mc::tier(3, 8));
        M A = mk<N, N>(a);
        close(A.determinant(), det(a), "determinant", 1e-13);
        Ref<double> b = filled<double>(N, 1, mc::choose(3, "b"), "b");
        SmallVector<N> x = mkv<N, double>(b);
        A.solve(x);
        Ref<double> xr(N, 1);
        for (std::size_t i = 0; i < N; ++i) xr.a[i] = x[i];
        same(mkv<N, double>(mul(a, xr)), b, "SmallMatrix solve(vector)", 1e-12);
        auto many = [&](auto q) {
            constexpr std::size_t Q = decltype(q)::value;
            Ref<double> b = filled<double>(N, Q, 1, "B");
            SmallMatrix<N, Q> X = mk<N, Q>(b);
            A.solve(X);
            Ref<double> xr(N, Q);
            for (std::size_t i = 0; i < N; ++i)
                for (std::size_t j = 0; j < Q; ++j) xr.at(i, j) = X(i, j);
            same(mk<N, Q>(mul(a, xr)), b, "SmallMatrix solve(matrix)", 1e-12);
        };
        many(std::integral_constant<std::size_t, 1>());
        many(std::integral_constant<std::size_t, 2>());
        many(std::integral_constant<std::size_t, 3>());
        M inv = A.inverse();
        Ref<double> one(N, N), ir(N, N);
        for (std::size_t i = 0; i < N; ++i) {
            one.at(i, i) = 1;
            for (std::size_t j = 0; j < N; ++j) ir.at(i, j) = inv(i, j);
        }
        same(mk<N, N>(mul(a, ir)), one, "SmallMatrix inverse", 1e-12);
        M self = A;
        self.solve(self);
        same(self, one, "SmallMatrix A.solve(A)", 1e-12);
        M lu = A.LUfactorisation();
        checkLU<double>(a, [&](int i, int j) { return lu(i, j); }, "SmallMatrix LU");
        same(A, a, "operand changed");
    }
    mc::state(std::string(isComplex ? "c" : "r") + "square" + std::to_string(N) + mc::joinChoices());
}
template <std::size_t N>
static void wedgeSmall() {
    Ref<double> a(N, N - 1);
    // multilinear in the columns: all combinations of unit columns, plus patterns
    int k = mc::choose(4, "wedge pattern");
    if (k == 0) {
        for (std::size_t j = 0; j + 1 < N; ++j) a.at(mc::choose(N, "unit"), j) = VR[1 + j];
    } else
        a = filled<double>(N, N - 1, k, "wedge");
    SmallMatrix<N, N - 1> A = mk<N, N - 1>(a);
    same(A.computeWedgeStuffVector(), wedge(a), "SmallMatrix wedge product", 1e-14);
    Ref<T> t(N, N - 1);
    for (std::size_t i = 0; i < a.a.size(); ++i) t.a[i] = a.a[i];
    same(MiddleSizeMatrix(A).computeWedgeStuffVector(), wedge(t), "MiddleSizeMatrix wedge product", 1e-14);
    Ref<T> z = filled<T>(N, N - 1, k, "wedge");
    same(mkm(z).computeWedgeStuffVector(), wedge(z), "MiddleSizeMatrix wedge product", 1e-14);
    same(A, a, "operand changed");
    mc::state(std::string(isComplex ? "c" : "r") + "wedge" + std::to_string(N) + mc::joinChoices());
}
static double pickScalar() {
    static const double s[] = {2, -1, 0.5, 3, -0.25};
    return s[mc::choose(5, "scalar")];
}
template <std::size_t R, std::size_t K>
static void smallShape() {
    int op = mc::choose(4, "op");
    int P = mc::tier(3, 6);
    if (op == 0) {
        auto a = pickFilled<double>(R, K, "A", P), b = pickFilled<double>(R, K, "B", 2);
        SM<R, K>::elementwise(a, b, pickScalar());
    } else if (op == 1) {
        auto a = pickFilled<double>(R, K, "A", P);
        auto v = pickFilled<double>(K, 1, "v", 2);
        SM<R, K>::vec(a, v, filled<double>(R, 1, 1, "w"));
        SM<R, K>::vec(a, v, filled<double>(R, 1, 2, "w"));
    } else if (op == 2) {
        auto a = pickFilled<double>(R, K, "A", P);
        int q = mc::choose(5, "Q");
        auto b = pickFilled<double>(K, q, "B", 2);
        if (q == 0) SM<R, K>::template product<0>(a, b);
        if (q == 1) SM<R, K>::template product<1>(a, b);
        if (q == 2) SM<R, K>::template product<2>(a, b);
        if (q == 3) SM<R, K>::template product<3>(a, b);
        if (q == 4) SM<R, K>::template product<4>(a, b);
    } else {
        auto a = pickFilled<double>(R, K, "A", P);
        auto b = pickFilled<double>(K, K, "B", P);
        SM<R, K>::timesSquare(a, b);
        SmallMatrix<R, K> A = mk<R, K>(a), lu = A.LUfactorisation();
        checkLU<double>(a, [&](int i, int j) { return lu(i, j); }, "SmallMatrix LU");
        same(A, a, "operand changed");
    }
    mc::state(std::string(isComplex ? "c" : "r") + "small" + std::to_string(R) + std::to_string(K) + mc::joinChoices());
}

// ------------------------------------------------------------------------------------------------ GSmallVector
template <class S>
static std::vector<S> scalars();
template <>
std::vector<double> scalars<double>() { return {2, -1, 0.5, -0.25, 3}; }
template <>
std::vector<C> scalars<C>() { return {C(2, 0), C(0, 1), C(-1, 0.5), C(0.5, -2)}; }

template <std::size_t N, class S>
static void cross(const Ref<S>& a, const Ref<S>& b, const GSmallVector<N, S>& x, const GSmallVector<N, S>& y, std::true_type) {
    Ref<S> r(N, 1), d(N, 1);
    if (N == 2) {
        r.a[0] = a.a[0] * b.a[1] - a.a[1] * b.a[0];
        // left x (right as the out of plane component of a doubled cross product)
        d.a[0] = a.a[1] * b.a[0];
        d.a[1] = -a.a[0] * b.a[0];
    } else {
        for (int i = 0; i < 3; ++i) r.a[i] = a.a[(i + 1) % 3] * b.a[(i + 2) % 3] - a.a[(i + 2) % 3] * b.a[(i + 1) % 3];
        d = r;
    }
    same(x.crossProduct(y), r, "cross product", 1e-15);
    GSmallVector<N, S> out = GSmallVector<N, S>::constant(S(17.));
    x.crossProduct(y, out);
    same(out, r, "cross product (output argument)", 1e-15);
    same(leftDoubledCrossProduct(x, y), d, "doubled cross product", 1e-15);
}
template <std::size_t N, class S>
static void cross(const Ref<S>&, const Ref<S>&, const GSmallVector<N, S>&, const GSmallVector<N, S>&, std::false_type) {}

template <std::size_t N, class S>
static void smallVector() {
    typedef GSmallVector<N, S> V;
    auto a = pickFilled<S>(N, 1, "a", 4), b = pickFilled<S>(N, 1, "b", 4);
    auto sc = scalars<S>();
    S s = sc[mc::choose(sc.size(), "scalar")];
    V x = mkv<N, S>(a), y = mkv<N, S>(b);
    const V cx(x), cy(y);
    same(cx, a, "copy");
    auto plus = zip(a, b, [](S p, S q) { return p + q; });
    auto minus = zip(a, b, [](S p, S q) { return p - q; });
    auto times = map(a, [&](S p) { return p * s; });
    auto over = map(a, [&](S p) { return p / s; });
    auto ax = zip(a, b, [&](S p, S q) { return p + s * q; });
    same(cx + cy, plus, "vector +");
    same(cx - cy, minus, "vector -");
    same(-cx, map(a, [](S p) { return -p; }), "vector unary -");
    same(V(cx * s), times, "vector * scalar", 1e-15);
    same(V(s * cx), times, "scalar * vector", 1e-15);
    same(cx / s, over, "vector / scalar", 1e-15);
    {
        auto z = cx * C(0.5, 2);
        auto zz = C(0.5, 2) * cx;
        auto zd = cx * 3.0;
        for (std::size_t i = 0; i < N; ++i) {
            close(z[i], C(a.a[i]) * C(0.5, 2), "vector * complex scalar", 1e-15);
            close(zz[i], C(a.a[i]) * C(0.5, 2), "complex scalar * vector", 1e-15);
            close(C(zd[i]), C(a.a[i]) * 3.0, "vector * real scalar", 1e-15);
        }
    }
    V t(x);
    mc::require(&(t += y) == &t, "vector += does not return itself");
    same(t, plus, "vector +=");
    t = x;
    same(t -= y, minus, "vector -=");
    t = x;
    same(t *= s, times, "vector *=", 1e-15);
    t = x;
    same(t /= s, over, "vector /=", 1e-15);
    t = x;
    t.axpy(s, y);
    same(t, ax, "vector axpy", 1e-15);
    t = x;
    LinearAlgebra::axpy(s, y, t);
    same(t, ax, "axpy(vector)", 1e-15);
    t = x;
    t += t;
    same(t, map(a, [](S p) { return p + p; }), "a += a");
    t = x;
    t -= t;
    same(t, Ref<S>(N, 1), "a -= a");
    t = x;
    t.axpy(s, t);
    same(t, map(a, [&](S p) { return p + s * p; }), "a.axpy(s, a)", 1e-15);
    t = *&t;
    // dot products and norms
    S dot = 0;
    double nrm = 0;
    C mixed = 0, mixed2 = 0;
    GSmallVector<N, C> cplx;
    GSmallVector<N, double> re;
    for (std::size_t i = 0; i < N; ++i) {
        dot += a.a[i] * cj(b.a[i]);
        nrm += std::norm(a.a[i]);
        entry(cplx(i), 3 * (int)i + 2);
        entry(re(i), 3 * (int)i + 2);
        mixed += C(a.a[i]) * std::conj(cplx[i]);
        mixed2 += re[i] * C(cj(a.a[i]));
    }
    close(S(cx * cy), dot, "dot product", 1e-15);
    close(C(cx * cplx), mixed, "dot product with a complex vector", 1e-15);
    close(C(re * cx), mixed2, "dot product of a real vector with it", 1e-15);
    close(cx.l2NormSquared(), nrm, "squared norm", 1e-15);
    close(cx.l2Norm(), std::sqrt(nrm), "norm", 1e-15);
    // parts
    auto p = x.append(s);
    mc::require(p.size() == N + 1, "append: wrong size");
    for (std::size_t i = 0; i < N; ++i) close(p[i], a.a[i], "append");
    close(p[N], s, "append");
    auto rr = cx.real(), ii = cx.imag();
    auto cc = cx.conj();
    for (std::size_t i = 0; i < N; ++i) {
        close(rr[i], std::real(a.a[i]), "real part");
        close(ii[i], std::imag(a.a[i]), "imaginary part");
        close(cc[i], cj(a.a[i]), "conjugate");
    }
    // order, equality, hash
    bool eq = true, lt = false;
    for (std::size_t i = 0; i < N; ++i)
        if (eq && a.a[i] != b.a[i]) {
            eq = false;
            C p = a.a[i], q = b.a[i];
            lt = p.real() != q.real() ? p.real() < q.real() : p.imag() < q.imag();
        }
    mc::require((cx == cy) == eq, "vector ==");
    mc::require((cx < cy) == lt, "vector <");
    mc::require(!eq || cx.hash() == cy.hash(), "equal vectors with different hashes");
    // construction
    std::vector<S> sv(a.a.begin(), a.a.end());
    std::array<S, N> sa;
    std::copy(sv.begin(), sv.end(), sa.begin());
    same(V(sv), a, "vector from std::vector");
    same(V(sv.data()), a, "vector from array");
    t = sa;
    same(t, a, "vector = std::array");
    same(V(), Ref<S>(N, 1), "default vector");
    same(V::constant(s), map(a, [&](S) { return s; }), "constant vector");
    t.set(s);
    same(t, map(a, [&](S) { return s; }), "set");
    GSmallVector<N, C> up(cx);
    for (std::size_t i = 0; i < N; ++i) close(up[i], C(a.a[i]), "conversion to complex");
    if (std::is_same<S, double>::value) {
        GSmallVector<N, double> down(up);
        for (std::size_t i = 0; i < N; ++i) close(down[i], std::real(a.a[i]), "conversion to real");
        SmallMatrix<N, 1> col{GSmallVector<N, double>(down)};
        for (std::size_t i = 0; i < N; ++i) close(col(i, 0), std::real(a.a[i]), "one column matrix");
    }
    if (std::is_same<S, double>::value || isComplex) {
        MiddleSizeVector m(cx);
        for (std::size_t i = 0; i < N; ++i) close(C(m[i]), C(a.a[i]), "MiddleSizeVector from vector");
        same(V(m), a, "vector from MiddleSizeVector");
    }
    cross<N, S>(a, b, cx, cy, std::integral_constant<bool, N == 2 || N == 3>());
    same(x, a, "operand changed");
    same(y, b, "operand changed");
    mc::state(std::string(isComplex ? "c" : "r") + "vector" + std::to_string(N) + (std::is_same<S, double>::value ? "r" : "c") + mc::joinChoices());
}

// ------------------------------------------------------------------------------------------------ MiddleSize
static T pickT() {
    auto s = scalars<T>();
    return s[mc::choose(s.size(), "scalar")];
}
static void middleVector() {
    std::size_t n = mc::choose(5, "n");
    auto a = pickFilled<T>(n, 1, "a", 4), b = pickFilled<T>(n, 1, "b", 4);
    T s = pickT();
    MiddleSizeVector x = mkmv(a), y = mkmv(b), t(x);
    const MiddleSizeVector cx(x), cy(y);
    auto plus = zip(a, b, [](T p, T q) { return p + q; });
    auto minus = zip(a, b, [](T p, T q) { return p - q; });
    auto times = map(a, [&](T p) { return p * s; });
    auto over = map(a, [&](T p) { return p / s; });
    auto ax = zip(a, b, [&](T p, T q) { return p + s * q; });
    same(cx + cy, plus, "vector +");
    same(cx - cy, minus, "vector -");
    same(-cx, map(a, [](T p) { return -p; }), "vector unary -");
    same(cx * s, times, "vector * scalar", 1e-15);
    same(s * cx, times, "scalar * vector", 1e-15);
    same(cx / s, over, "vector / scalar", 1e-15);
    mc::require(&(t += y) == &t, "vector += does not return itself");
    same(t, plus, "vector +=");
    t = x;
    same(t -= y, minus, "vector -=");
    t = x;
    same(t *= s, times, "vector *=", 1e-15);
    t = x;
    same(t /= s, over, "vector /=", 1e-15);
    t = x;
    t.axpy(s, y);
    same(t, ax, "vector axpy", 1e-15);
    t = x;
    LinearAlgebra::axpy(s, y, t);
    same(t, ax, "axpy(vector)", 1e-15);
    t = x;
    t += t;
    same(t, map(a, [](T p) { return p + p; }), "a += a");
    t = x;
    t -= t;
    same(t, Ref<T>(n, 1), "a -= a");
    t = x;
    t.axpy(s, t);
    same(t, map(a, [&](T p) { return p + s * p; }), "a.axpy(s, a)", 1e-15);
    t = x;
    t = *&t;
    same(t, a, "a = a");
    MiddleSizeVector mv(std::move(t));
    same(mv, a, "move construction");
    MiddleSizeVector ma;
    ma = std::move(mv);
    same(ma, a, "move assignment");
    same(MiddleSizeVector(a.a.data(), n), a, "vector from array");
    T dot = 0;
    double nrm = 0;
    for (std::size_t i = 0; i < n; ++i) dot += a.a[i] * b.a[i], nrm += std::norm(a.a[i]);
    close(cx * cy, dot, "dot product", 1e-15);
    close(cx.l2NormSquared(), nrm, "squared norm", 1e-15);
    close(cx.l2Norm(), std::sqrt(nrm), "norm", 1e-15);
    mc::require((cx == cy) == (a.a == b.a), "vector ==");
    mc::require(!(cx < cx) && !((cx < cy) && (cy < cx)), "vector < is not an order");
    mc::require(((cx < cy) || (cy < cx)) == !(a.a == b.a), "vector < does not distinguish vectors that are not equal");
    // transitivity with a third vector
    for (int k = 0; k < 4; ++k) {
        Ref<T> c(n, 1);
        for (std::size_t i = 0; i < n; ++i) entry(c.a[i], int(i * (2 * k + 1) + k));
        MiddleSizeVector z = mkmv(c);
        mc::require(!(cx < cy && cy < z) || cx < z, "vector < is not transitive");
        mc::require(!(z < cx && cx < cy) || z < cy, "vector < is not transitive");
    }
    for (std::size_t m = 0; m <= 5; ++m) {
        MiddleSizeVector r(cx);
        r.resize(m);
        mc::require(r.size() == m, "resize: wrong size");
        for (std::size_t i = 0; i < m; ++i) close(r[i], i < n ? a.a[i] : T(0.), "resize");
    }
    t = cx;
    t.set(s);
    same(t, map(a, [&](T) { return s; }), "set");
    same(MiddleSizeVector(n), Ref<T>(n, 1), "new vector");
    MiddleSizeMatrix col(cx);
    same(col, a, "one column matrix");
    if (n == 2) {
        same(MiddleSizeVector{a.a[0], a.a[1]}, a, "initializer list");
        t = {a.a[0], a.a[1]};
        same(t, a, "= initializer list");
    }
    same(x, a, "operand changed");
    same(y, b, "operand changed");
    same(cx, a, "operand changed");
    mc::state(std::string(isComplex ? "c" : "r") + "mvector" + mc::joinChoices());
}
static void middleElementwise() {
    std::size_t r = mc::choose(5, "rows"), c = mc::choose(5, "cols");
    auto a = pickFilled<T>(r, c, "A", 3), b = filled<T>(r, c, mc::choose(2, "B"), "B");
    T s = pickT();
    MiddleSizeMatrix A = mkm(a), B = mkm(b), X(A);
    const MiddleSizeMatrix cA(A), cB(B);
    auto plus = zip(a, b, [](T x, T y) { return x + y; });
    auto minus = zip(a, b, [](T x, T y) { return x - y; });
    auto scaled = map(a, [&](T x) { return x * s; });
    auto divided = map(a, [&](T x) { return x / s; });
    auto ax = zip(a, b, [&](T x, T y) { return x + s * y; });
    same(cA + cB, plus, "matrix +");
    same(cA - cB, minus, "matrix -");
    same(-cA, map(a, [](T x) { return -x; }), "matrix unary -");
    same(cA * s, scaled, "matrix * scalar", 1e-15);
    same(s * cA, scaled, "scalar * matrix", 1e-15);
    same(cA / s, divided, "matrix / scalar", 1e-15);
    mc::require(&(X += B) == &X, "matrix += does not return itself");
    same(X, plus, "matrix +=");
    X = A;
    same(X -= B, minus, "matrix -=");
    X = A;
    same(X *= s, scaled, "matrix *= scalar", 1e-15);
    X = A;
    same(X /= s, divided, "matrix /= scalar", 1e-15);
    X = A;
    X.axpy(s, B);
    same(X, ax, "matrix axpy", 1e-15);
    X = A;
    LinearAlgebra::axpy(s, B, X);
    same(X, ax, "axpy(matrix)", 1e-15);
    X = A;
    X += X;
    same(X, map(a, [](T x) { return x + x; }), "A += A");
    X = A;
    X -= X;
    same(X, Ref<T>(r, c), "A -= A");
    X = A;
    X.axpy(s, X);
    same(X, map(a, [&](T x) { return x + s * x; }), "A.axpy(s, A)", 1e-15);
    X = A;
    X = *&X;
    same(X, a, "A = A");
    MiddleSizeMatrix mv(std::move(X));
    same(mv, a, "move construction");
    X = std::move(mv);
    same(X, a, "move assignment");
    same(MiddleSizeMatrix(r, c, s), map(a, [&](T) { return s; }), "constant matrix");
    same(MiddleSizeMatrix(r, c), Ref<T>(r, c), "new matrix");
    same(MiddleSizeMatrix(), Ref<T>(0, 0), "default matrix");
    same(cA.transpose(), tr(a), "transpose");
    for (std::size_t j = 0; j < c; ++j) same(cA.getColumn(j), [&] { Ref<T> o(r, 1); for (std::size_t i = 0; i < r; ++i) o.a[i] = a.at(i, j); return o; }(), "column");
    for (std::size_t i = 0; i < r; ++i) same(cA.getRow(i), [&] { Ref<T> o(1, c); for (std::size_t j = 0; j < c; ++j) o.a[j] = a.at(i, j); return o; }(), "row");
    X = s;
    same(X, [&] { Ref<T> o(1, 1); o.a[0] = s; return o; }(), "matrix = scalar");
    // gluing
    for (std::size_t k = 0; k <= 2; ++k) {
        Ref<T> d(r, k), glued(r, c + k);
        for (std::size_t i = 0; i < r; ++i)
            for (std::size_t j = 0; j < c + k; ++j) {
                if (j >= c) entry(d.at(i, j - c), int(i * 3 + j));
                glued.at(i, j) = j < c ? a.at(i, j) : d.at(i, j - c);
            }
        same(MiddleSizeMatrix({cA, mkm(d)}), glued, "matrix from matrices side by side");
        Ref<T> e(k, c), stacked(r + k, c);
        for (std::size_t i = 0; i < r + k; ++i)
            for (std::size_t j = 0; j < c; ++j) {
                if (i >= r) entry(e.at(i - r, j), int(i * 3 + j));
                stacked.at(i, j) = i < r ? a.at(i, j) : e.at(i - r, j);
            }
        X = A;
        MiddleSizeMatrix E = mkm(e);
        X.concatenate(E);
        same(X, stacked, "concatenate");
        same(E, e, "operand changed");
    }
    {
        X = A;
        X.concatenate(X);
        Ref<T> o(2 * r, c);
        for (std::size_t i = 0; i < 2 * r; ++i)
            for (std::size_t j = 0; j < c; ++j) o.at(i, j) = a.at(i % std::max<std::size_t>(r, 1), j);
        same(X, o, "A.concatenate(A)");
    }
    // resizing keeps the number of entries consistent and a same size matrix as it is
    for (std::size_t i = 0; i <= 3; ++i)
        for (std::size_t j = 0; j <= 3; ++j) {
            X = A;
            X.resize(i, j);
            mc::require(X.getNumberOfRows() == i && X.getNumberOfColumns() == j && X.size() == i * j, "resize: wrong size");
            for (std::size_t p = 0; p < i * j; ++p) X[p] = s;
            if (i == r && j == c) {
                X = A;
                X.resize(r, c);
                same(X, a, "resize to the same size");
            }
        }
    same(A, a, "operand changed");
    same(B, b, "operand changed");
    same(cA, a, "operand changed");
    mc::state(std::string(isComplex ? "c" : "r") + "melem" + mc::joinChoices());
}
static void middleProduct() {
    std::size_t r = mc::choose(5, "rows"), c = mc::choose(5, "cols"), q = mc::choose(5, "Q");
    if (r == 0 || c == 0 || q == 0) mc::count("empty");
    auto a = pickFilled<T>(r, c, "A", 3), b = filled<T>(c, q, mc::choose(3, "B"), "B");
    MiddleSizeMatrix A = mkm(a), B = mkm(b);
    const MiddleSizeMatrix cA(A), cB(B);
    same(A * cB, mul(a, b), "matrix * matrix", 1e-15);
    same(cA * cB, mul(a, b), "const matrix * matrix", 1e-15);
    MiddleSizeMatrix X(A);
    X *= B;
    same(X, mul(a, b), "matrix *= matrix", 1e-15);
    if (r == c) {
        X = A;
        X *= X;
        same(X, mul(a, a), "A *= A", 1e-15);
    }
    Ref<T> v = filled<T>(c, 1, 1 + q, "v"), w = filled<T>(r, 1, 1 + q, "w");
    MiddleSizeVector x = mkmv(v), y = mkmv(w);
    same(A * x, mul(a, v), "matrix * vector", 1e-15);
    same(cA * x, mul(a, v), "const matrix * vector", 1e-15);
    same(y * A, mul(tr(w), a), "vector * matrix", 1e-15);
    MiddleSizeMatrix lu;
    if (r && c) {
        lu = A.LUfactorisation();
        checkLU<T>(a, [&](int i, int j) { return lu(i, j); }, "LU");
    }
    same(A, a, "operand changed");
    same(B, b, "operand changed");
    same(x, v, "operand changed");
    same(y, w, "operand changed");
    mc::state(std::string(isComplex ? "c" : "r") + "mprod" + mc::joinChoices());
}
static Ref<T> back(const MiddleSizeMatrix& m) {
    Ref<T> o(m.getNumberOfRows(), m.getNumberOfColumns());
    for (std::size_t i = 0; i < o.r; ++i)
        for (std::size_t j = 0; j < o.c; ++j) o.at(i, j) = m(i, j);
    return o;
}
static Ref<T> back(const MiddleSizeVector& m) {
    Ref<T> o(m.size(), 1);
    for (std::size_t i = 0; i < o.r; ++i) o.a[i] = m[i];
    return o;
}
static void middleSolve() {
    std::size_t n = 1 + mc::choose(mc::tier(4, 5), "n");
    int P = mc::tier(2, 4);
    Ref<T> a = pickInvertible<T>(n, "A", P);
    std::size_t q = mc::choose(4, "q");
    Ref<T> b = filled<T>(n, q, 1, "B"), v = filled<T>(n, 1, 2, "b"), one(n, n);
    for (std::size_t i = 0; i < n; ++i) one.at(i, i) = 1;
    MiddleSizeMatrix A = mkm(a), B = mkm(b), X(B);
    if (q) {
        A.solve(X);
        same(mkm(mul(a, back(X))), b, "solve(matrix)", 1e-12);
    }
    MiddleSizeVector x = mkmv(v);
    A.solve(x);
    same(mkm(mul(a, back(x))), v, "solve(vector)", 1e-12);
    same(mkm(mul(a, back(A.inverse()))), one, "inverse", 1e-12);
    X = A;
    X.solve(X);
    same(X, one, "A.solve(A)", 1e-12);
    for (double rcond : {1e-12, -1.}) {
        x = mkmv(v);
        A.pseudoSolve(x, rcond);
        same(mkm(mul(a, back(x))), v, "pseudoSolve", 1e-11);
    }
    mc::require(A.isHermitian(1e-12) == [&] {
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j)
                if (std::abs(a.at(i, j) - cj(a.at(j, i))) > 1e-12) return false;
        return true;
    }(), "isHermitian");
    // triangular systems: the strictly upper part is not part of the matrix
    Ref<T> l(a);
    for (std::size_t i = 0; i < n; ++i) {
        l.at(i, i) += T(64.);
        for (std::size_t j = i + 1; j < n; ++j) l.at(i, j) = 0;
    }
    for (int junk = 0; junk < 2; ++junk) {
        Ref<T> lj = l;
        if (junk)
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = i + 1; j < n; ++j) lj.at(i, j) = 77.;
        MiddleSizeMatrix L = mkm(lj);
        for (int side = 0; side < 2; ++side)
            for (int t = 0; t < 3; ++t) {
                Side sd = side ? Side::OP_RIGHT : Side::OP_LEFT;
                Transpose tp = t == 0 ? Transpose::NOT : t == 1 ? Transpose::TRANSPOSE : Transpose::HERMITIAN_TRANSPOSE;
                Ref<T> op = t == 0 ? l : tr(l, t == 2);
                if (q) {
                    Ref<T> rhs = side ? tr(b) : b;
                    X = mkm(rhs);
                    L.solveLowerTriangular(X, sd, tp);
                    same(mkm(side ? mul(back(X), op) : mul(op, back(X))), rhs, "solveLowerTriangular(matrix)", 1e-12);
                }
                x = mkmv(v);
                L.solveLowerTriangular(x, sd, tp);
                Ref<T> xr = back(x);
                same(side ? mkm(tr(mul(tr(xr), op))) : mkm(mul(op, xr)), v, "solveLowerTriangular(vector)", 1e-12);
            }
        x = mkmv(v);
        L.solveLowerTriangular(x);
        same(mkm(mul(l, back(x))), v, "solveLowerTriangular(vector), default arguments", 1e-12);
        same(L, lj, "operand changed");
        // Cholesky: H = l l^*, only the lower half is used
        Ref<T> h = mul(l, tr(l, true)), hj = h;
        if (junk)
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = i + 1; j < n; ++j) hj.at(i, j) = -55.;
        MiddleSizeMatrix H = mkm(hj);
        mc::require(mkm(h).isHermitian(1e-9), "isHermitian on a Hermitian matrix");
        if (n > 1) {
            Ref<T> g = h;
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < n; ++j)
                    if (i != j) {
                        g = h;
                        g.at(i, j) += T(1e-3);
                        mc::require(!mkm(g).isHermitian(1e-6), "isHermitian accepts a matrix that is not");
                        mc::require(mkm(g).isHermitian(2e-3), "isHermitian ignores its tolerance");
                    }
        }
        H.cholesky();
        Ref<T> f = back(H);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = i + 1; j < n; ++j) f.at(i, j) = 0;
        same(mkm(mul(f, tr(f, true))), h, "cholesky", 1e-12);
        if (q) {
            X = mkm(b);
            MiddleSizeMatrix keep = H;
            H.solveCholesky(X);
            same(mkm(mul(h, back(X))), b, "solveCholesky", 1e-9);
            same(H, back(keep), "operand changed");
        }
    }
    same(A, a, "operand changed");
    same(B, b, "operand changed");
    mc::state(std::string(isComplex ? "c" : "r") + "msolve" + mc::joinChoices());
}
// least squares / minimum norm: A^*(A x - b) = 0 and x orthogonal to the kernel
static void middleLeastSquares() {
    std::size_t r = 1 + mc::choose(4, "rows"), c = 1 + mc::choose(4, "cols");
    int k = mc::choose(4 + 1, "pattern");
    Ref<T> a = k < 4 ? filled<T>(r, c, k, "A") : Ref<T>(r, c);
    if (k == 4)  // rank one
        for (std::size_t i = 0; i < r; ++i)
            for (std::size_t j = 0; j < c; ++j) {
                T p, q;
                entry(p, 1 + (int)i), entry(q, 2 + (int)j);
                a.at(i, j) = p * q;
            }
    Ref<T> b = filled<T>(r, 1, 2, "b");
    MiddleSizeMatrix A = mkm(a);
    MiddleSizeVector x = mkmv(b);
    A.pseudoSolve(x, 1e-10);
    mc::require(x.size() == c, "pseudoSolve: the solution does not have as many entries as the matrix has columns");
    Ref<T> xr = back(x), ah = tr(a, true);
    auto res = zip(mul(a, xr), b, [](T p, T q) { return p - q; });
    auto normal = mul(ah, res);
    for (T v : normal.a) close(v, T(0.), "pseudoSolve: not a least squares solution", 1e-8);
    // x = A^* z for some z: the component of x outside the row space vanishes. Row space projection by Gram-Schmidt.
    std::vector<Ref<T>> basis;
    auto dotp = [](const Ref<T>& p, const Ref<T>& q) {
        T s = 0;
        for (std::size_t i = 0; i < p.a.size(); ++i) s += p.a[i] * cj(q.a[i]);
        return s;
    };
    auto reduce = [&](Ref<T> v) {
        for (int twice = 0; twice < 2; ++twice)
            for (auto& e : basis) {
                T s = dotp(v, e);
                for (std::size_t i = 0; i < v.a.size(); ++i) v.a[i] -= s * e.a[i];
            }
        return v;
    };
    for (std::size_t i = 0; i < r; ++i) {
        Ref<T> row(c, 1);
        for (std::size_t j = 0; j < c; ++j) row.a[j] = cj(a.at(i, j));
        double before = std::sqrt(std::abs(dotp(row, row)));
        row = reduce(row);
        double n = std::sqrt(std::abs(dotp(row, row)));
        if (n < 1e-9 * (1 + before)) continue;
        for (auto& v : row.a) v /= n;
        basis.push_back(row);
    }
    Ref<T> rest = reduce(xr);
    for (T v : rest.a) close(v, T(0.), "pseudoSolve: not the minimum norm solution", 1e-9);
    same(A, a, "operand changed");
    mc::state(std::string(isComplex ? "c" : "r") + "mls" + mc::joinChoices());
}

template <std::size_t R>
static void smallRows() {
    switch (mc::choose(5, "K")) {
        case 0: return smallShape<R, 0>();
        case 1: return smallShape<R, 1>();
        case 2: return smallShape<R, 2>();
        case 3: return smallShape<R, 3>();
        case 4: return smallShape<R, 4>();
    }
}
static void body() {
    int part = mc::choose(8, "part");
    mc::setKey("");
    switch (part) {
        case 0:
            switch (mc::choose(4, "R")) {
                case 0: return smallRows<1>();
                case 1: return smallRows<2>();
                case 2: return smallRows<3>();
                case 3: return smallRows<4>();
            }
            break;
        case 1:
            switch (mc::choose(4, "N")) {
                case 0: return squareSmall<1>();
                case 1: return squareSmall<2>();
                case 2: return squareSmall<3>();
                case 3: return squareSmall<4>();
            }
            break;
        case 2:
            switch (mc::choose(3, "N")) {
                case 0: return wedgeSmall<2>();
                case 1: return wedgeSmall<3>();
                case 2: return wedgeSmall<4>();
            }
            break;
        case 3: {
            int n = mc::choose(4, "N"), k = mc::choose(2, "entries");
            if (k == 0) {
                if (n == 0) return smallVector<1, double>();
                if (n == 1) return smallVector<2, double>();
                if (n == 2) return smallVector<3, double>();
                return smallVector<4, double>();
            }
            if (n == 0) return smallVector<1, C>();
            if (n == 1) return smallVector<2, C>();
            if (n == 2) return smallVector<3, C>();
            return smallVector<4, C>();
        }
        case 4: return middleVector();
        case 5: return middleElementwise();
        case 6: return middleProduct();
        case 7: return mc::choose(2, "ls") ? middleLeastSquares() : middleSolve();
    }
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 4;
    return mc::run(body);
}
