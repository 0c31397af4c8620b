// Bounded native stand-in and failing-input search for the convolution properties (public C++ interface).
#include "common.h"
#include "conviqt.hpp"
using namespace conviqt;
static bool thorough = false;

static void put(Alm<xcomplex<float>> &a, Exp &e) {
    for (int m = 0; m <= e.mmax; ++m) for (int l = m; l <= e.lmax; ++l) a(l, m).Set(e.at(l, m).real(), e.at(l, m).imag());
}
static std::string fn(const char *tag) { return g_tmp + "/" + tag + ".fits"; }
static void sync_rng(unsigned long s) { rng_.seed(s); }

struct Case {
    int lsky, lbeam, mbeam, lmax, mmax, order; bool pol;
    Exp s[3], b[3];
    sky S; beam B; detector D;
    double eps = 0.01;
    Oracle O;
    // every rank draws the same numbers
    void make(int lsky_, int lbeam_, int mbeam_, int lmax_, int mmax_, int order_, bool pol_, bool full = true) {
        lsky = lsky_; lbeam = lbeam_; mbeam = mbeam_; lmax = lmax_; mmax = mmax_; order = order_; pol = pol_;
        std::vector<std::vector<Row>> hs, hb;
        for (int c = 0; c < (pol ? 3 : 1); ++c) {
            s[c].set(lsky, lsky); b[c].set(lbeam, mbeam);
            if (full) { s[c].random(c ? 2 : 0); b[c].random(c ? 2 : 0); }
            hs.push_back(rows_of(s[c])); hb.push_back(rows_of(b[c]));
        }
        if (g_rank == 0) { write_fits(fn("s"), hs, lsky, lsky, true); write_fits(fn("b"), hb, lbeam, mbeam, true); }
        MPI_Barrier(MPI_COMM_WORLD);
        S.read(lsky, pol, fn("s"), 0, MPI_COMM_WORLD);
        B.read(lbeam, mbeam, pol, fn("b"), MPI_COMM_WORLD);
        MPI_Barrier(MPI_COMM_WORLD);
        D.set_epsilon(eps);
        setO();
    }
    void setO() {
        O.S.clear(); O.Bm.clear(); O.cache.clear(); O.lmax = lmax; O.mmax = mmax;
        for (int c = 0; c < (pol ? 3 : 1); ++c) { O.S.push_back(&s[c]); O.Bm.push_back(&b[c]); }
    }
    void store() {
        put(S.slmT(), s[0]); put(B.blmT(), b[0]);
        if (pol) { put(S.slmG(), s[1]); put(S.slmC(), s[2]); put(B.blmG(), b[1]); put(B.blmC(), b[2]); }
        O.cache.clear();
    }
    ~Case() { if (O.finding) g_finding = true; }
    double scale() { double a = 0; for (int c = 0; c < (pol ? 3 : 1); ++c) { double x = 0, y = 0; for (auto &v : s[c].v) x += std::norm(v); for (auto &v : b[c].v) y += std::norm(v); a += sqrt(x * y); } return a + 1e-30; }
    // the library multiplies the coefficients in single precision: a bound of the rounding of the integral
    double eps32() {
        double a = 0;
        for (int q = 0; q < (pol ? 3 : 1); ++q) for (int l = 0; l <= std::min(s[q].lmax, b[q].lmax); ++l) {
            double x = 0, y = 0;
            for (int m = 0; m <= l; ++m) { x += (m ? 2 : 1) * std::abs(s[q].get(l, m)); y += (m ? 2 : 1) * std::abs(b[q].get(l, m)); }
            a += x * y;
        }
        return 3e-7 * a + 1e-30;
    }
    double cal(bool calibrate) { return calibrate && !B.normalized() ? 2. / (1. + eps) : 1.; }
    std::string str() { char t[200]; snprintf(t, sizeof t, "lsky=%d lbeam=%d mbeam=%d lmax=%d mmax=%d order=%d pol=%d ranks=%d threads=%d", lsky, lbeam, mbeam, lmax, mmax, order, (int)pol, g_size, omp_get_max_threads()); return t; }
};

typedef std::vector<double> V;   // rows of five
static void fill(pointing &p, const V &v) { p.alloc(v.size()); for (size_t i = 0; i < v.size(); ++i) p[i] = v[i]; }
static void row(V &v, double phi, double th, double psi) { v.push_back(phi); v.push_back(th); v.push_back(psi); v.push_back(U(-9, 9)); v.push_back(U(-9, 9)); }
static V run(Case &c, const V &v, bool calibrate = false) {
    pointing p; fill(p, v);
    convolver cnv(&c.S, &c.B, &c.D, c.pol, c.lmax, c.mmax, c.order, 0, MPI_COMM_WORLD);
    int rc = cnv.convolve(p, calibrate);
    CHECK(rc == 0, "convolve returned %d (%s)", rc, c.str().c_str());
    CHECK(p.size() == v.size(), "array size changed from %zu to %zu (%s)", v.size(), (size_t)p.size(), c.str().c_str());
    V r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = p[i];
    ++g_cases;
    return r;
}
static void same_rows(Case &c, const V &a, const V &b) {
    for (size_t i = 0; i < a.size() / 5; ++i) for (int k = 0; k < 3; ++k)
        CHECK(a[5 * i + k] == b[5 * i + k], "row %zu column %d changed from %.17g to %.17g (%s, %zu rows)", i, k, a[5 * i + k], b[5 * i + k], c.str().c_str(), a.size() / 5);
}
static void signals(Case &c, const V &b, bool calibrate = false) {
    double tol = c.eps32() * (1 + c.order), f = c.cal(calibrate);
    for (size_t i = 0; i < b.size() / 5; ++i) {
        double best = 0, d = c.O.distance(b[5 * i + 1], b[5 * i], b[5 * i + 2], c.order, b[5 * i + 3] / f, tol, &best);
        CHECK(d <= tol, "row %zu phi=%.17g theta=%.17g psi=%.17g: signal %.17g, expected %.17g (%s calibrate=%d)", i, b[5 * i], b[5 * i + 1], b[5 * i + 2], b[5 * i + 3], best * f, c.str().c_str(), (int)calibrate);
    }
}
static double rtheta() {
    switch (N(0, 9)) {
    case 0: return 0; case 1: return PI; case 2: return PI / 2; case 3: return std::nextafter(PI / 2, 0); case 4: return std::nextafter(PI / 2, 4);
    default: return U(0, PI);
    }
}
// a workload for this rank; kinds cover empty ranks, ties, duplicates, poles, equator
static V workload(int kind, int n, Case &c) {
    V v;
    double t0 = U(0, PI), p0 = U(0, 7), s0 = U(0, 7);
    unsigned long sv = rng_();
    rng_.seed(sv + 7919 * (g_rank + 1));
    int cnt = n;
    if (kind == 1) cnt = g_rank == 0 ? n : 0;
    if (kind == 2) cnt = g_rank == g_size - 1 ? 1 : 0;
    if (kind == 3) cnt = N(0, n);
    if (kind == 9) cnt = 0;
    for (int i = 0; i < cnt; ++i) {
        double h = PI / (c.lmax + 1), hp = 2 * PI / (2 * c.lmax + 1);
        switch (kind) {
        case 4: row(v, U(-20, 20), t0, U(-7, 7)); break;                 // one latitude
        case 5: row(v, p0, t0, s0); break;                               // duplicates
        case 6: row(v, U(0, 2 * PI), PI / 2, U(0, 7)); break;            // equator
        case 7: row(v, U(0, 2 * PI), N(0, 1) ? 0 : PI, U(0, 7)); break;  // poles
        case 8: row(v, PI / 2 + N(-9, 9) * hp, std::min(PI, N(0, c.lmax + 1) * h), U(0, 7)); break;   // grid nodes
        default: row(v, U(-20, 20), rtheta(), U(-7, 7));
        }
    }
    rng_.seed(sv + 1);
    return v;
}
static void small(Case &c, bool pol, int omax = 7) {
    int lm = N(2, 6), mm = N(0, std::min(lm, 4));
    int order = N(1, omax);
    c.make(lm + N(0, 2), lm + N(0, 2), mm + (mm + 1 <= lm ? N(0, 1) : 0), lm, mm, order, pol);
}

static void c01() {
    for (int it = 0; it < (thorough ? 120 : 14); ++it) {
        Case c; small(c, it % 3 == 2);
        V v = workload(it % 10, N(1, 60), c), r = run(c, v, it & 1);
        same_rows(c, v, r); signals(c, r, it & 1);
    }
}
static void c02() {
    for (int it = 0; it < (thorough ? 60 : 8); ++it) {
        Case c; small(c, it % 3 == 2);
        V v = workload(N(0, 1) ? 0 : 3, N(1, 40), c);
        V r = run(c, v);
        // permute, thin and extend
        std::vector<size_t> ord(v.size() / 5); for (size_t i = 0; i < ord.size(); ++i) ord[i] = i;
        unsigned long sv = rng_(); rng_.seed(sv + g_rank);
        std::shuffle(ord.begin(), ord.end(), rng_);
        if (ord.size() > 1 && it % 2) ord.resize(N(1, ord.size()));
        V w; std::vector<long> src;
        for (size_t i : ord) {
            if (it % 3 == 1) { row(w, U(0, 7), rtheta(), U(0, 7)); src.push_back(-1); }
            for (int k = 0; k < 5; ++k) w.push_back(v[5 * i + k]);
            src.push_back(i);
        }
        rng_.seed(sv + 1);
        V q = run(c, w);
        double tol = 1e-9 * c.scale() * (1 + c.lmax);
        for (size_t i = 0; i < src.size(); ++i) if (src[i] >= 0)
            CHECK(std::fabs(q[5 * i + 3] - r[5 * src[i] + 3]) <= tol, "the sample phi=%.17g theta=%.17g psi=%.17g has signal %.17g in one workload and %.17g in another (%s)", w[5 * i], w[5 * i + 1], w[5 * i + 2], r[5 * src[i] + 3], q[5 * i + 3], c.str().c_str());
        // the same samples on other processes: shift everything by one rank
        if (g_size > 1) {
            int n = v.size(), m = 0, to = (g_rank + 1) % g_size, from = (g_rank + g_size - 1) % g_size;
            MPI_Sendrecv(&n, 1, MPI_INT, to, 0, &m, 1, MPI_INT, from, 0, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
            V x(m), rx(m);
            MPI_Sendrecv(v.data(), n, MPI_DOUBLE, to, 1, x.data(), m, MPI_DOUBLE, from, 1, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
            MPI_Sendrecv(r.data(), n, MPI_DOUBLE, to, 2, rx.data(), m, MPI_DOUBLE, from, 2, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
            V y = run(c, x);
            for (int i = 0; i < m / 5; ++i) CHECK(std::fabs(y[5 * i + 3] - rx[5 * i + 3]) <= tol, "moving the sample theta=%.17g to another process changed its signal from %.17g to %.17g (%s)", x[5 * i + 1], rx[5 * i + 3], y[5 * i + 3], c.str().c_str());
        }
        // twice through the same convolver
        pointing p; fill(p, v);
        convolver cnv(&c.S, &c.B, &c.D, c.pol, c.lmax, c.mmax, c.order, 0, MPI_COMM_WORLD);
        cnv.convolve(p, false); fill(p, w); cnv.convolve(p, false);
        for (size_t i = 0; i < w.size() / 5; ++i) CHECK(std::fabs(p[5 * i + 3] - q[5 * i + 3]) <= tol, "a second convolution with the same convolver gives %.17g instead of %.17g (%s)", p[5 * i + 3], q[5 * i + 3], c.str().c_str());
    }
}
static void c03() {
    for (int it = 0; it < (thorough ? 100 : 14); ++it) {
        Case c; small(c, it % 4 == 3, 5);
        int kinds[] = {1, 2, 9, 6, 7, 4, 3, 5, 0, 8};
        V v = workload(kinds[it % 10], it % 3 ? N(1, 12) : N(1, 200), c), r = run(c, v);
        same_rows(c, v, r); signals(c, r);
    }
}
static void c04() {
    for (int it = 0; it < (thorough ? 200 : 30); ++it) {
        Case c; if (it % 10 == 0 || 1) { c.make(2, 2, 1, 2, 1, 2, false); }
        int n = N(1, 30);
        V v = workload(0, n, c);
        // legal extremes are not refused
        V w = v; for (size_t i = 0; i < w.size() / 5; ++i) w[5 * i + 1] = N(0, 2) == 0 ? 0. : N(0, 1) ? PI : std::nextafter(PI, 0);
        try { run(c, w); } catch (std::exception &e) { fail("legal co-latitudes refused: %s", e.what()); }
        double bad[] = {-1e-300, -5e-324, -1e-12, -1, std::nextafter(PI, 4), PI + 1e-9, 4, 1e300, INFINITY, -INFINITY, NAN, -NAN, -PI / 2, 2 * PI};
        double x = bad[it % 14];
        size_t at = it % 3 == 0 ? 0 : it % 3 == 1 ? n - 1 : N(0, n - 1);
        v[5 * at + 1] = x;
        pointing p; fill(p, v);
        convolver cnv(&c.S, &c.B, &c.D, c.pol, c.lmax, c.mmax, c.order, 0, MPI_COMM_WORLD);
        bool thrown = false;
        try { cnv.convolve(p, N(0, 1)); } catch (std::exception &e) { thrown = true; } catch (...) { thrown = true; }
        ++g_cases;
        CHECK(thrown, "theta = %.17g in row %zu of %d was accepted", x, at, n);
    }
}
static void c05() {
    // interpolation in theta and phi equals Lagrange interpolation of the grid values, for every order
    for (int it = 0; it < (thorough ? 96 : 20); ++it) {
        Case c; int lm = N(5, 8), mm = N(0, 2);
        static const int high[] = {13, 14, 15, 16, 17, 18, 21, 24};
        int order = it % 20 < 12 ? it % 20 + 1 : high[it % 20 - 12];
        c.make(lm, lm, mm, lm, mm, order, false);
        V v = workload(it % 2 ? 8 : 0, 24, c), r = run(c, v);
        signals(c, r);
    }
    // a convolver keeps its weights over calls
    for (int it = 0; it < 4; ++it) {
        Case c; small(c, false);
        convolver cnv(&c.S, &c.B, &c.D, c.pol, c.lmax, c.mmax, c.order, 0, MPI_COMM_WORLD);
        for (int k = 0; k < 3; ++k) {
            V v = workload(0, 10, c); pointing p; fill(p, v); cnv.convolve(p, false); ++g_cases;
            V r(v); for (size_t i = 0; i < r.size(); ++i) r[i] = p[i];
            signals(c, r);
        }
    }
}
static void c06() {
    for (int it = 0; it < (thorough ? 80 : 14); ++it) {
        Case c; small(c, it % 4 == 3, 9);
        V v = workload(it % 2 ? 0 : 8, 30, c), w = v;
        for (size_t i = 0; i < v.size() / 5; ++i) {
            // longitudes next to the wrap-around points as well
            if (i % 3 == 0) v[5 * i] = w[5 * i] = PI / 2 + (N(0, 1) ? 1 : -1) * (N(0, 3) ? U(0, 1e-9) : 0);
            if (i % 7 == 1) v[5 * i] = w[5 * i] = N(0, 1) ? 2 * PI : 0;
            w[5 * i] += 2 * PI * N(-3, 3);
        }
        V a = run(c, v), b = run(c, w);
        signals(c, a);
        // a shift by whole turns is exact only up to the rounding of the longitude, which moves a sample at a node across it
        double tol = 1e-9 * c.scale() * (1 + c.lmax) * 50;
        for (size_t i = 0; i < a.size() / 5; ++i) {
            if (std::fabs(a[5 * i + 3] - b[5 * i + 3]) <= tol) continue;
            double d = c.O.distance(b[5 * i + 1], v[5 * i], b[5 * i + 2], c.order, b[5 * i + 3], tol);
            CHECK(d <= tol, "longitude %.17g and %.17g give %.17g and %.17g (theta=%.17g, %s)", v[5 * i], w[5 * i], a[5 * i + 3], b[5 * i + 3], v[5 * i + 1], c.str().c_str());
        }
    }
}
static void c07(bool pol) {
    // at the nodes of the grid nothing is interpolated: every multipole must be exact
    for (int it = 0; it < (thorough ? 80 : 12); ++it) {
        Case c; int lm = it % 4 == 0 ? N(8, 12) : N(1, 6), mm = N(0, std::min(lm, 5));
        c.make(lm + N(0, 3), lm + N(0, 3), std::min(mm + (int)N(0, 2), lm), lm, mm, N(1, 5), pol);
        V v = workload(8, 40, c), r = run(c, v);
        double tol = c.eps32();
        for (size_t i = 0; i < r.size() / 5; ++i) {
            double e = c.O.exact(r[5 * i + 1], r[5 * i], r[5 * i + 2]);
            CHECK(c.O.node_distance(r[5 * i + 1], r[5 * i], r[5 * i + 2], r[5 * i + 3], tol * 10) <= tol * 10, "grid node phi=%.17g theta=%.17g psi=%.17g: signal %.17g, integral %.17g (%s)", r[5 * i], r[5 * i + 1], r[5 * i + 2], r[5 * i + 3], e, c.str().c_str());
        }
    }
    // one coefficient at a time
    for (int it = 0; it < (thorough ? 60 : 10); ++it) {
        Case c; int lm = N(2, 7), mm = N(1, std::min(lm, 5));
        c.make(lm + 1, lm + 1, mm, lm, mm, 3, pol, false);
        int l = N(0, lm + 1), m = N(0, l), k = N(0, std::min(l, mm)), q = pol ? N(0, 2) : 0;
        c.s[q].at(l, m) = std::complex<float>(U(-1, 1), m ? U(-1, 1) : 0); c.b[q].at(l, k) = std::complex<float>(U(-1, 1), k ? U(-1, 1) : 0);
        c.store();
        V v = workload(8, 30, c), r = run(c, v);
        for (size_t i = 0; i < r.size() / 5; ++i) {
            double e = c.O.exact(r[5 * i + 1], r[5 * i], r[5 * i + 2]);
            CHECK(c.O.node_distance(r[5 * i + 1], r[5 * i], r[5 * i + 2], r[5 * i + 3], c.eps32()) <= c.eps32(), "component %d l=%d m=%d k=%d at phi=%.17g theta=%.17g psi=%.17g: signal %.17g, integral %.17g (%s)", q, l, m, k, r[5 * i], r[5 * i + 1], r[5 * i + 2], r[5 * i + 3], e, c.str().c_str());
        }
    }
    // smooth sky on a fine grid: small interpolation error everywhere
    for (int it = 0; it < (thorough ? 10 : 2); ++it) {
        Case c; c.make(30, 30, 2, 30, 2, 9, pol, false);
        for (int q = 0; q < (pol ? 3 : 1); ++q) { c.s[q].random(q ? 2 : 0, 3); c.b[q].random(q ? 2 : 0, 3); }
        c.store();
        V v = workload(0, 60, c), r = run(c, v);
        Oracle o = c.O; o.lmax = 3;
        double tol = 1e-6 * c.scale() + c.eps32();
        for (size_t i = 0; i < r.size() / 5; ++i) {
            double e = o.exact(r[5 * i + 1], r[5 * i], r[5 * i + 2]);
            CHECK(std::fabs(e - r[5 * i + 3]) <= tol || c.O.distance(r[5 * i + 1], r[5 * i], r[5 * i + 2], c.order, r[5 * i + 3], tol) <= tol, "phi=%.17g theta=%.17g psi=%.17g: signal %.17g, integral %.17g (%s)", r[5 * i], r[5 * i + 1], r[5 * i + 2], r[5 * i + 3], e, c.str().c_str());
        }
    }
}
static void c08() {
    c07(true);
    for (int it = 0; it < (thorough ? 60 : 8); ++it) {
        Case c; small(c, true);
        V v = workload(0, 30, c), r = run(c, v), t(v.size());
        double tol = c.eps32();
        // the three components add up; with the others zero each is the unpolarised formula
        Exp s[3] = {c.s[0], c.s[1], c.s[2]};
        V sum(v.size(), 0.), first;
        for (int q = 0; q < 3; ++q) {
            for (int k = 0; k < 3; ++k) { c.s[k] = s[k]; if (k != q) c.s[k].set(c.lsky, c.lsky); }
            c.store();
            V x = run(c, v); for (size_t i = 0; i < x.size(); ++i) sum[i] += x[i];
            if (q == 0) first = x;
        }
        for (size_t i = 0; i < v.size() / 5; ++i) CHECK(std::fabs(sum[5 * i + 3] - r[5 * i + 3]) <= tol * 10, "components add to %.17g, together %.17g (%s)", sum[5 * i + 3], r[5 * i + 3], c.str().c_str());
        { pointing p; fill(p, v); convolver cnv(&c.S, &c.B, &c.D, false, c.lmax, c.mmax, c.order, 0, MPI_COMM_WORLD);
          for (int k = 0; k < 3; ++k) c.s[k] = s[k]; c.store(); cnv.convolve(p, false); ++g_cases;
          for (size_t i = 0; i < v.size() / 5; ++i) CHECK(std::fabs(first[5 * i + 3] - p[5 * i + 3]) <= tol * 10, "polarised with vanishing gradient and curl %.17g, unpolarised %.17g (%s)", first[5 * i + 3], (double)p[5 * i + 3], c.str().c_str()); }
        // linear in the sky and in the beam
        double a = U(-3, 3);
        for (int k = 0; k < 3; ++k) for (auto &z : c.s[k].v) z *= 2; c.store();
        V x = run(c, v); for (size_t i = 0; i < v.size() / 5; ++i) CHECK(std::fabs(x[5 * i + 3] - 2 * r[5 * i + 3]) <= tol * 10, "twice the sky gives %.17g instead of %.17g (%s)", x[5 * i + 3], 2 * r[5 * i + 3], c.str().c_str());
        for (int k = 0; k < 3; ++k) for (auto &z : c.b[k].v) z *= -0.5f; c.store();
        x = run(c, v); for (size_t i = 0; i < v.size() / 5; ++i) CHECK(std::fabs(x[5 * i + 3] + r[5 * i + 3]) <= tol * 10, "scaled beam gives %.17g instead of %.17g (%s)", x[5 * i + 3], -r[5 * i + 3], c.str().c_str());
        (void)a;
    }
}
static void c09() {
    for (int it = 0; it < (thorough ? 60 : 10); ++it) {
        Case c; small(c, it & 1);
        c.eps = it % 3 == 0 ? 0 : U(-0.5, 0.9); c.D.set_epsilon(c.eps);
        CHECK(c.D.get_epsilon() == c.eps, "epsilon is read back as %g", c.D.get_epsilon());
        CHECK(!c.B.normalized(), "a freshly read beam claims to be normalised");
        c.b[0].at(0, 0) = std::complex<float>(U(0.2, 2), 0); c.store();
        V v = workload(it % 4, 12, c);
        V r0 = run(c, v, false), r1 = run(c, v, true);
        signals(c, r0, false); signals(c, r1, true);
        double b00 = c.b[0].at(0, 0).real();
        double f = c.B.normalize();
        double want = 1 / (2 * std::sqrt(PI) * b00);
        CHECK(std::fabs(f / want - 1) < 1e-12, "normalize returned %.17g, expected %.17g", f, want);
        CHECK(c.B.normalized(), "normalize() does not mark the beam");
        auto cmp = [&](Alm<xcomplex<float>> &a, Exp &e, const char *w) {
            for (int m = 0; m <= e.mmax; ++m) for (int l = m; l <= e.lmax; ++l) {
                CHECK(std::fabs(a(l, m).re - e.at(l, m).real() * want) <= 1e-6 * std::fabs(want) && std::fabs(a(l, m).im - e.at(l, m).imag() * want) <= 1e-6 * std::fabs(want), "normalize: %s(%d,%d) = %g, expected %g", w, l, m, a(l, m).re, e.at(l, m).real() * want); }
        };
        cmp(c.B.blmT(), c.b[0], "T"); if (c.pol) { cmp(c.B.blmG(), c.b[1], "G"); cmp(c.B.blmC(), c.b[2], "C"); }
        V r2 = run(c, v, true), r3 = run(c, v, false);
        for (size_t i = 0; i < v.size() / 5; ++i) {
            CHECK(r2[5 * i + 3] == r3[5 * i + 3] || std::fabs(r2[5 * i + 3] - r3[5 * i + 3]) < 1e-12 * c.scale(), "calibration applied to a normalised beam (%g, %g)", r2[5 * i + 3], r3[5 * i + 3]);
            CHECK(std::fabs(r3[5 * i + 3] - want * r0[5 * i + 3]) <= 1e-4 * std::fabs(want) * c.scale(), "normalised signal %g, expected %g", r3[5 * i + 3], want * r0[5 * i + 3]);
        }
        float keep = c.B.blmT()(0, 0).re;
        double g = c.B.normalize();
        CHECK(g == 1.0 && c.B.blmT()(0, 0).re == keep && c.B.normalized(), "normalising again returned %.17g and changed the beam from %g to %g", g, keep, c.B.blmT()(0, 0).re);
        // loading new coefficients
        c.B.read(c.lbeam, c.mbeam, c.pol, fn("b"), MPI_COMM_WORLD);
        CHECK(!c.B.normalized(), "a beam still counts as normalised after new coefficients were loaded");
        MPI_Barrier(MPI_COMM_WORLD);
    }
}
static void c10() {
    { sky s0; s0.remove_monopole(); s0.remove_dipole(); ++g_cases; }
    for (int it = 0; it < (thorough ? 200 : 40); ++it) {
        Case c; int lm = it < 4 ? 1 : N(1, 9); c.make(lm, lm, 0, lm, 0, 1, it & 1);
        int what = it % 4;
        Exp e[3] = {c.s[0], c.s[1], c.s[2]};
        if (what == 0 || what == 2) { c.S.remove_monopole(); e[0].at(0, 0) = 0; }
        if (what == 1 || what == 2) { c.S.remove_dipole(); e[0].at(1, 0) = 0; e[0].at(1, 1) = 0; }
        if (what == 3) { c.S.remove_dipole(); c.S.remove_dipole(); e[0].at(1, 0) = 0; e[0].at(1, 1) = 0; }
        for (int q = 0; q < (c.pol ? 3 : 1); ++q) {
            Alm<xcomplex<float>> &a = q == 0 ? c.S.slmT() : q == 1 ? c.S.slmG() : c.S.slmC();
            CHECK(a.Lmax() == lm && a.Mmax() == lm, "removal changed the size");
            for (int l = 0; l <= lm; ++l) for (int m = 0; m <= l; ++m)
                CHECK(a(l, m).re == e[q].at(l, m).real() && a(l, m).im == e[q].at(l, m).imag(), "removal mode %d: component %d (%d,%d) is %g,%g, expected %g,%g", what, q, l, m, a(l, m).re, a(l, m).im, e[q].at(l, m).real(), e[q].at(l, m).imag());
        }
        ++g_cases;
    }
    // an expansion that holds the monopole only
    for (int it = 0; it < 2; ++it) {
        Exp e; e.set(0, 0); e.at(0, 0) = 3;
        if (g_rank == 0) write_fits(fn("m"), {rows_of(e), rows_of(e), rows_of(e)}, 0, 0, true);
        MPI_Barrier(MPI_COMM_WORLD);
        sky s; s.read(-1, it, fn("m"), 0, MPI_COMM_WORLD); s.remove_dipole();
        CHECK(s.slmT()(0, 0).re == 3, "dipole removal changed the monopole"); s.remove_monopole();
        CHECK(s.slmT()(0, 0).re == 0, "monopole kept"); ++g_cases; MPI_Barrier(MPI_COMM_WORLD);
    }
}
static void c11() {
    for (int it = 0; it < (thorough ? 300 : 60); ++it) {
        bool pol = it % 2; int lf = N(1, 14), mf = N(0, lf); bool isky = (it / 2) % 2; if (isky) mf = lf;
        bool keys = N(0, 1);
        Exp e[3]; std::vector<std::vector<Row>> h;
        for (int q = 0; q < (pol ? 3 : 1); ++q) {
            e[q].set(lf, mf); e[q].random();
            auto r = rows_of(e[q]);
            std::shuffle(r.begin(), r.end(), rng_);
            if (it % 3) for (size_t i = 0; i < r.size();) {   // drop some
                bool corner = (r[i].l == lf && r[i].m == mf) || (r[i].l == lf && r[i].m == 0);
                if (!corner && N(0, 3) == 0) { e[q].at(r[i].l, r[i].m) = 0; r.erase(r.begin() + i); } else ++i;
            }
            h.push_back(r);
        }
        // other components never in the way
        if (!pol && N(0, 1)) { Exp z; z.set(lf + 1, 0); z.random(); h.push_back(rows_of(z)); }
        if (g_rank == 0) write_fits(fn("r"), h, lf, mf, keys);
        MPI_Barrier(MPI_COMM_WORLD);
        int lr = it % 5 == 4 ? (N(0, 1) ? 0 : -1) : N(1, lf), le = lr > 0 ? lr : lf;
        int mr, me;
        if (isky) { mr = me = le; }
        else { mr = it % 7 == 6 ? (N(0, 1) ? 0 : -1) : N(0, std::min(mf, le)); if (mr > std::min(mf, le)) mr = 0; me = mr > 0 ? mr : std::min(mf, le); }
        sky s; beam b;
        // also reload over an earlier, larger content
        if (it % 4 == 1) { try { if (isky) s.read(lf, pol, fn("r"), 0, MPI_COMM_WORLD); else b.read(lf, mf, pol, fn("r"), MPI_COMM_WORLD); } catch (std::exception &x) { fail("reading a file with lmax=%d mmax=%d as it is was refused: %s", lf, mf, x.what()); } }
        try { if (isky) s.read(lr, pol, fn("r"), 0, MPI_COMM_WORLD); else b.read(lr, mr, pol, fn("r"), MPI_COMM_WORLD); }
        catch (std::exception &x) { fail("reading lmax=%d mmax=%d of %s with lmax=%d mmax=%d was refused: %s", lr, mr, isky ? "sky" : "beam", lf, mf, x.what()); }
        if (isky) CHECK(s.get_lmax() == le, "sky limit %d, expected %d (request %d, file %d)", s.get_lmax(), le, lr, lf);
        else CHECK(b.get_lmax() == le && b.get_mmax() == me, "beam limits %d,%d, expected %d,%d (request %d,%d file %d,%d)", b.get_lmax(), b.get_mmax(), le, me, lr, mr, lf, mf);
        for (int q = 0; q < (pol ? 3 : 1); ++q) {
            Alm<xcomplex<float>> &a = isky ? (q == 0 ? s.slmT() : q == 1 ? s.slmG() : s.slmC()) : (q == 0 ? b.blmT() : q == 1 ? b.blmG() : b.blmC());
            CHECK(a.Lmax() == le && a.Mmax() == me, "%s component %d has size %d,%d, expected %d,%d", isky ? "sky" : "beam", q, a.Lmax(), a.Mmax(), le, me);
            for (int l = 0; l <= le; ++l) for (int m = 0; m <= std::min(l, me); ++m)
                CHECK(a(l, m).re == e[q].at(l, m).real() && a(l, m).im == e[q].at(l, m).imag(), "%s component %d (%d,%d) is %g,%g, the file has %g,%g (request %d,%d file %d,%d keys=%d)", isky ? "sky" : "beam", q, l, m, a(l, m).re, a(l, m).im, e[q].at(l, m).real(), e[q].at(l, m).imag(), lr, mr, lf, mf, (int)keys);
        }
        // too much requested
        for (int k = 0; k < 2; ++k) {
            bool thrown = false;
            try { if (isky) { sky s2; s2.read(lf + 1 + k, pol, fn("r"), 0, MPI_COMM_WORLD); } else { beam b2; if (k) b2.read(lf + 1, mf, pol, fn("r"), MPI_COMM_WORLD); else b2.read(lf, mf + 1, pol, fn("r"), MPI_COMM_WORLD); } } catch (...) { thrown = true; }
            CHECK(thrown, "a request beyond the file (%d,%d) was accepted (%s %d)", lf, mf, isky ? "sky" : "beam", k);
        }
        if (isky && lf > 1) {   // the file must have m up to l
            Exp z; z.set(lf, lf - 1); z.random(); if (g_rank == 0) { std::vector<std::vector<Row>> hz; for (int q = 0; q < 3; ++q) hz.push_back(rows_of(z)); write_fits(fn("r2"), hz, lf, lf - 1, keys); }
            MPI_Barrier(MPI_COMM_WORLD);
            bool thrown = false; try { sky s2; s2.read(lf, pol, fn("r2"), 0, MPI_COMM_WORLD); } catch (...) { thrown = true; }
            CHECK(thrown, "a sky file with mmax=%d was accepted for lmax=%d", lf - 1, lf);
        }
        MPI_Barrier(MPI_COMM_WORLD); ++g_cases;
    }
}
static void c12() {
    for (int it = 0; it < (thorough ? 200 : 30); ++it) {
        int ls = N(1, 7), lb = N(1, 7), mb = N(0, lb); bool pol = it % 2;
        Case c; c.make(ls, lb, mb, std::min(ls, lb), std::min(mb, std::min(ls, lb)), N(1, 4), pol);
        int tries[][2] = {{ls + 1, 0}, {lb + 1, 0}, {1, mb + 1}, {std::max(ls, lb) + 3, 0}, {std::min(ls, lb), mb}, {-1, mb}, {std::min(ls, lb), -1}, {-1, -1}, {0, 0}, {-7, 0}, {-1, mb + 1}, {5000, 0}};
        for (auto &t : tries) {
            bool bad = t[0] > ls || t[0] > lb || t[1] > mb, thrown = false;
            convolver *p = 0;
            try { p = new convolver(&c.S, &c.B, &c.D, pol, t[0], t[1], c.order, 0, MPI_COMM_WORLD); } catch (std::exception &e) { thrown = true; }
            CHECK(bad == thrown, "convolver(lmax=%d, beammmax=%d) on sky lmax=%d, beam lmax=%d mmax=%d: %s", t[0], t[1], ls, lb, mb, thrown ? "refused" : "accepted");
            ++g_cases;
            if (p && it % 3 == 0 && t[0] != 0) {
                c.lmax = t[0] < 0 ? std::min(ls, lb) : t[0]; c.mmax = t[1] < 0 ? mb : t[1]; c.setO();
                V v = workload(8, 12, c); pointing q; fill(q, v); p->convolve(q, false);
                V r(v); for (size_t i = 0; i < r.size(); ++i) r[i] = q[i];
                signals(c, r);
            }
            delete p;
        }
    }
}
static void c13() {
    for (int it = 0; it < (thorough ? 40 : 12); ++it) {
        Case c; small(c, it & 1);
        auto thr = [&](std::function<void()> f) { try { f(); } catch (std::exception &e) { return true; } return false; };
        bool t[4] = {thr([&] { c.S.slmG(); }), thr([&] { c.S.slmC(); }), thr([&] { c.B.blmG(); }), thr([&] { c.B.blmC(); })};
        for (int k = 0; k < 4; ++k) CHECK(t[k] == !c.pol, "accessor %d on %s expansion %s", k, c.pol ? "a polarised" : "an unpolarised", t[k] ? "throws" : "does not throw");
        if (c.pol) {
            Alm<xcomplex<float>> *a[6] = {&c.S.slmT(), &c.S.slmG(), &c.S.slmC(), &c.B.blmT(), &c.B.blmG(), &c.B.blmC()};
            for (int x = 0; x < 6; ++x) for (int y = 0; y < x; ++y) CHECK(a[x] != a[y], "accessors %d and %d return the same expansion", y, x);
            for (int x = 0; x < 6; ++x) { Exp &e = x < 3 ? c.s[x] : c.b[x - 3]; for (int l = 0; l <= e.lmax; ++l) for (int m = 0; m <= std::min(l, e.mmax); ++m) CHECK((*a[x])(l, m).re == e.at(l, m).real(), "accessor %d returns another component", x); }
            // read again without polarisation
            c.S.read(c.lsky, false, fn("s"), 0, MPI_COMM_WORLD); c.B.read(c.lbeam, c.mbeam, false, fn("b"), MPI_COMM_WORLD);
            CHECK(thr([&] { c.S.slmG(); }) && thr([&] { c.S.slmC(); }) && thr([&] { c.B.blmG(); }) && thr([&] { c.B.blmC(); }), "polarised components of an expansion last read without polarisation");
        }
        MPI_Barrier(MPI_COMM_WORLD); ++g_cases;
    }
}
static void c22() {
    int nt[] = {1, 2, 3, 5, 8, 16};
    for (int it = 0; it < (thorough ? 30 : g_size > 1 ? 1 : 4); ++it) {
        Case c; int lm = N(9, 24), mm = N(1, 4);
        c.make(lm, lm, mm, lm, mm, N(1, 5), it & 1);
        V v = workload(0, 200, c), r0;
        for (int t : nt) for (int rep = 0; rep < (t > 1 ? 2 : 1); ++rep) {
            omp_set_num_threads(t);
            V r = run(c, v);
            if (r0.empty()) r0 = r;
            for (size_t i = 0; i < r.size() / 5; ++i) CHECK(std::fabs(r[5 * i + 3] - r0[5 * i + 3]) <= 1e-11 * c.scale(), "row %zu: %.17g with one thread, %.17g with %d threads (%s)", i, r0[5 * i + 3], r[5 * i + 3], t, c.str().c_str());
        }
        omp_set_num_threads(2);
    }
}
static void c23() {
    for (int it = 0; it < (thorough ? 150 : 40); ++it) {
        bool pol = it & 1; int lm = N(1, 30);
        Case c; c.make(lm, lm, 0, lm, 0, 1, pol);
        double w = it % 5 == 0 ? 0 : it % 5 == 1 ? -U(0, 120) : U(0, 240);   // arcmin
        double sg = std::fabs(w) * PI / 180 / 60 / std::sqrt(8 * std::log(2.)), s2 = (w >= 0 ? 1 : -1) * sg * sg;
        sky s; s.read(lm, pol, fn("s"), w, MPI_COMM_WORLD);
        for (int q = 0; q < (pol ? 3 : 1); ++q) {
            Alm<xcomplex<float>> &a = q == 0 ? s.slmT() : q == 1 ? s.slmG() : s.slmC();
            for (int l = 0; l <= lm; ++l) for (int m = 0; m <= l; ++m) {
                double f = std::exp(0.5 * s2 * (l * (l + 1.) - (q ? 4 : 0)));
                double x = c.s[q].at(l, m).real() * f, y = c.s[q].at(l, m).imag() * f;
                CHECK(std::fabs(a(l, m).re - x) <= 2e-6 * std::fabs(f) && std::fabs(a(l, m).im - y) <= 2e-6 * std::fabs(f), "deconvolution with %g arcmin: component %d (%d,%d) is %.9g,%.9g, expected %.9g,%.9g", w, q, l, m, a(l, m).re, a(l, m).im, x, y);
                if (w == 0) CHECK(a(l, m).re == c.s[q].at(l, m).real(), "a zero width changes (%d,%d)", l, m);
            }
        }
        // the library smoothing function itself
        Alm<xcomplex<double>> t(lm, lm), g(lm, lm), k(lm, lm);
        for (int l = 0; l <= lm; ++l) for (int m = 0; m <= l; ++m) { t(l, m).Set(1 + l, m); g(l, m).Set(l - 3, 2 * m); k(l, m).Set(l, 1 - m); }
        double fw = w * PI / 10800;
        Alm<xcomplex<double>> t1 = t, t2 = t, g2 = g, k2 = k;
        smoothWithGauss(t1, fw); smoothWithGauss(t2, g2, k2, fw);
        for (int l = 0; l <= lm; ++l) for (int m = 0; m <= l; ++m) {
            double f = std::exp(-0.5 * s2 * l * (l + 1.)), fp = std::exp(-0.5 * s2 * (l * (l + 1.) - 4));
            CHECK(std::fabs(t1(l, m).re - f * (1 + l)) <= 1e-9 * f * (1 + l) && std::fabs(t2(l, m).im - f * m) <= 1e-9 * f * (1 + m), "smoothing with fwhm %g: T(%d,%d) = %g", fw, l, m, t1(l, m).re);
            CHECK(std::fabs(g2(l, m).re - fp * (l - 3)) <= 1e-9 * fp * (4 + l) && std::fabs(k2(l, m).im - fp * (1 - m)) <= 1e-9 * fp * (2 + m), "smoothing with fwhm %g: G(%d,%d) = %g, expected %g", fw, l, m, g2(l, m).re, fp * (l - 3));
        }
        MPI_Barrier(MPI_COMM_WORLD); ++g_cases;
    }
}

int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &g_rank); MPI_Comm_size(MPI_COMM_WORLD, &g_size);
    std::cerr.setstate(std::ios::badbit);  // the library announces every exception there
    std::string what = argv[1]; unsigned long seed = strtoul(argv[2], 0, 10); thorough = argc > 3 && std::string(argv[3]) == "thorough";
    g_tmp = argc > 4 ? argv[4] : ".";
    rng_.seed(seed * 1000003 + std::hash<std::string>()(what));
    std::map<std::string, std::function<void()>> t = {{"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", [] { c07(false); }}, {"C08", c08}, {"C09", c09}, {"C10", c10}, {"C11", c11}, {"C12", c12}, {"C13", c13}, {"C22", c22}, {"C23", c23}};
    if (!t.count(what)) { printf("unknown\n"); return 2; }
    try { t[what](); } catch (std::exception &e) { fail("unexpected exception: %s", e.what()); } catch (levels::LEVELSError &e) { fail("unexpected exception: %s", e.what()); } catch (...) { fail("unexpected exception"); }
    int fnd = g_finding; MPI_Allreduce(MPI_IN_PLACE, &fnd, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    if (g_rank == 0 && fnd) printf("FINDING pole\n");
    if (g_rank == 0) printf("OK %s cases %ld\n", what.c_str(), g_cases);
    MPI_Finalize();
    return 0;
}
