// C15 sorting, C16 Fourier transforms, C17 Wigner elements, C18 coefficient storage, C19 containers, C20 helpers
#include "common.h"
#include "conviqt.hpp"
#include "ls_arr.h"
#include "ls_alm.h"
#include "ls_wigner.h"
#include "ls_xcomplex.h"
#include "ls_fftpack_support.h"
#include "ls_fft.h"
#include "ls_math_utils.h"
#include "ls_share_utils.h"
#include "ls_safe_cast.h"
using levels::arr; using levels::xcomplex; using levels::Alm; using levels::tsize;
static bool thorough = false;
namespace conviqt { void hpsort_arr(levels::arr<double> &ra, int sortcol) __attribute__((weak)); }

// ------------------------------------------------------------------ C15
static double key(int kind) { switch (kind) { case 0: return U(-1, 1); case 1: return N(0, 3); case 2: return 7; case 3: return N(0, 1) ? 0. : -0.; case 4: { double v[] = {INFINITY, -INFINITY, 1e308, -1e308, 5e-324, 0}; return v[N(0, 5)]; } default: return N(-1000, 1000) * 1e-3; } }
static void c15() {
    typedef void (*F)(levels::arr<double> &);
    struct { F f; int col; const char *n; } fs[] = {{conviqt::hpsort_arrTheta, 1, "hpsort_arrTheta"}, {conviqt::hpsort_arrTOD, 3, "hpsort_arrTOD"}, {conviqt::hpsort_arrTime, 4, "hpsort_arrTime"}};
    for (int it = 0; it < (thorough ? 4000 : 600); ++it) {
        int n = it < 12 ? it : it % 50 == 0 ? N(2000, 20000) : N(1, 60), kind = N(0, 5), order = N(0, 3);
        auto rows = [&](std::vector<std::array<double, 5>> &v) { v.resize(n); for (int i = 0; i < n; ++i) for (int k = 0; k < 5; ++k) v[i][k] = key(kind); 
            if (order == 1) std::sort(v.begin(), v.end(), [](auto &a, auto &b) { return a[1] < b[1]; });
            if (order == 2) std::sort(v.begin(), v.end(), [](auto &a, auto &b) { return a[1] > b[1]; }); };
        std::vector<std::array<double, 5>> v; rows(v);
        auto check = [&](arr<double> &a, int col, const char *nm) {
            CHECK(a.size() == (size_t)5 * n, "%s changed the size of %d rows", nm, n);
            for (int i = 1; i < n; ++i) CHECK(a[5 * (i - 1) + col] <= a[5 * i + col], "%s: rows %d and %d of %d are not in order (%.17g, %.17g)", nm, i - 1, i, n, a[5 * (i - 1) + col], a[5 * i + col]);
            std::vector<std::array<double, 5>> w(n), s = v;
            for (int i = 0; i < n; ++i) for (int k = 0; k < 5; ++k) w[i][k] = a[5 * i + k];
            auto bits = [](const std::array<double, 5> &x, const std::array<double, 5> &y) { return memcmp(&x, &y, sizeof x) < 0; };
            std::sort(w.begin(), w.end(), bits); std::sort(s.begin(), s.end(), bits);
            for (int i = 0; i < n; ++i) CHECK(!memcmp(&w[i], &s[i], sizeof w[i]), "%s: a row of the %d given is lost or altered: (%g %g %g %g %g)", nm, n, s[i][0], s[i][1], s[i][2], s[i][3], s[i][4]);
            ++g_cases;
        };
        auto load = [&](arr<double> &a, int extra = 0) { a.alloc(5 * n + extra); for (int i = 0; i < n; ++i) for (int k = 0; k < 5; ++k) a[5 * i + k] = v[i][k]; };
        for (auto &f : fs) { arr<double> a; load(a); f.f(a); check(a, f.col, f.n); }
        if (conviqt::hpsort_arr) {
            for (int col = 0; col < 5; ++col) { arr<double> a; load(a); conviqt::hpsort_arr(a, col); check(a, col, "hpsort_arr"); }
            int bad[] = {-1, 5, 6, -5, 2147483647, -2147483647 - 1};
            for (int b : bad) { arr<double> a; load(a); bool t = false; try { conviqt::hpsort_arr(a, b); } catch (...) { t = true; }
                CHECK(t, "sorting on column %d was accepted", b);
                for (int i = 0; i < n; ++i) CHECK(!memcmp(&a[5 * i], &v[i], 40), "sorting on column %d changed row %d", b, i); }
        }
        // companions that need every bit of their type
        const long LSTEP = N(0, 1) ? 7 : 70368744177671L;
        auto LV = [&](int i) { return i * LSTEP - 3; };
        auto DV = [](int i) { return (i + 1) / 3.; };
        for (int which = 0; which < 2; ++which) for (int dn = -1; dn <= 1; ++dn) {
            if (n + dn < 0) continue;
            arr<double> a(n), b2(n + dn); arr<long> b(n + dn);
            for (int i = 0; i < n; ++i) a[i] = v[i][1];
            for (int i = 0; i < n + dn; ++i) { b[i] = LV(i); b2[i] = DV(i); }
            bool t = false;
            try { if (which) conviqt::hpsort_DDcm(a, b2); else conviqt::hpsort_DL(a, b); } catch (...) { t = true; }
            CHECK(t == (dn != 0), "%s with %d keys and %d values was %s", which ? "hpsort_DDcm" : "hpsort_DL", n, n + dn, t ? "refused" : "accepted");
            CHECK((int)a.size() == n && (int)(which ? b2.size() : b.size()) == n + dn, "a sort changed the sizes");
            if (dn) { for (int i = 0; i < n; ++i) CHECK(!memcmp(&a[i], &v[i][1], 8), "a refused sort changed the keys"); for (int i = 0; i < n + dn; ++i) CHECK(b[i] == LV(i) && b2[i] == DV(i), "a refused sort changed the values"); continue; }
            std::vector<char> seen(n, 0);
            for (int i = 0; i < n; ++i) {
                int s = which ? (int)lrint(b2[i] * 3) - 1 : (int)lrint((b[i] + 3) / (double)LSTEP);
                CHECK(s >= 0 && s < n && !seen[s] && (which ? b2[i] == DV(s) : b[i] == LV(s)), "%s: value %d of %d is not a value that was given, or twice", which ? "hpsort_DDcm" : "hpsort_DL", i, n);
                seen[s] = 1;
                CHECK(!memcmp(&a[i], &v[s][1], 8), "%s: key %.17g is now with the value of key %.17g", which ? "hpsort_DDcm" : "hpsort_DL", a[i], v[s][1]);
                CHECK(!i || a[i - 1] <= a[i], "%s: keys %d, %d of %d not in order", which ? "hpsort_DDcm" : "hpsort_DL", i - 1, i, n);
            }
            ++g_cases;
        }
    }
}

// ------------------------------------------------------------------ C16
typedef std::complex<long double> cl;
static std::vector<cl> dft(const std::vector<cl> &x, int sg) {
    int n = x.size(); std::vector<cl> w(n), y(n);
    for (int i = 0; i < n; ++i) w[i] = std::polar(1.L, sg * 2 * 3.141592653589793238462643383279502884L * i / n);
    for (int k = 0; k < n; ++k) { cl s = 0; long p = 0; for (int j = 0; j < n; ++j) { s += x[j] * w[p]; p += k; if (p >= n) p -= n; } y[k] = s; }
    return y;
}
static void c16_one(int n) {
    std::vector<cl> x(n); long double nrm = 0;
    int kind = N(0, 3);
    for (int i = 0; i < n; ++i) x[i] = kind == 0 ? cl(i == n / 2) : cl(U(-1, 1), U(-1, 1));
    for (auto &v : x) nrm += std::norm(v);
    nrm = sqrtl(nrm) + 1e-30L;
    long double tol = 4e-15L * (3 + logl(n + 1.L)) * nrm * sqrtl((long double)n);
    auto F = dft(x, -1), Bk = dft(x, 1);
    auto cmp = [&](const double *d, const std::vector<cl> &r, const char *w) {
        for (int i = 0; i < n; ++i) CHECK(std::abs(cl(d[2 * i], d[2 * i + 1]) - r[i]) <= tol, "%s of length %d, element %d: (%.17g, %.17g), expected (%.17Lg, %.17Lg)", w, n, i, d[2 * i], d[2 * i + 1], r[i].real(), r[i].imag()); };
    auto put = [&](double *d) { for (int i = 0; i < n; ++i) { d[2 * i] = x[i].real(); d[2 * i + 1] = x[i].imag(); } };
    for (auto &v : x) v = cl((double)v.real(), (double)v.imag());
    std::vector<double> buf(2 * n + 8);
    double *d = &buf[4];
    auto canary = [&](bool set) { for (int i = 0; i < 4; ++i) { if (set) buf[i] = buf[2 * n + 4 + i] = 1e33 + i; else CHECK(buf[i] == 1e33 + i && buf[2 * n + 4 + i] == 1e33 + i, "a transform of length %d wrote outside its data", n); } };
    levels::cfft a(n), b(a), c, e(N(1, 40)), g;
    c = a; e = a; g.Set(N(1, 9)); g.Set(n);
    levels::cfft *ps[] = {&a, &b, &c, &e, &g, &a};
    for (auto p : ps) {
        CHECK(p->size() == (tsize)n, "plan of length %d reports %zu", n, (size_t)p->size());
        canary(true); put(d); p->forward(d); canary(false); cmp(d, F, "forward transform");
        canary(true); p->backward(d); canary(false);
        for (int i = 0; i < n; ++i) CHECK(std::abs(cl(d[2 * i], d[2 * i + 1]) - x[i] * (long double)n) <= tol * sqrtl((long double)n) * 2, "forward and backward transform of length %d: element %d is (%g,%g), expected %d times (%Lg,%Lg)", n, i, d[2 * i], d[2 * i + 1], n, x[i].real(), x[i].imag());
        put(d); p->backward(d); cmp(d, Bk, "backward transform");
    }
    arr<xcomplex<double>> q(n); for (int i = 0; i < n; ++i) q[i] = xcomplex<double>((double)x[i].real(), (double)x[i].imag());
    a.backward(q); cmp(&q[0].re, Bk, "backward transform"); 
    for (int i = 0; i < n; ++i) q[i] = xcomplex<double>((double)x[i].real(), (double)x[i].imag());
    a.forward(&q[0]); cmp(&q[0].re, F, "forward transform");
    // real data
    std::vector<cl> r(n); for (int i = 0; i < n; ++i) r[i] = x[i].real();
    auto R = dft(r, -1);
    levels::rfft ra(n), rb(ra), rc, rd(N(1, 40)); rc = ra; rd = ra;
    levels::rfft *rs[] = {&ra, &rb, &rc, &rd, &ra};
    std::vector<double> hb(n + 8); double *h = &hb[4];
    auto can2 = [&](bool set) { for (int i = 0; i < 4; ++i) { if (set) hb[i] = hb[n + 4 + i] = 1e33 + i; else CHECK(hb[i] == 1e33 + i && hb[n + 4 + i] == 1e33 + i, "a real transform of length %d wrote outside its data", n); } };
    for (auto p : rs) {
        can2(true); for (int i = 0; i < n; ++i) h[i] = r[i].real();
        p->forward_fftpack(h); can2(false);
        for (int i = 0; i < n; ++i) { long double w = i == 0 ? R[0].real() : i & 1 ? R[(i + 1) / 2].real() : R[i / 2].imag();
            CHECK(fabsl(h[i] - w) <= tol, "real forward transform of length %d, element %d: %.17g, expected %.17Lg", n, i, h[i], w); }
        p->backward_fftpack(h); can2(false);
        for (int i = 0; i < n; ++i) CHECK(fabsl(h[i] - n * r[i].real()) <= tol * sqrtl((long double)n) * 2, "real forward and backward transform of length %d: element %d is %.17g, expected %.17Lg", n, i, h[i], n * r[i].real());
        canary(true); for (int i = 0; i < n; ++i) { d[2 * i] = r[i].real(); d[2 * i + 1] = 0; }
        arr<xcomplex<double>> z(n); for (int i = 0; i < n; ++i) z[i] = xcomplex<double>((double)r[i].real(), 0);
        p->forward_c(z); cmp(&z[0].re, R, "real forward transform (complex layout)");
        p->backward_c(z); for (int i = 0; i < n; ++i) CHECK(fabsl(z[i].re - n * r[i].real()) <= tol * sqrtl((long double)n) * 2 && fabsl(z[i].im) <= tol * sqrtl((long double)n) * 2, "real round trip (complex layout) of length %d: element %d is (%g,%g)", n, i, z[i].re, z[i].im);
        // Hermitian input of the backward transform alone
        arr<xcomplex<double>> y(n); std::vector<cl> ys(n);
        for (int i = 0; i <= n / 2; ++i) { double re = x[i].real(), im = (i == 0 || 2 * i == n) ? 0 : x[i].imag(); ys[i] = cl(re, im); ys[(n - i) % n] = std::conj(ys[i]); }
        for (int i = 0; i < n; ++i) y[i] = xcomplex<double>((double)ys[i].real(), (double)ys[i].imag());
        auto YB = dft(ys, 1); p->backward_c(y); cmp(&y[0].re, YB, "real backward transform (complex layout)");
    }
    // half-complex layout
    { real_plan pl = make_real_plan(n), cp = copy_real_plan(pl);
      for (real_plan q : {pl, cp}) {
        can2(true); for (int i = 0; i < n; ++i) h[i] = r[i].real();
        real_plan_forward_fftw(q, h); can2(false);
        for (int i = 0; i < n; ++i) { long double w = i <= n / 2 ? R[i].real() : R[n - i].imag();
            CHECK(fabsl(h[i] - w) <= tol, "half-complex forward transform of length %d, element %d: %.17g, expected %.17Lg", n, i, h[i], w); }
        real_plan_backward_fftw(q, h); can2(false);
        for (int i = 0; i < n; ++i) CHECK(fabsl(h[i] - n * r[i].real()) <= tol * sqrtl((long double)n) * 2, "half-complex round trip of length %d: element %d is %.17g, expected %.17Lg", n, i, h[i], n * r[i].real());
      }
      kill_real_plan(pl); kill_real_plan(cp); }
    ++g_cases;
}
static void c16() {
    for (int n = 1; n <= (thorough ? 700 : 130); ++n) c16_one(n);
    int more[] = {131, 137, 149, 167, 191, 211, 251, 257, 263, 286, 289, 331, 343, 358, 361, 383, 499, 509, 512, 521, 1009, 1013, 1021, 1024, 1031, 1155, 1331, 1369};
    for (int n : more) c16_one(n);
    for (int it = 0; it < (thorough ? 60 : 6); ++it) c16_one(N(131, thorough ? 4000 : 1500));
    // chains of assignments between plans of different and equal lengths
    for (int it = 0; it < (thorough ? 2000 : 200); ++it) {
        std::vector<levels::cfft> p(4); std::vector<levels::rfft> q(4); int ln[4] = {0, 0, 0, 0};
        for (int s = 0; s < 20; ++s) {
            int a = N(0, 3), b = N(0, 3), n = N(0, 2) ? N(1, 12) : (N(0, 1) ? 211 : 263);
            switch (N(0, 4)) {
            case 0: p[a].Set(n); q[a].Set(n); ln[a] = n; break;
            case 1: p[a] = p[b]; q[a] = q[b]; ln[a] = ln[b]; break;
            case 2: { levels::cfft t(p[b]); levels::rfft u(q[b]); p[a] = t; q[a] = u; ln[a] = ln[b]; break; }
            default:
                if (!ln[a]) break;
                n = ln[a]; std::vector<cl> x(n); std::vector<double> d(2 * n), r(n);
                for (int i = 0; i < n; ++i) { x[i] = cl((double)U(-1, 1), (double)U(-1, 1)); d[2 * i] = x[i].real(); d[2 * i + 1] = x[i].imag(); r[i] = x[i].real(); }
                p[a].backward(&d[0]); auto B = dft(x, 1);
                for (int i = 0; i < n; ++i) CHECK(std::abs(cl(d[2 * i], d[2 * i + 1]) - B[i]) < 1e-11L * n, "after a chain of assignments the backward transform of length %d is wrong at %d", n, i);
                q[a].forward_fftpack(&r[0]); q[a].backward_fftpack(&r[0]);
                for (int i = 0; i < n; ++i) CHECK(std::fabs(r[i] - n * (double)x[i].real()) < 1e-11 * n, "after a chain of assignments the real round trip of length %d is wrong at %d", n, i);
                ++g_cases;
            }
        }
    }
}

// ------------------------------------------------------------------ C17
static void c17() {
    for (int it = 0; it < (thorough ? 60 : 12); ++it) {
        int L = it == 0 ? 1 : it % 6 == 5 ? N(60, thorough ? 260 : 120) : N(1, 24), nt = N(1, 7);
        double eps = N(0, 2) ? 1e-30 : (N(0, 1) ? 1e-15 : 1e-60);
        arr<double> th(nt);
        for (int i = 0; i < nt; ++i) { double s[] = {0, PI, PI / 2, 1e-3, PI - 1e-3, 1e-8, PI / 4}; th[i] = N(0, 2) ? U(0, PI) : s[N(0, 6)]; }
        levels::wignergen g(L, th, eps);
        int np = L < 10 ? (2 * L + 1) * (2 * L + 1) : thorough ? 250 : 60;
        for (int p = 0; p < np; ++p) {
            int a, b;
            static int la = 0, lb = 0;
            if (L < 10 && it % 2) { a = p % (2 * L + 1) - L; b = p / (2 * L + 1) - L; }
            else if (p && N(0, 1)) { int w = N(0, 4); a = w == 0 ? lb : w == 1 ? -la : w == 2 ? la : w == 3 ? -lb : la; b = w == 0 ? la : w == 1 ? lb : w == 2 ? -lb : w == 3 ? -la : lb; if (abs(a) > L) a = 0; if (abs(b) > L) b = 0; }
            else { a = N(-L, L); b = N(-L, L); }
            la = a; lb = b;
            g.prepare(a, b);
            for (int i = 0; i < nt; ++i) {
                auto d = wigner_d(L, a, b, th[i]);
                int f = -7; const arr<double> &r = g.calc(i, f);
                int lo = std::max(abs(a), abs(b));
                CHECK(f >= lo && f <= L + 1, "d^l_{%d,%d}(%.17g), lmax=%d: first significant degree %d", a, b, th[i], L, f);
                for (int l = lo; l < f; ++l) CHECK(fabsl(d[l]) <= eps * (1 + 1e-9L) + 1e-22L * (eps > 1e-25 ? 0 : 1) * (th[i] < 1e-7 || th[i] > PI - 1e-7) + eps * 1e-3, "d^%d_{%d,%d}(%.17g) = %Lg is not negligible, but skipped (lmax %d)", l, a, b, th[i], d[l], L);
                for (int l = f; l <= L; ++l) CHECK(fabsl(r[l] - d[l]) <= 3e-13L * (1 + l), "d^%d_{%d,%d}(%.17g) = %.17g, expected %.17Lg (lmax %d)", l, a, b, th[i], r[l], d[l], L);
                arr<double> x(L + 1); int f2 = -7; g.calc(i, f2, x);
                CHECK(f2 == f, "two calls of calc disagree on the first degree: %d, %d", f, f2);
                for (int l = f; l <= L; ++l) CHECK(x[l] == g.calc(i, f2)[l], "two calls of calc disagree");
#ifdef __SSE2__
                int j = N(0, nt - 1), f3 = -7; auto d2 = wigner_d(L, a, b, th[j]);
                const levels::arr_align<levels::V2df, 16> &r2 = g.calc(i, j, f3);
                CHECK(f3 >= lo && f3 <= L + 1, "paired d^l_{%d,%d}: first significant degree %d", a, b, f3);
                for (int l = lo; l < f3; ++l) CHECK(fabsl(d[l]) <= 1.001L * eps + 1e-22L * (th[i] < 1e-7 || th[i] > PI - 1e-7) && fabsl(d2[l]) <= 1.001L * eps + 1e-22L * (th[j] < 1e-7 || th[j] > PI - 1e-7), "paired: d^%d_{%d,%d}(%.17g, %.17g) = %Lg, %Lg is not negligible, but skipped", l, a, b, th[i], th[j], d[l], d2[l]);
                for (int l = f3; l <= L; ++l) { double u, v; r2[l].writeTo(u, v);
                    CHECK(fabsl(u - d[l]) <= 3e-13L * (1 + l) && fabsl(v - d2[l]) <= 3e-13L * (1 + l), "paired: d^%d_{%d,%d}(%.17g, %.17g) = %.17g, %.17g, expected %.17Lg, %.17Lg", l, a, b, th[i], th[j], u, v, d[l], d2[l]); }
#endif
                ++g_cases;
            }
        }
        // history independence: the same pair from a fresh generator
        for (int k = 0; k < 10; ++k) {
            int a = N(-L, L), b = N(-L, L);
            for (int h = 0; h < 5; ++h) g.prepare(N(-L, L), N(-L, L));
            g.prepare(a, b); levels::wignergen w(L, th, eps); w.prepare(a, b);
            for (int i = 0; i < nt; ++i) { int f1, f2; arr<double> x(g.calc(i, f1)), y(w.calc(i, f2)); for (int l = std::max(f1, f2); l <= L; ++l) CHECK(std::fabs(x[l] - y[l]) <= 1e-13 * (1 + l), "d^%d_{%d,%d}(%.17g) depends on earlier requests: %.17g, fresh %.17g", l, a, b, th[i], x[l], y[l]); }
        }
    }
}

// ------------------------------------------------------------------ C18
static void c18() {
    for (int it = 0; it < (thorough ? 3000 : 400); ++it) {
        int l_ = it < 8 ? it : N(0, 40), m_ = it < 8 ? it : N(0, l_);
        if (it % 97 == 96) { l_ = N(1000, 20000); m_ = N(0, 20); }
        Alm<xcomplex<double>> a(it & 1 ? l_ : N(0, 30), 0), o;
        if (it & 1) { Alm<xcomplex<double>> t(l_, m_); a.swap(t); } else a.Set(l_, m_);
        CHECK(a.Lmax() == l_ && a.Mmax() == m_, "limits %d,%d became %d,%d", l_, m_, a.Lmax(), a.Mmax());
        size_t n = 0; for (int m = 0; m <= m_; ++m) n += l_ - m + 1;
        CHECK(a.Alms().size() == n && levels::Alm_Base::Num_Alms(l_, m_) == n, "storage for %d,%d has %zu cells, expected %zu", l_, m_, (size_t)a.Alms().size(), n);
        std::vector<char> seen(n, 0);
        for (int m = 0; m <= m_; ++m) for (int l = m; l <= l_; ++l) {
            long ix = a.index(l, m);
            CHECK(ix >= 0 && ix < (long)n && !seen[ix], "(%d,%d) of %d,%d has cell %ld of %zu, which is outside or used twice", l, m, l_, m_, ix, n);
            CHECK(a.index_l0(m) + l == ix && &a.mstart(m)[l] == &a(l, m) && &a.Alms()[ix] == &a(l, m), "cell addresses of (%d,%d) disagree", l, m);
            seen[ix] = 1;
        }
        auto val = [](int l, int m) { return xcomplex<double>(l + 1000. * m + 1, l - 3. * m - .5); };
        auto eq = [&](const Alm<xcomplex<double>> &x, std::function<xcomplex<double>(int, int)> f, const char *w) {
            for (int m = 0; m <= x.Mmax(); ++m) for (int l = m; l <= x.Lmax(); ++l) { auto e = f(l, m); CHECK(std::fabs(x(l, m).re - e.re) <= 1e-12 * (1 + std::fabs(e.re)) && std::fabs(x(l, m).im - e.im) <= 1e-12 * (1 + std::fabs(e.im)), "%s: (%d,%d) of %d,%d is (%.17g,%.17g), expected (%.17g,%.17g)", w, l, m, x.Lmax(), x.Mmax(), x(l, m).re, x(l, m).im, e.re, e.im); } };
        auto load = [&](Alm<xcomplex<double>> &x) { for (int m = 0; m <= x.Mmax(); ++m) for (int l = m; l <= x.Lmax(); ++l) x(l, m) = val(l, m); };
        load(a); eq(a, val, "write and read");
        a.Scale(2.5); eq(a, [&](int l, int m) { auto v = val(l, m); return xcomplex<double>(v.re * 2.5, v.im * 2.5); }, "Scale");
        arr<double> f(l_ + 1 + N(0, 2)); for (tsize i = 0; i < f.size(); ++i) f[i] = i * .25 - 1;
        load(a); a.ScaleL(f); eq(a, [&](int l, int m) { auto v = val(l, m); return xcomplex<double>(v.re * f[l], v.im * f[l]); }, "ScaleL");
        load(a); a.ScaleM(f); eq(a, [&](int l, int m) { auto v = val(l, m); return xcomplex<double>(v.re * f[m], v.im * f[m]); }, "ScaleM");
        load(a); o.Set(l_, m_); load(o); a.Add(o); eq(a, [&](int l, int m) { auto v = val(l, m); return xcomplex<double>(v.re * 2, v.im * 2); }, "Add"); eq(o, val, "Add (other operand)");
        load(a); a.Add(3.5); eq(a, [&](int l, int m) { auto v = val(l, m); return xcomplex<double>(v.re + (l == 0 && m == 0 ? 3.5 : 0), v.im); }, "Add to a_00");
        load(a); Alm<xcomplex<double>> cp(a); cp.Scale(0.); eq(a, val, "copy"); 
        Alm<xcomplex<double>> sw(3, 2); for (int m = 0; m <= 2; ++m) for (int l = m; l <= 3; ++l) sw(l, m) = -val(l, m).re;
        sw.swap(a); CHECK(sw.Lmax() == l_ && a.Lmax() == 3 && a.Mmax() == 2, "swap did not exchange the limits"); eq(sw, val, "swap"); eq(a, [&](int l, int m) { return xcomplex<double>(-val(l, m).re, 0); }, "swap");
        a.SetToZero(); eq(a, [&](int, int) { return xcomplex<double>(0, 0); }, "SetToZero"); eq(sw, val, "SetToZero (other object)");
        auto refused = [&](std::function<void()> g, const char *w) { bool t = false; try { g(); } catch (...) { t = true; } CHECK(t, "%s was accepted (limits %d,%d)", w, l_, m_); };
        refused([&] { Alm<xcomplex<double>> x(l_, l_ + 1); }, "an m limit above the l limit");
        refused([&] { Alm<xcomplex<double>> x; x.Set(l_, l_ + 1 + N(0, 5)); }, "an m limit above the l limit");
        if (l_ > 0) { arr<double> sh(l_); refused([&] { sw.ScaleL(sh); }, "a short factor array"); eq(sw, val, "refused ScaleL"); }
        { Alm<xcomplex<double>> x(l_ + 1, m_); refused([&] { sw.Add(x); }, "adding other limits"); eq(sw, val, "refused Add"); }
        if (m_ > 0) { Alm<xcomplex<double>> x(l_, m_ - 1); refused([&] { sw.Add(x); }, "adding other limits"); }
        { arr<xcomplex<double>> dt(n), d2(n + 1); for (size_t i = 0; i < n; ++i) dt[i] = xcomplex<double>(i, -1.); Alm<xcomplex<double>> x; refused([&] { x.Set(d2, l_, m_); }, "an array of another size"); x.Set(dt, l_, m_); for (size_t i = 0; i < n; ++i) CHECK(x.Alms()[i].re == i, "Set with an array"); CHECK(x.Lmax() == l_ && x.Mmax() == m_ && dt.size() == 0, "Set with an array: limits %d,%d", x.Lmax(), x.Mmax()); }
        ++g_cases;
    }
}

// ------------------------------------------------------------------ C19
template<typename A, bool lib> struct Box { };
template<typename A> static void arr_seq(const char *nm) {
    for (int it = 0; it < (thorough ? 2000 : 250); ++it) {
        const int K = 4; A a[K]; std::vector<int> v[K]; bool def[K][64];  // contents, and which are defined
        int ctr = 1; memset(def, 0, sizeof def);
        auto check = [&](const char *op) {
            for (int i = 0; i < K; ++i) { CHECK(a[i].size() == v[i].size(), "%s: after %s the size is %zu, expected %zu", nm, op, (size_t)a[i].size(), v[i].size());
                CHECK(a[i].end() - a[i].begin() == (long)v[i].size(), "%s: after %s begin/end disagree with the size", nm, op);
                for (size_t k = 0; k < v[i].size(); ++k) if (def[i][k]) CHECK(a[i][k] == v[i][k], "%s: after %s element %zu of array %d is %d, expected %d", nm, op, k, i, (int)a[i][k], v[i][k]); } };
        for (int s = 0; s < 60; ++s) {
            int i = N(0, K - 1), j = N(0, K - 1), n = N(0, 3) ? N(0, 12) : N(0, 60); const char *op = "";
            switch (N(0, 14)) {
            case 0: op = "alloc"; if ((size_t)n != v[i].size()) { memset(def[i], 0, 64); v[i].assign(n, 0); } a[i].alloc(n); break;
            case 1: op = "allocAndFill"; a[i].allocAndFill(n, ctr); v[i].assign(n, ctr++); memset(def[i], 1, 64); break;
            case 2: { op = "resize"; size_t o = v[i].size(); a[i].resize(n); v[i].resize(n); for (size_t k = o; k < 64; ++k) def[i][k] = false; for (size_t k = n; k < 64; ++k) def[i][k] = false; break; }
            case 3: op = "dealloc"; a[i].dealloc(); v[i].clear(); memset(def[i], 0, 64); break;
            case 4: op = "assignment"; a[i] = a[j]; v[i] = v[j]; memmove(def[i], def[j], 64); break;
            case 5: op = "swap"; a[i].swap(a[j]); if (i != j) { v[i].swap(v[j]); bool t[64]; memcpy(t, def[i], 64); memcpy(def[i], def[j], 64); memcpy(def[j], t, 64); } break;
            case 6: if (i == j) break; op = "transfer"; a[i].transfer(a[j]); v[i] = v[j]; memcpy(def[i], def[j], 64); v[j].clear(); memset(def[j], 0, 64); break;
            case 7: { op = "copy construction"; A c(a[i]); CHECK(c.size() == v[i].size(), "%s: a copy has size %zu, expected %zu", nm, (size_t)c.size(), v[i].size()); for (size_t k = 0; k < v[i].size(); ++k) { if (def[i][k]) CHECK(c[k] == v[i][k], "%s: a copy differs at %zu", nm, k); c[k] = -1; } break; }
            case 8: op = "fill"; a[i].fill(ctr); for (auto &x : v[i]) x = ctr; memset(def[i], 1, 64); ++ctr; break;
            case 9: { op = "copyFrom"; std::vector<int> w(n); for (auto &x : w) x = ctr++; a[i].copyFrom(w); v[i] = w; memset(def[i], 1, 64); break; }
            case 10: { op = "copyFromPtr"; std::vector<int> w(n + 1); for (auto &x : w) x = ctr++; a[i].copyFromPtr(&w[0], n); w.pop_back(); v[i] = w; memset(def[i], 1, 64); break; }
            case 11: { op = "copyTo"; bool all = true; for (size_t k = 0; k < v[i].size(); ++k) all &= def[i][k]; std::vector<int> w(3, 9); a[i].copyTo(w); CHECK(w.size() == v[i].size(), "%s: copyTo gives %zu elements", nm, w.size()); if (all) CHECK(w == v[i], "%s: copyTo differs", nm); break; }
            case 12: { op = "borrowed memory"; std::vector<int> w(n + 1); for (auto &x : w) x = ctr++; std::vector<int> w0 = w; { A c; (void)c; } a[i].copyFromPtr(&w[0], n); CHECK(w == w0, "%s: the source was changed", nm); w0.pop_back(); v[i] = w0; memset(def[i], 1, 64); break; }
            default: op = "write"; if (!v[i].empty()) { int k = N(0, v[i].size() - 1); a[i][k] = ctr; v[i][k] = ctr++; def[i][k] = true; }
            }
            check(op); ++g_cases;
        }
    }
}
static void borrowed() {
    for (int it = 0; it < 200; ++it) {
        int n = N(1, 20); std::vector<int> mem(n); for (int i = 0; i < n; ++i) mem[i] = i * 3;
        std::vector<int> m0 = mem;
        { arr<int> b(&mem[0], n); CHECK((int)b.size() == n && b.begin() == &mem[0], "a borrowed array does not use the given memory");
          arr<int> c(b), d, e; d = b; c[0] = 99; d[n - 1] = 98; CHECK(mem == m0, "a copy of a borrowed array is not independent");
          switch (N(0, 5)) {
          case 0: b.resize(n + 2); for (int i = 0; i < n; ++i) CHECK(b[i] == m0[i], "resize of a borrowed array lost element %d", i); b[0] = -1; CHECK(mem == m0, "a resized borrowed array still uses the borrowed memory"); break;
          case 1: b.alloc(n + 1); b.fill(-1); CHECK(mem == m0, "a reallocated borrowed array still uses the borrowed memory"); break;
          case 2: e.transfer(b); CHECK(e.begin() == &mem[0] && b.size() == 0, "transfer of a borrowed array"); b.alloc(3); b.fill(1); break;
          case 3: e.alloc(4); e.fill(7); e.swap(b); CHECK(e.begin() == &mem[0] && (int)e.size() == n && b.size() == 4 && b[3] == 7, "swap of a borrowed array"); break;
          case 4: b.dealloc(); b.alloc(5); b.fill(2); break;
          default: b.resize(n > 1 ? n - 1 : n + 1); b[0] = -5; CHECK(mem == m0, "a shrunk borrowed array still uses the borrowed memory");
          } }
        CHECK(mem == m0, "a borrowed array changed or freed the memory");
        { arr<int> e; { arr<int> b(&mem[0], n), own(6, 5); own.swap(b); e.transfer(own); } CHECK(e.begin() == &mem[0], "moving a borrowed array"); for (int i = 0; i < n; ++i) CHECK(e[i] == m0[i], "moving a borrowed array"); }
        CHECK(mem == m0, "a borrowed array changed or freed the memory");
        ++g_cases;
    }
}
static void multi() {
    for (int it = 0; it < (thorough ? 3000 : 400); ++it) {
        const int K = 3; levels::arr2<int> a2[K]; levels::arr3<int> a3[K]; levels::arr2b<int> ab[K];
        struct M { size_t d[3] = {0, 0, 0}; std::vector<int> v; bool def = true; } m2[K], m3[K], mb[K];
        int c = 1;
        auto fill2 = [&](int i) { for (size_t x = 0; x < m2[i].d[0]; ++x) for (size_t y = 0; y < m2[i].d[1]; ++y) { if (N(0, 1)) a2[i][x][y] = c; else a2[i](x, y) = c; m2[i].v[x * m2[i].d[1] + y] = c++; } m2[i].def = true; };
        auto fillb = [&](int i) { for (size_t x = 0; x < mb[i].d[0]; ++x) for (size_t y = 0; y < mb[i].d[1]; ++y) { ab[i][x][y] = c; mb[i].v[x * mb[i].d[1] + y] = c++; } mb[i].def = true; };
        auto fill3 = [&](int i) { for (size_t x = 0; x < m3[i].d[0]; ++x) for (size_t y = 0; y < m3[i].d[1]; ++y) for (size_t z = 0; z < m3[i].d[2]; ++z) { a3[i](x, y, z) = c; m3[i].v[(x * m3[i].d[1] + y) * m3[i].d[2] + z] = c++; } m3[i].def = true; };
        for (int s = 0; s < 30; ++s) {
            int i = N(0, K - 1), j = N(0, K - 1); size_t p = N(0, 5), q = N(0, 5), r = N(0, 4);
            switch (N(0, 8)) {
            case 0: a2[i].alloc(p, q); m2[i].d[0] = p; m2[i].d[1] = q; m2[i].v.assign(p * q, 0); fill2(i);
                    ab[i].alloc(p, q); mb[i].d[0] = p; mb[i].d[1] = q; mb[i].v.assign(p * q, 0); fillb(i);
                    a3[i].alloc(p, q, r); m3[i].d[0] = p; m3[i].d[1] = q; m3[i].d[2] = r; m3[i].v.assign(p * q * r, 0); fill3(i); break;
            case 1: a2[i] = a2[j]; m2[i] = m2[j]; ab[i] = ab[j]; mb[i] = mb[j]; a3[i] = a3[j]; m3[i] = m3[j]; break;
            case 2: a2[i].swap(a2[j]); a3[i].swap(a3[j]); if (i != j) { std::swap(m2[i], m2[j]); std::swap(m3[i], m3[j]); } break;
            case 3: a2[i].fill(c); for (auto &x : m2[i].v) x = c; ab[i].fill(c); for (auto &x : mb[i].v) x = c; a3[i].fill(c); for (auto &x : m3[i].v) x = c; ++c; break;
            case 4: a2[i].dealloc(); ab[i].dealloc(); a3[i].dealloc(); m2[i] = M(); mb[i] = M(); m3[i] = M(); break;
            case 5: { levels::arr2<int> x(a2[i]); levels::arr3<int> y(a3[i]); levels::arr2b<int> z(ab[i]); x.fill(-1); y.fill(-1); z.fill(-1); CHECK(x.size1() == m2[i].d[0] && x.size2() == m2[i].d[1] && y.size3() == m3[i].d[2] && z.size() == mb[i].v.size(), "a copy has other dimensions"); break; }
            case 6: a2[i].fast_alloc(p, q); m2[i].d[0] = p; m2[i].d[1] = q; m2[i].v.assign(p * q, 0); fill2(i); break;
            case 7: a2[i].allocAndFill(p, q, c); m2[i].d[0] = p; m2[i].d[1] = q; m2[i].v.assign(p * q, c++); break;
            default: fill2(i); fill3(i); fillb(i);
            }
            for (int k = 0; k < K; ++k) {
                CHECK(a2[k].size1() == m2[k].d[0] && a2[k].size2() == m2[k].d[1] && a2[k].size() == m2[k].v.size(), "arr2: dimensions %zu,%zu expected %zu,%zu", (size_t)a2[k].size1(), (size_t)a2[k].size2(), m2[k].d[0], m2[k].d[1]);
                CHECK(ab[k].size1() == mb[k].d[0] && ab[k].size2() == mb[k].d[1], "arr2b: dimensions");
                CHECK(a3[k].size1() == m3[k].d[0] && a3[k].size2() == m3[k].d[1] && a3[k].size3() == m3[k].d[2] && a3[k].size() == m3[k].v.size(), "arr3: dimensions");
                for (size_t x = 0; x < m2[k].d[0]; ++x) for (size_t y = 0; y < m2[k].d[1]; ++y) CHECK(a2[k][x][y] == m2[k].v[x * m2[k].d[1] + y] && a2[k](x, y) == a2[k][x][y], "arr2: element (%zu,%zu) of %zu,%zu is %d, expected %d", x, y, m2[k].d[0], m2[k].d[1], a2[k][x][y], m2[k].v[x * m2[k].d[1] + y]);
                for (size_t x = 0; x < mb[k].d[0]; ++x) for (size_t y = 0; y < mb[k].d[1]; ++y) CHECK(ab[k][x][y] == mb[k].v[x * mb[k].d[1] + y] && ab[k].p0()[x] == &ab[k][x][0], "arr2b: element (%zu,%zu) is %d, expected %d", x, y, ab[k][x][y], mb[k].v[x * mb[k].d[1] + y]);
                for (size_t x = 0; x < m3[k].d[0]; ++x) for (size_t y = 0; y < m3[k].d[1]; ++y) for (size_t z = 0; z < m3[k].d[2]; ++z) CHECK(a3[k](x, y, z) == m3[k].v[(x * m3[k].d[1] + y) * m3[k].d[2] + z], "arr3: element (%zu,%zu,%zu) is %d, expected %d", x, y, z, a3[k](x, y, z), m3[k].v[(x * m3[k].d[1] + y) * m3[k].d[2] + z]);
                for (int o = 0; o < K; ++o) CHECK(a2[k].conformable(a2[o]) == (m2[k].d[0] == m2[o].d[0] && m2[k].d[1] == m2[o].d[1]) && a3[k].conformable(a3[o]) == (m3[k].d[0] == m3[o].d[0] && m3[k].d[1] == m3[o].d[1] && m3[k].d[2] == m3[o].d[2]), "conformable is wrong");
            }
            ++g_cases;
        }
    }
}
static void scans() {
    for (int it = 0; it < 500; ++it) {
        int n = N(0, 15); arr<int> a(n); std::vector<int> v(n); for (int i = 0; i < n; ++i) a[i] = v[i] = N(-5, 5);
        int x = N(-6, 6); auto p = std::find(v.begin(), v.end(), x);
        CHECK(a.contains(x) == (p != v.end()), "contains(%d) is wrong", x);
        bool t = false; try { CHECK((long)a.find(x) == p - v.begin(), "find(%d) is wrong", x); } catch (...) { t = true; } CHECK(t == (p == v.end()), "find(%d): exception %d", x, (int)t);
        t = false; int lo = 77, hi = 77; try { a.minmax(lo, hi); } catch (...) { t = true; } CHECK(t == (n == 0), "minmax of %d elements: exception %d", n, (int)t);
        if (n) CHECK(lo == *std::min_element(v.begin(), v.end()) && hi == *std::max_element(v.begin(), v.end()), "minmax gives %d, %d", lo, hi);
        arr<int> b(a); CHECK(a.contentsEqual(b), "a copy is not equal"); if (n) { int k = N(0, n - 1); b[k]++; CHECK(!a.contentsEqual(b), "different arrays are equal (element %d)", k); b.resize(n - 1); CHECK(!a.contentsEqual(b), "arrays of different size are equal"); }
        a.sort(); std::sort(v.begin(), v.end()); for (int i = 0; i < n; ++i) CHECK(a[i] == v[i], "sort: element %d", i);
        ++g_cases;
    }
}
static void c19() { arr_seq<arr<int>>("arr"); arr_seq<levels::arr_align<int, 16>>("arr_align"); arr_seq<levels::arr_align<int, 64>>("arr_align"); borrowed(); multi(); scans(); }

// ------------------------------------------------------------------ C20
template<typename T1, typename T2> static void cast1(T2 v, const char *nm) {
    bool t = false; T1 r = 0; try { r = levels::safe_cast<T1>(v); } catch (...) { t = true; }
    bool ok = (__int128)v >= (__int128)std::numeric_limits<T1>::min() && (__int128)v <= (__int128)std::numeric_limits<T1>::max();
    CHECK(t == !ok, "safe_cast %s of %lld%s was %s", nm, (long long)v, v > 0 && (long long)v < 0 ? " (unsigned)" : "", t ? "refused" : "accepted");
    if (ok) CHECK((__int128)r == (__int128)v, "safe_cast %s of %lld gives %lld", nm, (long long)v, (long long)r);
    ++g_cases;
}
template<typename T2> static void casts(T2 v) {
    cast1<signed char>(v, "to signed char"); cast1<unsigned char>(v, "to unsigned char"); cast1<short>(v, "to short"); cast1<unsigned short>(v, "to unsigned short");
    cast1<int>(v, "to int"); cast1<unsigned>(v, "to unsigned"); cast1<long>(v, "to long"); cast1<unsigned long>(v, "to unsigned long"); cast1<levels::int64>(v, "to int64"); cast1<levels::uint64>(v, "to uint64"); cast1<tsize>(v, "to tsize");
}
static void c20() {
    using levels::int64; using levels::uint64; using levels::uint32;
    int big = thorough ? 40 : 1;
    for (int it = 0; it < 20000 * big; ++it) {
        bool l = it % 3 == 0; int64 lo = l ? N(-1000000000000L, 1000000000000L) : N(-5, 5), len = l ? N(0, 4000000000000L) : N(0, 40), k = l ? N(1, 1000) : N(1, 12);
        int64 prev = lo, mn = 1LL << 62, mx = -1;
        for (int64 s = 0; s < k; ++s) { int64 a = -99, b = -99; levels::calcShareGeneral(lo, lo + len, k, s, a, b);
            CHECK(a == prev && b >= a, "share %ld of [%ld,%ld) in %ld parts is [%ld,%ld), the one before ends at %ld", (long)s, (long)lo, (long)(lo + len), (long)k, (long)a, (long)b, (long)prev);
            prev = b; mn = std::min(mn, b - a); mx = std::max(mx, b - a); }
        CHECK(prev == lo + len && mx - mn <= 1, "the %ld shares of [%ld,%ld) end at %ld, sizes %ld to %ld", (long)k, (long)lo, (long)(lo + len), (long)prev, (long)mn, (long)mx);
        uint64 full = l ? N(1, 100000) : N(1, 40), ch = l ? N(1, 200000) : N(1, 45), st = 7, sz = 7, at = 0, cnt = 0;
        levels::chunkMaker c(full, ch);
        while (c.getNext(st, sz)) { CHECK(st == at && sz > 0 && sz <= ch && at + sz <= full && (sz == ch || at + sz == full), "chunk %lu of %lu items by %lu: start %lu size %lu", (unsigned long)cnt, (unsigned long)full, (unsigned long)ch, (unsigned long)st, (unsigned long)sz); at += sz; if (++cnt > full) break; }
        CHECK(at == full && cnt == c.nchunks(), "%lu items by %lu: %lu chunks announced, %lu made, ending at %lu", (unsigned long)full, (unsigned long)ch, (unsigned long)c.nchunks(), (unsigned long)cnt, (unsigned long)at);
        ++g_cases;
    }
    auto sq = [&](unsigned __int128 a) {
        auto ok = [&](uint32 r, const char *t) { unsigned __int128 n = r; CHECK(n * n <= a && a < (n + 1) * (n + 1), "isqrt(%llu) (%s) = %u", (unsigned long long)a, t, r); ++g_cases; };
        if (a <= 127) ok(levels::isqrt((signed char)a), "signed char");
        if (a <= 65535) ok(levels::isqrt((unsigned short)a), "unsigned short");
        if (a <= 0x7fffffffu) ok(levels::isqrt((int)a), "int");
        if (a <= 0xffffffffu) ok(levels::isqrt((unsigned)a), "unsigned");
        if (a <= 0x7fffffffffffffffull) { ok(levels::isqrt((long)a), "long"); ok(levels::isqrt((int64)a), "int64"); }
        if (a <= 0xffffffffffffffffull) ok(levels::isqrt((unsigned long)a), "unsigned long");
    };
    for (unsigned a = 0; a < 70000; ++a) sq(a);
    for (int it = 0; it < 100000 * big; ++it) { unsigned __int128 r = rng_() >> (32 + N(0, 31)); if (N(0, 3) == 0) r = 0xffffffffull - N(0, 3); unsigned __int128 s = r * r; long d = N(-2, 2); if (d < 0 && s < 2) continue; s += d; if (s <= 0xffffffffffffffffull) sq(s); sq(rng_() >> N(0, 63)); }
    for (int k = 0; k < 5; ++k) { sq(0x7fffffffffffffffull - k); sq(0xffffffffffffffffull - k); sq(0xffffffffull - k); sq(0x7fffffffull - k); sq((1ull << 50) - 2 + k); sq((1ull << 52) - 2 + k); sq((1ull << 53) - 2 + k); }
    auto lg = [&](uint64 a) {
        int e = 63; while (!(a >> e)) --e;
        CHECK(levels::ilog2((unsigned long)a) == e, "ilog2(%lu) = %d", (unsigned long)a, levels::ilog2((unsigned long)a));
        if (a <= 0x7fffffffffffffffull) CHECK(levels::ilog2((long)a) == e, "ilog2(%ld) = %d", (long)a, levels::ilog2((long)a));
        if (a <= 0x7fffffff) CHECK(levels::ilog2((int)a) == e, "ilog2(%d) = %d", (int)a, levels::ilog2((int)a));
        if (a <= 0xffffffffu) CHECK(levels::ilog2((unsigned)a) == e, "ilog2(%u) = %d", (unsigned)a, levels::ilog2((unsigned)a));
        ++g_cases; };
    for (uint64 a = 1; a < 70000; ++a) lg(a);
    for (int e = 0; e < 64; ++e) for (int d = -2; d <= 2; ++d) { uint64 a = (1ull << e) + d; if (a) lg(a); }
    for (int it = 0; it < 20000 * big; ++it) lg((rng_() >> N(0, 63)) | 1);
    for (int it = 0; it < 100000 * big; ++it) {
        double v2 = N(0, 3) ? U(1e-3, 1e3) : std::ldexp(U(.5, 1), N(-100, 100)), v1;
        switch (N(0, 6)) { case 0: v1 = U(-1, 1) * v2 * 3; break; case 1: v1 = N(-50, 50) * v2; break; case 2: v1 = std::nextafter(N(-5, 5) * v2, N(0, 1) ? 1e300 : -1e300); break; case 3: v1 = U(-1, 1) * 1e10 * v2; break; case 4: v1 = N(0, 1) ? -5e-324 : 5e-324; break; case 5: v1 = N(0, 1) ? 0. : -0.; break; default: v1 = -std::ldexp(v2, -N(1, 80)); }
        double r = levels::fmodulo(v1, v2);
        CHECK(r >= 0 && r < v2, "fmodulo(%.17g, %.17g) = %.17g", v1, v2, r);
        long double ex = fmodl(v1, v2); if (ex < 0) ex += v2;
        long double df = fabsl(ex - r); df = std::min(df, fabsl(df - v2));
        CHECK(df <= 2.3e-16L * v2, "fmodulo(%.17g, %.17g) = %.17g, expected %.17Lg", v1, v2, r, ex);
        long p = N(0, 1) ? N(1, 9) : N(1, 1L << 40), q = N(0, 1) ? N(-30, 30) : N(-(1L << 50), 1L << 50);
        long mo = levels::imodulo(q, p); CHECK(mo >= 0 && mo < p && (q - mo) % p == 0, "imodulo(%ld, %ld) = %ld", q, p, mo);
        int m3 = levels::imodulo((int)(q % 1000000007), (int)(p % 1000 + 1)); CHECK(m3 >= 0 && m3 < p % 1000 + 1 && ((q % 1000000007) - m3) % (p % 1000 + 1) == 0, "imodulo (int) is wrong");
        double x = U(-5, 5); long e = N(-1000, 1000);
        CHECK(levels::xpow(e, x) == (e % 2 ? -x : x) && levels::xpow((int)e, x) == (e % 2 ? -x : x), "xpow(%ld, %g) = %g", e, x, levels::xpow(e, x));
        CHECK(levels::sign(x) == (x >= 0 ? 1 : -1), "sign(%g)", x);
        double y = U(-1e6, 1e6); CHECK(levels::ifloor<long>(y) == (long)std::floor(y), "ifloor(%.17g) = %ld", y, levels::ifloor<long>(y)); CHECK(std::fabs(levels::nearest<long>(y) - y) <= .5000001, "nearest(%.17g) = %ld", y, levels::nearest<long>(y));
        ++g_cases;
    }
    for (int it = 0; it < 4000 * big; ++it) {
        uint64 r = rng_() >> N(0, 63); long b[] = {127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648L, 4294967295L, 4294967296L};
        if (N(0, 2) == 0) r = b[N(0, 11)] + N(-1, 1); if (N(0, 9) == 0) r = 0x8000000000000000ull + N(-1, 1); if (N(0, 30) == 0) r = -N(0, 1);
        casts((signed char)r); casts((unsigned char)r); casts((short)r); casts((unsigned short)r); casts((int)r); casts((unsigned)r); casts((long)r); casts((unsigned long)r); casts(-(long)(r >> 1)); casts((int)-(long)r);
        int iv = (int)r; double d = iv; int back = 0; bool t = false; try { back = levels::safe_cast<int>(d); } catch (...) { t = true; } CHECK(!t && back == iv, "safe_cast<int>(%g)", d);
        d += .5; t = false; try { levels::safe_cast<int>(d); } catch (...) { t = true; } CHECK(t, "safe_cast<int>(%.17g) was accepted", d);
    }
}

int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &g_rank); MPI_Comm_size(MPI_COMM_WORLD, &g_size);
    std::cerr.setstate(std::ios::badbit);  // the library announces every exception there
    std::string what = argv[1]; unsigned long seed = strtoul(argv[2], 0, 10); thorough = argc > 3 && std::string(argv[3]) == "thorough";
    rng_.seed(seed * 1000003 + std::hash<std::string>()(what));
    std::map<std::string, std::function<void()>> t = {{"C15", c15}, {"C16", c16}, {"C17", c17}, {"C18", c18}, {"C19", c19}, {"C20", c20}};
    if (!t.count(what)) { printf("unknown\n"); return 2; }
    try { t[what](); } catch (std::exception &e) { fail("unexpected exception: %s", e.what()); } catch (levels::LEVELSError &e) { fail("unexpected exception: %s", e.what()); } catch (...) { fail("unexpected exception"); }
    if (g_rank == 0) printf("OK %s cases %ld\n", what.c_str(), g_cases);
    MPI_Finalize();
    return 0;
}
