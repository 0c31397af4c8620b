// Shared pieces of the native harnesses: generator, oracles, FITS writer.  Uses the public interface only.
#pragma once
#include <mpi.h>
#include <omp.h>
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <complex>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <tuple>
#include <random>
#include <algorithm>
#include <functional>
#include <limits>
#include <fitsio.h>
typedef std::complex<double> cd;
static const double PI = 3.141592653589793238462643383279502884197;
static std::mt19937_64 rng_;
static double U(double a = 0, double b = 1) { return a + (b - a) * ((rng_() >> 11) * (1.0 / 9007199254740992.0)); }
static long N(long a, long b) { return a + long(rng_() % (unsigned long)(b - a + 1)); }
static int g_rank = 0, g_size = 1;
static long g_cases = 0;
static bool g_finding = false;
static std::string g_tmp = ".";
[[noreturn]] static void fail(const char *f, ...) {
    va_list ap; va_start(ap, f);
    char b[4000]; vsnprintf(b, sizeof b, f, ap); va_end(ap);
    printf("FAIL rank %d: %s\n", g_rank, b); fflush(stdout);
    int fl = 0; MPI_Initialized(&fl);
    if (fl && g_size > 1) { MPI_Abort(MPI_COMM_WORLD, 3); }
    _exit(3);
}
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)

// ---- Wigner d^l_{m1 m2}(beta), all l from 0 to lmax, in long double (upward recursion in l)
static std::vector<long double> wigner_d(int lmax, int m1, int m2, long double beta) {
    std::vector<long double> d(lmax + 1, 0);
    long double c = cosl(beta), ch = cosl(beta / 2), sh = sinl(beta / 2);
    int l0 = std::max(abs(m1), abs(m2));
    if (l0 > lmax) return d;
    // start value d^{l0}
    int a, b, sg = 1;  // reduce to d^j_{j,b} with j = l0
    if (m1 == l0) { a = m1; b = m2; }
    else if (m1 == -l0) { a = l0; b = -m2; sg = ((m1 - m2) & 1) ? -1 : 1; }
    else if (m2 == l0) { a = l0; b = m1; sg = ((m1 - m2) & 1) ? -1 : 1; }
    else { a = l0; b = -m1; sg = 1; }
    // d_{m1 m2} = (-1)^{m1-m2} d_{m2 m1} = (-1)^{m1-m2} d_{-m1 -m2} = d_{-m2 -m1}
    int j = a;
    long double lg = 0.5L * (lgammal(2 * j + 1.L) - lgammal(j + b + 1.L) - lgammal(j - b + 1.L));
    long double v = expl(lg) * powl(ch, j + b) * powl(sh, j - b);
    if ((j - b) & 1) v = -v;
    d[l0] = sg * v;
    long double prev = 0, cur = d[l0];
    for (int l = l0; l < lmax; ++l) {
        long double n;
        if (l == 0) n = c * cur;
        else {
            long double A = l * sqrtl(((l + 1.L) * (l + 1) - (long double)m1 * m1) * ((l + 1.L) * (l + 1) - (long double)m2 * m2));
            long double Bq = (2 * l + 1.L) * (l * (l + 1.L) * c - (long double)m1 * m2);
            long double C = (l + 1.L) * sqrtl(((long double)l * l - (long double)m1 * m1) * ((long double)l * l - (long double)m2 * m2));
            n = (Bq * cur - C * prev) / A;
        }
        prev = cur; cur = n; d[l + 1] = n;
    }
    return d;
}

// ---- spherical harmonic expansions as the oracle sees them
struct Exp {
    int lmax = 0, mmax = 0;
    std::vector<std::complex<float>> v;     // (l, m) at l*(l+1)/2+m, m <= min(l, mmax)
    void set(int l, int m) { lmax = l; mmax = m; v.assign((l + 1) * (l + 2) / 2, 0); }
    std::complex<float> &at(int l, int m) { return v[l * (l + 1) / 2 + m]; }
    cd get(int l, int m) const { return (l > lmax || m > mmax) ? cd(0) : cd(v[l * (l + 1) / 2 + m]); }
    void random(int lo = 0, int hi = 1 << 30) {
        for (int l = 0; l <= lmax; ++l) for (int m = 0; m <= std::min(l, mmax); ++m)
            at(l, m) = (l >= lo && l <= hi) ? std::complex<float>(U(-1, 1), m ? U(-1, 1) : 0) : std::complex<float>(0);
    }
};

static void fits_ok(int st) { if (st) { char b[80]; fits_get_errstatus(st, b); fail("harness: FITS error %s", b); } }
// rows in the order given; absent rows are not written.  keys: write MAX-LPOL/MAX-MPOL
struct Row { int l, m; float re, im; };
static void write_fits(const std::string &name, const std::vector<std::vector<Row>> &hdus, int keyl, int keym, bool keys) {
    fitsfile *f; int st = 0;
    remove(name.c_str());
    fits_create_file(&f, name.c_str(), &st); fits_ok(st);
    for (auto &rows : hdus) {
        const char *tt[] = {"index", "real", "imag"}, *tf[] = {"1J", "1E", "1E"}, *tu[] = {"l*l+l+m+1", "", ""};
        fits_create_tbl(f, BINARY_TBL, rows.size(), 3, (char **)tt, (char **)tf, (char **)tu, "x", &st); fits_ok(st);
        std::vector<int> ix; std::vector<float> re, im;
        for (auto &r : rows) { ix.push_back(r.l * r.l + r.l + r.m + 1); re.push_back(r.re); im.push_back(r.im); }
        if (rows.size()) {
            fits_write_col(f, TINT, 1, 1, 1, rows.size(), ix.data(), &st);
            fits_write_col(f, TFLOAT, 2, 1, 1, rows.size(), re.data(), &st);
            fits_write_col(f, TFLOAT, 3, 1, 1, rows.size(), im.data(), &st);
        }
        if (keys) {
            fits_write_key(f, TINT, "MAX-LPOL", &keyl, "", &st);
            fits_write_key(f, TINT, "MAX-MPOL", &keym, "", &st);
        }
        fits_ok(st);
    }
    fits_close_file(f, &st); fits_ok(st);
}
static std::vector<Row> rows_of(Exp &e) {
    std::vector<Row> r;
    for (int l = 0; l <= e.lmax; ++l) for (int m = 0; m <= std::min(l, e.mmax); ++m) r.push_back({l, m, e.at(l, m).real(), e.at(l, m).imag()});
    return r;
}

// ---- the convolution integral, and its interpolation over stencils of the documented grid
struct Oracle {
    std::vector<const Exp *> S, Bm;   // components
    int lmax, mmax;                   // limits of the convolver
    // A(theta)[k][m+lmax] = sum_l d^l_{k m}(theta) s_lm conj(b_lk)
    // cut > 0 is the recorded finding about the poles: there d_{k,m} vanishes unless |m| = k, and the library drops the
    // surviving term together with its negligible mirror d_{k,-m}: for k = 1 at all l < cut (the mirror is near the
    // threshold there), for k > 1 at all l except that the generator's steps of two may end on l = lmax
    std::vector<std::vector<cd>> A(double th, int cut = 0) const {
        std::vector<std::vector<cd>> r(mmax + 1, std::vector<cd>(2 * lmax + 1));
        for (int k = 0; k <= mmax; ++k) for (int m = -lmax; m <= lmax; ++m) {
            auto d = wigner_d(lmax, k, m, th);
            cd s = 0;
            for (int l = std::max(k, abs(m)); l <= lmax; ++l) {
                if (cut > 0 && abs(m) == k && k > 0 && (k == 1 ? l < cut : l < lmax || k > 4 || (lmax - k) % 2 == 0)) continue;
                for (size_t c = 0; c < S.size(); ++c) {
                    cd sv = m >= 0 ? S[c]->get(l, m) : std::conj(S[c]->get(l, -m)) * ((m & 1) ? -1. : 1.);
                    s += (double)d[l] * sv * std::conj(Bm[c]->get(l, k));
                }
            }
            r[k][m + lmax] = s;
        }
        return r;
    }
    double eval(const std::vector<std::vector<cd>> &a, double phi, double psi) const {
        double t = 0;
        for (int k = 0; k <= mmax; ++k) {
            cd s = 0;
            for (int m = -lmax; m <= lmax; ++m) s += ((m & 1) ? -1. : 1.) * std::polar(1., m * phi) * a[k][m + lmax];
            t += (k ? 2. : 1.) * (std::polar(1., k * psi) * s).real();
        }
        return t;
    }
    double exact(double th, double phi, double psi) const { return eval(A(th), phi, psi); }
    mutable bool finding = false;       // a value could only be explained by the recorded finding
    // distance of v to the integral at a node of the grid
    double node_distance(double th, double phi, double psi, double v, double tol) const {
        double dist = std::fabs(exact(th, phi, psi) - v);
        if (dist > tol && (th < 1e-9 || th > PI - 1e-9))
            for (int cut = 1; cut <= lmax + 1; ++cut) {
                double x = std::fabs(eval(A(th < 1 ? 0 : PI, cut), phi, psi) - v);
                if (x <= tol) { finding = true; return x; }
            }
        return dist;
    }
    mutable std::map<std::pair<long, int>, std::vector<std::vector<cd>>> cache;
    // theta grid: multiples of pi/(lmax+1); phi grid: pi/2 + multiples of 2 pi/(2 lmax+1).
    // returns the smallest distance of v to an admissible interpolation (order+1 consecutive nodes each way that surround or adjoin the sample)
    double distance(double th, double phi, double psi, int order, double v, double tol, double *best = 0) const {
        double h = PI / (lmax + 1), hp = 2 * PI / (2 * lmax + 1);
        double dist = 1e300;
        double x = th / h, y = (phi - PI / 2) / hp;
        long y0 = floor(y); y -= y0;     // y in [0,1): node index relative to y0
        double slack = 1e-7;
        std::map<std::tuple<long, long, int>, double> node;
        auto val = [&](long i, long jn, int cut) {
            auto key = std::make_tuple(i, jn, cut);
            auto it = node.find(key);
            if (it != node.end()) return it->second;
            auto ck = std::make_pair(i, cut);
            auto ct = cache.find(ck);
            if (ct == cache.end()) ct = cache.emplace(ck, A(i * h, cut)).first;
            return node[key] = eval(ct->second, PI / 2 + (y0 + jn) * hp, psi);
        };
        auto lag = [&](double t, int k) { double w = 1; for (int q = 0; q <= order; ++q) if (q != k) w *= (t - q) / (k - q); return w; };
        long slo = ceil(x - order - slack), shi = floor(x + slack), plo = ceil(y - order - slack), phi_ = floor(y + slack);
        if (order == 0) { slo = floor(x - slack); shi = ceil(x + slack); plo = floor(y - slack); phi_ = ceil(y + slack); }
        auto row = [&](long i, long p, int cut) { double t = 0; for (int b = 0; b <= order; ++b) t += lag(y - p, b) * val(i, p + b, cut); return t; };
        for (int pass = 0; pass < 2 && dist > tol; ++pass)
        for (long s = slo; s <= shi; ++s) for (long p = plo; p <= phi_; ++p) {
            if (pass == 0) {
                double t = 0;
                for (int a = 0; a <= order; ++a) t += lag(x - s, a) * row(s + a, p, 0);
                if (std::fabs(t - v) < dist) { dist = std::fabs(t - v); if (best) *best = t; }
            } else {
                std::vector<double> sums(1, 0.);
                for (int a = 0; a <= order; ++a) {
                    double w = lag(x - s, a);
                    if ((s + a) % (lmax + 1)) { double t = w * row(s + a, p, 0); for (auto &q : sums) q += t; continue; }
                    std::vector<double> n;
                    for (int cut = 1; cut <= lmax + 1; ++cut) { double t = w * row(s + a, p, cut); for (auto q : sums) n.push_back(q + t); }
                    // values that differ by nothing are one
                    std::sort(n.begin(), n.end()); n.erase(std::unique(n.begin(), n.end(), [](double a, double b) { return std::fabs(a - b) < 1e-13; }), n.end());
                    sums.swap(n);
                    if (sums.size() > 20000) return dist;
                }
                for (double t : sums) if (std::fabs(t - v) <= tol && std::fabs(t - v) < dist) { dist = std::fabs(t - v); finding = true; if (best) *best = t; }
            }
        }
        return dist;
    }
};
