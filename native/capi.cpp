// C interface against the C++ interface (bounded stand-in, any number of processes)
#include "common.h"
#include "conviqt.hpp"
#include "cconviqt.h"
#include <cstring>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <omp.h>
#include <new>
using namespace conviqt;
// allocation failures: while armed, the allocation number g_failat (outside the parallel regions: see known-findings.txt) throws
static bool g_armed = false, g_hit = false, g_region = false; static long g_failat = 0;
void *operator new(size_t n) {
    if (g_armed && (omp_get_level() > 0) == g_region && g_failat-- == 0) { g_hit = true; throw std::bad_alloc(); }
    void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void *operator new[](size_t n) { return operator new(n); }
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
static bool thorough = false;
extern "C" int conviqt_detector_set_id(void *ptr, char *det_id);   // defined but not declared
typedef std::vector<double> V;
static std::string fn(const char *tag, int i) { return g_tmp + "/" + tag + std::to_string(i) + ".fits"; }
// any call: an exception that leaves it is a failure
template<typename F> static auto call(const char *nm, F f) -> decltype(f()) {
    try { return f(); } catch (std::exception &e) { fail("%s let an exception out: %s", nm, e.what()); } catch (...) { fail("%s let an exception out", nm); }
}
#define C(f, ...) call(#f, [&] { return f(__VA_ARGS__); })
static bool same(const Alm<xcomplex<float>> &a, const void *p) { return memcmp(&a.Alms()[0], p, a.Alms().size() * sizeof(xcomplex<float>)) == 0; }
static char *cs(const std::string &s) { return const_cast<char *>(s.c_str()); }
// the call F with every one of its allocations failing in turn: failure is reported, nothing is thrown
template<typename F, typename B> static void starve(const char *nm, F f, B bad) {
    for (long k = 0; k < 100000; k += k < 30 ? 1 : N(1, 1 + k / 3)) {
        g_failat = k; g_hit = false; g_armed = true;
        decltype(f()) r{};
        try { r = f(); g_armed = false; } catch (...) { g_armed = false; fail("%s let an exception out when allocation %ld failed", nm, k); }
        if (!g_hit) return;
        CHECK(bad(r), "%s reported success although allocation %ld failed", nm, k);
    }
}
static void starved(void *s, void *b, void *d, bool pol, int ls, int lb, int mb, const std::string &fs, const std::string &fb) {
    MPI_Comm w = MPI_COMM_WORLD; auto null = [](void *p) { return !p; }; auto err = [](int r) { return r != 0; };
    char name[] = "a rather long name of a detector, beyond the small strings";
    std::vector<void *> got; auto keep = [&](void *p) { bool a = g_armed; g_armed = false; if (p) got.push_back(p); g_armed = a; return p; };
#define S(f, bad, ...) starve(#f, [&] { return f(__VA_ARGS__); }, bad)
    starve("conviqt_sky_new", [&] { return keep(conviqt_sky_new()); }, null); for (auto p : got) conviqt_sky_del(p); got.clear();
    starve("conviqt_beam_new", [&] { return keep(conviqt_beam_new()); }, null); for (auto p : got) conviqt_beam_del(p); got.clear();
    starve("conviqt_detector_new", [&] { return keep(conviqt_detector_new()); }, null);
    starve("conviqt_detector_new_with_id", [&] { return keep(conviqt_detector_new_with_id(name)); }, null); for (auto p : got) conviqt_detector_del(p); got.clear();
    starve("conviqt_pointing_new", [&] { return keep(conviqt_pointing_new()); }, null); for (auto p : got) conviqt_pointing_del(p); got.clear();
    int L = std::min(ls, lb);
    starve("conviqt_convolver_new", [&] { return keep(conviqt_convolver_new(s, b, d, pol, L, 0, 3, 0, w)); }, null); for (auto p : got) conviqt_convolver_del(p); got.clear();
    S(conviqt_sky_read, err, s, ls, pol, cs(fs), 30., w); S(conviqt_beam_read, err, b, lb, mb, pol, cs(fb), w);
    S(conviqt_sky_read, err, s, ls, pol, cs(fs), 0., w);
    S(conviqt_sky_remove_monopole, err, s); S(conviqt_sky_remove_dipole, err, s); S(conviqt_detector_set_id, err, d, name);
    starve("conviqt_beam_normalize", [&] { return (int)conviqt_beam_normalize(b); }, [](int r) { return r == -1; });
    void *p = conviqt_pointing_new(), *c = conviqt_convolver_new(s, b, d, pol, L, 0, 3, 0, w);
    int n = N(1, 12);
    starve("conviqt_pointing_alloc", [&] { return conviqt_pointing_alloc(p, 5 * n); }, err);
    starve("conviqt_convolver_convolve", [&] { conviqt_pointing_alloc(p, 0); bool a = g_armed; g_armed = false; if (conviqt_pointing_alloc(p, 5 * n)) fail("alloc"); double *q = conviqt_pointing_data(p); for (int i = 0; i < 5 * n; ++i) q[i] = i % 5 == 1 ? U(0, 3.1) : U(0, 6); g_armed = a;
        return conviqt_convolver_convolve(c, p, 0); }, err);
    CHECK(conviqt_sky_read(s, ls, pol, cs(fs), 0., w) == 0 && conviqt_beam_read(b, lb, mb, pol, cs(fb), w) == 0, "reading after failed allocations");
    conviqt_pointing_del(p); conviqt_convolver_del(c);
#undef S
}
static void once(int it) {
    MPI_Comm w = MPI_COMM_WORLD;
    int K = 2, lm[2], mm[2]; bool pol = it & 1;
    void *s[2], *b[2], *d[2]; sky S[2]; beam B[2]; double eps[2];
    for (int i = 0; i < K; ++i) {
        lm[i] = N(2, 9); mm[i] = N(0, std::min(3, lm[i]));
        std::vector<std::vector<Row>> hs, hb;
        for (int c = 0; c < (pol ? 3 : 1); ++c) { Exp e, f; e.set(lm[i], lm[i]); f.set(lm[i], mm[i]); e.random(c ? 2 : 0); f.random(c ? 2 : 0); hs.push_back(rows_of(e)); hb.push_back(rows_of(f)); }
        if (g_rank == 0) { write_fits(fn("s", i), hs, lm[i], lm[i], true); write_fits(fn("b", i), hb, lm[i], mm[i], true); }
        MPI_Barrier(w);
        s[i] = C(conviqt_sky_new); b[i] = C(conviqt_beam_new); CHECK(s[i] && b[i], "no handle");
        CHECK(C(conviqt_sky_read, s[i], lm[i], pol, cs(fn("s", i)), 0., w) == 0, "conviqt_sky_read of a good file failed");
        CHECK(C(conviqt_beam_read, b[i], lm[i], mm[i], pol, cs(fn("b", i)), w) == 0, "conviqt_beam_read of a good file failed");
        S[i].read(lm[i], pol, fn("s", i), 0, w); B[i].read(lm[i], mm[i], pol, fn("b", i), w);
        MPI_Barrier(w);
    }
    auto state = [&](const char *op) {
        for (int i = 0; i < K; ++i) {
            CHECK(C(conviqt_sky_lmax, s[i]) == S[i].get_lmax() && C(conviqt_beam_lmax, b[i]) == B[i].get_lmax() && C(conviqt_beam_mmax, b[i]) == B[i].get_mmax(), "limits of object %d after %s", i, op);
            CHECK(C(conviqt_beam_normalized, b[i]) == (int)B[i].normalized(), "normalisation state of beam %d after %s", i, op);
            CHECK(same(S[i].slmT(), C(conviqt_sky_Tdata, s[i])), "sky %d (T) after %s", i, op); CHECK(same(B[i].blmT(), C(conviqt_beam_Tdata, b[i])), "beam %d (T) after %s", i, op);
            void *p[4] = {C(conviqt_sky_Gdata, s[i]), C(conviqt_sky_Cdata, s[i]), C(conviqt_beam_Gdata, b[i]), C(conviqt_beam_Cdata, b[i])};
            if (pol) CHECK(same(S[i].slmG(), p[0]) && same(S[i].slmC(), p[1]) && same(B[i].blmG(), p[2]) && same(B[i].blmC(), p[3]), "polarised components of object %d after %s", i, op);
            else CHECK(!p[0] && !p[1] && !p[2] && !p[3], "polarised components of an unpolarised expansion have a handle");
        } };
    state("reading");
    // failures
    std::string none = g_tmp + "/absent.fits";
    if (g_size == 1) {   // the file is read by one process alone: see C25
    CHECK(C(conviqt_sky_read, s[0], lm[0], pol, cs(none), 0., w) != 0 && C(conviqt_beam_read, b[0], lm[0], mm[0], pol, cs(none), w) != 0, "reading a missing file gave status zero");
    { void *t = C(conviqt_sky_new), *u = C(conviqt_beam_new); CHECK(C(conviqt_sky_read, t, lm[0] + N(1, 3), pol, cs(fn("s", 0)), 0., w) != 0, "a sky lmax beyond the file gave status zero");
      CHECK(C(conviqt_beam_read, u, lm[0] + N(1, 3), mm[0], pol, cs(fn("b", 0)), w) != 0 && C(conviqt_beam_read, u, lm[0], mm[0] + N(1, 3), pol, cs(fn("b", 0)), w) != 0, "a beam limit beyond the file gave status zero");
      CHECK(C(conviqt_sky_del, t) == 0 && C(conviqt_beam_del, u) == 0, "delete"); }
    }
    C(conviqt_sky_read, s[0], lm[0], pol, cs(fn("s", 0)), 0., w); C(conviqt_beam_read, b[0], lm[0], mm[0], pol, cs(fn("b", 0)), w);
    state("reading again");
    // operations on one object
    if (N(0, 1)) { CHECK(C(conviqt_sky_remove_monopole, s[1]) == 0, "remove_monopole"); S[1].remove_monopole(); state("remove_monopole"); }
    if (N(0, 1)) { CHECK(C(conviqt_sky_remove_dipole, s[0]) == 0, "remove_dipole"); S[0].remove_dipole(); state("remove_dipole"); }
    if (N(0, 1)) { int i = N(0, 1); double x = C(conviqt_beam_normalize, b[i]), y = B[i].normalize(); CHECK(x == y, "conviqt_beam_normalize returned %.17g, expected %.17g", x, y); state("normalize"); x = C(conviqt_beam_normalize, b[i]); y = B[i].normalize(); CHECK(x == y, "second conviqt_beam_normalize returned %.17g, expected %.17g", x, y); state("second normalize"); }
    // detectors
    std::string id[2];
    for (int i = 0; i < 2; ++i) { id[i] = std::string(N(0, 20), 'a' + i) + "x"; d[i] = i == 0 && N(0, 1) ? C(conviqt_detector_new_with_id, cs(id[i])) : C(conviqt_detector_new); CHECK(d[i], "no detector handle"); eps[i] = U(0, 1); CHECK(C(conviqt_detector_set_epsilon, d[i], eps[i]) == 0 && C(conviqt_detector_set_id, d[i], cs(id[i])) == 0, "detector set"); }
    for (int i = 0; i < 2; ++i) { double e = -1; char t[80]; memset(t, 77, 80); CHECK(C(conviqt_detector_get_epsilon, d[i], &e) == 0 && e == eps[i], "epsilon %g was read back as %g", eps[i], e); CHECK(C(conviqt_detector_get_id, d[i], t) == 0 && id[i] == t, "detector id '%s' was read back as '%.20s'", id[i].c_str(), t); }
    { void *t = C(conviqt_detector_new_with_id, cs("a name")); char u[80]; CHECK(t && C(conviqt_detector_get_id, t, u) == 0 && std::string(u) == "a name", "the name given at construction"); C(conviqt_detector_del, t); }
    // convolution: limits
    int ls = N(0, 1), lb = N(0, 1), ld = N(0, 1); int L = std::min(lm[ls], lm[lb]), Mx = std::min(mm[lb], L), order = N(1, 5);
    { long bad[][2] = {{lm[ls] + 1, 0}, {lm[lb] + 1, 0}, {L, mm[lb] + 1}, {100001, 0}, {L, 100001}, {4000000000L, 0}};
      for (auto &x : bad) { void *p = C(conviqt_convolver_new, s[ls], b[lb], d[ld], pol, x[0], x[1], order, 0, w); CHECK(!p, "conviqt_convolver_new with lmax=%ld beammmax=%ld on limits %d %d %d gave a handle", x[0], x[1], lm[ls], lm[lb], mm[lb]); } }
    void *cv = C(conviqt_convolver_new, s[ls], b[lb], d[ld], pol, L, Mx, order, 0, w); CHECK(cv, "conviqt_convolver_new failed for good limits");
    auto conv = [&](const char *op) {
        int n = N(0, 30); V v(5 * n); for (int i = 0; i < n; ++i) { v[5 * i] = U(0, 6.2); v[5 * i + 1] = U(0, 3.1); v[5 * i + 2] = U(-3, 3); v[5 * i + 3] = U(-1, 1); v[5 * i + 4] = U(-1, 1); }
        bool cal = N(0, 1);
        void *p = C(conviqt_pointing_new), *p2 = C(conviqt_pointing_new); CHECK(p && p2, "no pointing handle");
        CHECK(C(conviqt_pointing_alloc, p, 5 * n) == 0 && C(conviqt_pointing_alloc, p2, 5) == 0, "pointing_alloc");
        double *q = C(conviqt_pointing_data, p), *q2 = C(conviqt_pointing_data, p2); for (int i = 0; i < 5 * n; ++i) q[i] = v[i]; for (int i = 0; i < 5; ++i) q2[i] = i + .5;
        pointing P; P.alloc(5 * n); for (int i = 0; i < 5 * n; ++i) P[i] = v[i];
        detector D; D.set_epsilon(eps[ld]);
        convolver cpp(&S[ls], &B[lb], &D, pol, L, Mx, order, 0, w);
        CHECK(cpp.convolve(P, cal) == 0, "convolve");
        CHECK(C(conviqt_convolver_convolve, cv, p, cal) == 0, "conviqt_convolver_convolve failed on good samples (%s)", op);
        q = C(conviqt_pointing_data, p);
        for (int i = 0; i < 5 * n; ++i) CHECK(q[i] == P[i] || std::fabs(q[i] - P[i]) <= 1e-9 * std::fabs(P[i]) + 1e-9, "%s: element %d is %.17g, the C++ interface gives %.17g", op, i, q[i], P[i]);
        for (int i = 0; i < 5; ++i) CHECK(q2[i] == i + .5, "another pointing changed");
        // illegal co-latitude on every process
        CHECK(C(conviqt_pointing_alloc, p, 10) == 0, "alloc"); q = C(conviqt_pointing_data, p); for (int i = 0; i < 10; ++i) q[i] = 1; double ill[] = {-.1, 3.2, NAN, 1e300, -INFINITY}; q[5 * N(0, 1) + 1] = ill[N(0, 4)];
        CHECK(C(conviqt_convolver_convolve, cv, p, cal) != 0, "an illegal co-latitude gave status zero");
        CHECK(C(conviqt_pointing_del, p) == 0 && C(conviqt_pointing_del, p2) == 0, "pointing_del");
        ++g_cases; };
    if (g_size == 1) { starved(s[0], b[0], d[0], pol, lm[0], lm[0], mm[0], fn("s", 0), fn("b", 0)); S[0].read(lm[0], pol, fn("s", 0), 0, w); B[0].read(lm[0], mm[0], pol, fn("b", 0), w); state("failed allocations"); C(conviqt_detector_set_id, d[0], cs(id[0])); }
    conv("new");
    // replace parts by others that have the same limits
    for (int k = 0; k < 4; ++k) switch (N(0, 2)) {
        case 0: { int o = 1 - ls; if (lm[o] < L) break; ls = o; CHECK(C(conviqt_convolver_set_sky, cv, s[ls]) == 0, "set_sky"); conv("set_sky"); break; }
        case 1: { int o = 1 - lb; if (lm[o] < L || mm[o] < Mx) break; lb = o; CHECK(C(conviqt_convolver_set_beam, cv, b[lb]) == 0, "set_beam"); conv("set_beam"); break; }
        default: ld = 1 - ld; CHECK(C(conviqt_convolver_set_detector, cv, d[ld]) == 0, "set_detector"); conv("set_detector");
    }
    { void *p = C(conviqt_pointing_new); CHECK(C(conviqt_pointing_alloc, p, -1) != 0, "an allocation of -1 values gave status zero"); CHECK(C(conviqt_pointing_del, p) == 0, "pointing_del"); }
    CHECK(C(conviqt_convolver_del, cv) == 0, "convolver_del"); for (int i = 0; i < 2; ++i) CHECK(C(conviqt_sky_del, s[i]) == 0 && C(conviqt_beam_del, b[i]) == 0 && C(conviqt_detector_del, d[i]) == 0, "delete");
}
// an allocation inside a parallel region fails: run as a process of its own
static void region() {
    g_region = true; omp_set_num_threads(1);
    MPI_Comm w = MPI_COMM_WORLD;
    std::vector<std::vector<Row>> hs(1), hb(1); Exp e, f; e.set(3, 3); f.set(3, 1); e.random(0); f.random(0); hs[0] = rows_of(e); hb[0] = rows_of(f);
    write_fits(fn("rs", 0), hs, 3, 3, true); write_fits(fn("rb", 0), hb, 3, 1, true);
    void *s = conviqt_sky_new(), *b = conviqt_beam_new(), *d = conviqt_detector_new(), *p = conviqt_pointing_new();
    if (conviqt_sky_read(s, 3, 0, cs(fn("rs", 0)), 0, w) || conviqt_beam_read(b, 3, 1, 0, cs(fn("rb", 0)), w)) exit(3);
    void *c = conviqt_convolver_new(s, b, d, 0, 3, 1, 3, 0, w);
    conviqt_pointing_alloc(p, 5); double *q = conviqt_pointing_data(p); for (int i = 0; i < 5; ++i) q[i] = 1;
    g_failat = 0; g_armed = true; int r = conviqt_convolver_convolve(c, p, 0); g_armed = false;
    exit(!g_hit ? 3 : r ? 0 : 2);
}
int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &g_rank); MPI_Comm_size(MPI_COMM_WORLD, &g_size);
    std::cerr.setstate(std::ios::badbit); std::cout.setstate(std::ios::badbit);
    std::string what = argv[1]; unsigned long seed = strtoul(argv[2], 0, 10); thorough = argc > 3 && std::string(argv[3]) == "thorough";
    g_tmp = argc > 4 ? argv[4] : ".";
    rng_.seed(seed * 1000003 + std::hash<std::string>()(what));
    if (what == "region") region();
    if (g_size == 1) {
        pid_t c = fork();
        if (c == 0) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); for (char **v = environ; *v;) if (!strncmp(*v, "OMPI_", 5) && strncmp(*v, "OMPI_MCA_btl", 12) && strncmp(*v, "OMPI_ALLOW", 10) || !strncmp(*v, "PMIX_", 5)) { char **u = v; do u[0] = u[1]; while (*u++); } else ++v; execl("/proc/self/exe", argv[0], "region", argv[2], "quick", g_tmp.c_str(), (char *)0); _exit(4); }
        int st; waitpid(c, &st, 0);
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) printf("FINDING region\n");
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 2) fail("conviqt_convolver_convolve reported success although an allocation in a parallel region failed");
    }
    try { for (int it = 0; it < (thorough ? 200 : 20); ++it) once(it); }
    catch (std::exception &e) { fail("unexpected exception: %s", e.what()); } catch (levels::LEVELSError &e) { fail("unexpected exception: %s", e.what()); } catch (...) { fail("unexpected exception"); }
    if (g_rank == 0) printf("OK %s cases %ld\n", what.c_str(), g_cases);
    MPI_Finalize();
    return 0;
}
