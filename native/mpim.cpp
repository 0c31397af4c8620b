// Message passing helpers against the exchange they announce (bounded stand-in, any number of processes)
#include "common.h"
#include "ls_mpi_support.h"
#include "ls_share_utils.h"
using levels::MPI_Manager; using levels::tsize; using levels::arr; using levels::arr2;
static bool thorough;
static MPI_Manager *M;
// value number i of the block sent from a to b in round r (bytes hold it for every type)
template<typename T> static T val(int a, int b, long i, int r) { return (T)((a * 31 + b * 7 + i * 3 + r * 11 + 1) % 101); }
template<typename T> static void round_(int r, const char *nm) {
    int n = g_size, me = g_rank;
    // every process draws the same numbers
    std::vector<std::vector<int>> cnt(n, std::vector<int>(n));
    for (auto &x : cnt) for (auto &y : x) y = N(0, 2) ? N(0, 5) : (N(0, 1) ? 0 : N(0, 60));
    int num = N(1, 6), root = N(0, n - 1), emp = N(0, 3) == 0;
    if (emp) for (auto &x : cnt) for (auto &y : x) if (N(0, 1)) y = 0;
    if (N(0, 9) == 0) for (auto &y : cnt[N(0, n - 1)]) y = 0;
    // ---- all-to-all with different counts
    arr<int> nin(n), nout; arr<T> in, out(N(0, 3)); long tot = 0;
    for (int b = 0; b < n; ++b) { nin[b] = cnt[me][b]; tot += nin[b]; }
    in.alloc(tot); { long k = 0; for (int b = 0; b < n; ++b) for (int i = 0; i < nin[b]; ++i) in[k++] = val<T>(me, b, i, r); }
    M->all2allv_easy(in, nin, out, nout);
    long exp = 0; for (int a = 0; a < n; ++a) exp += cnt[a][me];
    CHECK((long)out.size() == exp && (int)nout.size() == n, "%s all2allv_easy: received %zu items, expected %ld", nm, (size_t)out.size(), exp);
    { long k = 0; for (int a = 0; a < n; ++a) { CHECK(nout[a] == cnt[a][me], "%s all2allv_easy: count from %d is %d, expected %d", nm, a, nout[a], cnt[a][me]); for (int i = 0; i < nout[a]; ++i, ++k) CHECK(out[k] == val<T>(a, me, i, r), "%s all2allv_easy: item %d from process %d is wrong", nm, i, a); } }
    { long k = 0; for (int b = 0; b < n; ++b) { CHECK(nin[b] == cnt[me][b], "%s all2allv_easy changed the counts", nm); for (int i = 0; i < nin[b]; ++i) CHECK(in[k++] == val<T>(me, b, i, r), "%s all2allv_easy changed the data sent", nm); } }
    // with explicit displacements, gaps between the blocks and blocks in reverse order
    {
        arr<int> din(n), dout(n); long k = 0, q = 0; for (int b = n - 1; b >= 0; --b) { din[b] = k; k += nin[b] + (b + me) % 3; dout[b] = q; q += cnt[b][me] + 2; }
        arr<T> i2(k + 1), o2(N(0, 2)); i2.fill((T)120); for (int b = 0; b < n; ++b) for (int i = 0; i < nin[b]; ++i) i2[din[b] + i] = val<T>(me, b, i, r);
        M->all2allv(i2, nin, din, o2, nout, dout, q + 1);
        CHECK((long)o2.size() == q + 1, "%s all2allv: size %zu", nm, (size_t)o2.size());
        for (int a = 0; a < n; ++a) for (int i = 0; i < nout[a]; ++i) CHECK(o2[dout[a] + i] == val<T>(a, me, i, r), "%s all2allv: item %d from process %d is wrong", nm, i, a);
        for (int b = 0; b < n; ++b) for (int i = 0; i < nin[b]; ++i) CHECK(i2[din[b] + i] == val<T>(me, b, i, r), "%s all2allv changed the data sent", nm);
        o2.fill((T)119); M->all2allvRaw(&i2[0], &nin[0], &din[0], &o2[0], &nout[0], &dout[0]);
        std::vector<char> hit(q + 1, 0); for (int a = 0; a < n; ++a) for (int i = 0; i < nout[a]; ++i) { CHECK(o2[dout[a] + i] == val<T>(a, me, i, r), "%s all2allvRaw is wrong", nm); hit[dout[a] + i] = 1; }
        for (long x = 0; x <= q; ++x) if (!hit[x]) CHECK(o2[x] == (T)119, "%s all2allvRaw wrote outside its blocks", nm);
    }
    // ---- all-to-all with equal counts
    { arr<T> a(num * n), b; for (int d = 0; d < n; ++d) for (int i = 0; i < num; ++i) a[d * num + i] = val<T>(me, d, i, r); M->all2all(a, b);
      CHECK((int)b.size() == num * n, "%s all2all: size %zu", nm, (size_t)b.size());
      for (int s = 0; s < n; ++s) for (int i = 0; i < num; ++i) CHECK(b[s * num + i] == val<T>(s, me, i, r) && a[s * num + i] == val<T>(me, s, i, r), "%s all2all: item %d from %d", nm, i, s); }
    // ---- gathering
    { arr<T> g; M->allgather(val<T>(me, 0, 0, r), g); CHECK((int)g.size() == n, "%s allgather: size", nm); for (int s = 0; s < n; ++s) CHECK(g[s] == val<T>(s, 0, 0, r), "%s allgather: item of %d", nm, s);
      arr<T> v(num); for (int i = 0; i < num; ++i) v[i] = val<T>(me, 1, i, r); M->allgather(v, g); CHECK((int)g.size() == n * num, "%s allgather: size", nm); for (int s = 0; s < n; ++s) for (int i = 0; i < num; ++i) CHECK(g[s * num + i] == val<T>(s, 1, i, r), "%s allgather: item %d of %d", nm, i, s);
      arr<T> w; if (me == root) { M->gather_m(val<T>(me, 2, 0, r), w, root); CHECK((int)w.size() == n, "%s gather: size", nm); for (int s = 0; s < n; ++s) CHECK(w[s] == val<T>(s, 2, 0, r), "%s gather: item of %d", nm, s); } else M->gather_s(val<T>(me, 2, 0, r), root);
      arr<T> x(cnt[me][0]), y; for (int i = 0; i < cnt[me][0]; ++i) x[i] = val<T>(me, 3, i, r); M->gatherv(x, y);
      if (me == 0) { long k = 0; for (int s = 0; s < n; ++s) for (int i = 0; i < cnt[s][0]; ++i, ++k) CHECK(k < (long)y.size() && y[k] == val<T>(s, 3, i, r), "%s gatherv: item %d of %d", nm, i, s); CHECK(k == (long)y.size(), "%s gatherv: size %zu, expected %ld", nm, (size_t)y.size(), k); }
      arr2<T> p(1 + me % 3, num), q; for (int i = 0; i < (1 + me % 3); ++i) for (int j = 0; j < num; ++j) p[i][j] = val<T>(me, i, j, r);
      if (me == 0) { M->gatherv_m(p, q); long k = 0; for (int s = 0; s < n; ++s) for (int i = 0; i < 1 + s % 3; ++i, ++k) for (int j = 0; j < num; ++j) CHECK(k < (long)q.size1() && (int)q.size2() == num && q[k][j] == val<T>(s, i, j, r), "%s gatherv (2-d): row %d of %d", nm, i, s); CHECK(k == (long)q.size1(), "%s gatherv (2-d): rows", nm); } else M->gatherv_s(p); }
    // ---- reductions
    { MPI_Manager::redOp ops[] = {MPI_Manager::Sum, MPI_Manager::Min, MPI_Manager::Max, MPI_Manager::Prod};
      for (int o = 0; o < 4; ++o) {
        auto one = [&](int s, int i) { return o == 3 ? (T)(1 + (s + i + r) % 2) : (T)((int)val<T>(s, o, i, r) % 13); };
        auto ex = [&](int i) { T e = one(0, i); for (int s = 1; s < n; ++s) { T x = one(s, i); e = o == 0 ? e + x : o == 1 ? std::min(e, x) : o == 2 ? std::max(e, x) : e * x; } return e; };
        arr<T> a(num), b; for (int i = 0; i < num; ++i) a[i] = one(me, i);
        T sc = 0; M->allreduce(a[0], sc, ops[o]); CHECK(sc == ex(0), "%s allreduce of a number (operation %d)", nm, o);
        sc = a[0]; M->allreduce(sc, ops[o]); CHECK(sc == ex(0), "%s allreduce in place (operation %d)", nm, o);
        M->allreduce(a, b, ops[o]); CHECK((int)b.size() == num, "%s allreduce: size", nm); for (int i = 0; i < num; ++i) CHECK(b[i] == ex(i) && a[i] == one(me, i), "%s allreduce: element %d (operation %d)", nm, i, o);
        arr<T> c(num); M->reduceRaw(&a[0], &c[0], num, ops[o], root); if (me == root) { for (int i = 0; i < num; ++i) CHECK(c[i] == ex(i), "%s reduce: element %d (operation %d)", nm, i, o); }
        sc = 0; M->reduce(a[0], sc, ops[o], root); if (me == root) CHECK(sc == ex(0), "%s reduce of a number", nm);
        M->allreduce(a, ops[o]); for (int i = 0; i < num; ++i) CHECK(a[i] == ex(i), "%s allreduce in place: element %d (operation %d)", nm, i, o);
      } }
    // ---- broadcast and pairs
    { arr<T> a(num); for (int i = 0; i < num; ++i) a[i] = me == root ? val<T>(root, 5, i, r) : (T)0; M->bcast(a, root); for (int i = 0; i < num; ++i) CHECK(a[i] == val<T>(root, 5, i, r), "%s bcast: element %d", nm, i);
      T s = me == root ? val<T>(root, 6, 0, r) : (T)0; M->bcast(s, root); CHECK(s == val<T>(root, 6, 0, r), "%s bcast of a number", nm); }
    { int sh = N(0, n - 1), to = (me + sh) % n, fr = (me + n - sh) % n; arr<T> a(num), b(num); for (int i = 0; i < num; ++i) { a[i] = val<T>(me, 7, i, r); b[i] = 0; }
      M->sendrecv(a, to, b, fr); for (int i = 0; i < num; ++i) CHECK(b[i] == val<T>(fr, 7, i, r) && a[i] == val<T>(me, 7, i, r), "%s sendrecv (shift by %d): element %d", nm, sh, i);
      T x = val<T>(me, 8, 0, r), y = 0; M->sendrecv(x, to, y, fr); CHECK(y == val<T>(fr, 8, 0, r), "%s sendrecv of a number (shift by %d)", nm, sh);
      M->sendrecv_replace(a, to, fr); for (int i = 0; i < num; ++i) CHECK(a[i] == val<T>(fr, 7, i, r), "%s sendrecv_replace (shift by %d): element %d", nm, sh, i);
      M->sendrecv_replace(x, to, fr); CHECK(x == val<T>(fr, 8, 0, r), "%s sendrecv_replace of a number (shift by %d)", nm, sh);
      if (n > 1) { int p = N(0, n - 1), q = (p + N(1, n - 1)) % n; if (me == p) { M->send(b, q); M->send(y, q); } if (me == q) { arr<T> c(num); M->recv(c, p); int f2 = (p + n - sh) % n; for (int i = 0; i < num; ++i) CHECK(c[i] == val<T>(f2, 7, i, r), "%s send and receive: element %d", nm, i); T z = 0; M->recv(z, p); CHECK(z == val<T>(f2, 8, 0, r), "%s send and receive of a number", nm); } } }
    // ---- sizes that do not fit are refused on every process before data move
    { auto refused = [&](std::function<void()> f, const char *w) { bool t = false; try { f(); } catch (...) { t = true; } CHECK(t, "%s: %s was accepted", nm, w); };
      arr<T> a(tot + 1), b; a.fill(1); arr<int> no; refused([&] { M->all2allv_easy(a, nin, b, no); }, "a send buffer longer than the counts");
      arr<int> bad(n + 1); bad.fill(0); arr<T> z; refused([&] { M->all2allv_easy(z, bad, b, no); }, "more counts than processes");
      if (n > 1) { arr<T> c(n * num + 1); c.fill(1); refused([&] { M->all2all(c, b); }, "an all2all that does not divide"); }
      refused([&] { M->allreduceRaw(&a[0], &a[0], 1, MPI_Manager::Sum); }, "one buffer for input and output"); }
    ++g_cases;
}
int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &g_rank); MPI_Comm_size(MPI_COMM_WORLD, &g_size);
    std::cerr.setstate(std::ios::badbit);
    std::string what = argv[1]; unsigned long seed = strtoul(argv[2], 0, 10); thorough = argc > 3 && std::string(argv[3]) == "thorough";
    rng_.seed(seed * 1000003 + std::hash<std::string>()(what));
    try {
        MPI_Manager m(MPI_COMM_WORLD); M = &m;
        CHECK(m.num_ranks() == g_size && m.rank() == g_rank && m.master() == (g_rank == 0), "rank or size is wrong");
        for (int it = 0; it < 30; ++it) { levels::int64 lo, hi, g0 = N(-50, 50), g1 = g0 + N(0, 60), a, b; m.calcShare(g0, g1, lo, hi); levels::calcShareGeneral(g0, g1, g_size, g_rank, a, b); CHECK(a == lo && b == hi, "the share of process %d is [%ld,%ld), expected [%ld,%ld)", g_rank, (long)lo, (long)hi, (long)a, (long)b); }
        for (int r = 0; r < (thorough ? 600 : 60); ++r) {
            round_<double>(r, "double"); round_<int>(r, "int"); round_<long>(r, "long"); round_<char>(r, "char");
            round_<unsigned>(r, "unsigned"); round_<unsigned long>(r, "unsigned long"); round_<long long>(r, "long long"); round_<float>(r, "float");
        }
        m.barrier();
    } catch (std::exception &e) { fail("unexpected exception: %s", e.what()); } catch (levels::LEVELSError &e) { fail("unexpected exception: %s", e.what()); } catch (...) { fail("unexpected exception"); }
    if (g_rank == 0) printf("OK %s cases %ld\n", what.c_str(), g_cases);
    MPI_Finalize();
    return 0;
}
