"""Exchange helpers (levels/cxxsupport/mpi_support.cc, ls_mpi_support.h): which block goes where, over the MPI library's own contracts."""
from .base import *
from dv.execu import PtrView, PtrVal, fresh_arr, fresh, LV
from dv.models import val
U = ['inst/mpi.cpp']
SPECS = []
DBL, INT = Ty('real', 'double'), ty('int')
# The exchanges of one call: BLK(s, r, t) is element t of what process s sends to process r; CNT(s, r) how many; the same functions on all processes.
srt = lambda n, s: z3.Function(n, I, I, I, s)
BLKR, BLKI = srt('block', R), srt('block_int', I)
NUM = z3.Function('announced', I, I, I)
RED = z3.Function('combined', I, I, R); OWN = z3.Function('contribution', I, I, I, R)
BC = z3.Function('broadcast', I, I, R)
SENT = z3.Function('sent', I, I, R); RCV = z3.Function('received', I, I, R)
r_, s_, t_ = z3.Ints('r_ s_ t_')
OPS = dict(sum=0, min=1, max=2, prod=3)       # MPI_Manager::redOp
def me(E, st): return E.rd(st, LV('this.rank_', (), '', INT))
def nr(E, st): return E.rd(st, LV('this.num_ranks_', (), '', INT))
class Buf:
    """a buffer handed to the MPI library"""
    def __init__(self, E, st, a, what):
        p = E.ev(a, st)
        self.E, self.lv, self.null = E, None, False
        if isinstance(p, tuple) and p[0] == 'cont': p = PtrVal(p[1].path, (), iv(0), p[1].t.a[0])
        if isinstance(p, PtrVal):
            self.path, self.off, self.t = p.path, p.off, p.t
            self.null = p.path == 'null'
            if not self.null:
                self.a = E.container(st, p.path, None); self.n = self.a.dims[0]; self.t = self.a.t.a[0]
        elif isinstance(p, LV): self.lv, self.t, self.path, self.off, self.n = p, (p.t.a[0] if p.t.k == 'ref' else p.t), p.path, iv(0), iv(1)
        else: raise Unsupported('buffer %r' % (p,))
    def at(self, st, k):
        if self.lv is not None: return self.E.rd(st, self.lv)
        return sel(self.E.container(st, self.path, None).d[''], [self.off + k])
    def sort(self): return sort_of(self.t)
    def room(self, n, lo=0): return And(self.off + lo >= 0, self.off + lo + n <= self.n) if self.lv is None else And(lo == 0, n <= 1) if is_z(lo) else n <= 1
    def new(self, st, tag, inside, value):
        """new contents: value(k) at the places k (relative to the buffer) with inside(k), the old ones elsewhere"""
        E = self.E
        if self.lv is not None:
            v = fresh(tag, self.sort()); st.assume(v == value(iv(0))); E.wr(st, self.lv, v); return
        old = E.container(st, self.path, None)
        if E.log is not None: E.log.append(('w', self.path, '*', (), st.facts[:]))
        st.v[self.path] = fresh_arr(E.uid(tag), old.t, old.dims)
        y = lambda k: sel(st.v[self.path].d[''], [k])
        st.assume(FA([k], Imp(inside(k - self.off), y(k) == value(k - self.off)), y(k)))
        st.assume(FA([k], Imp(Not(inside(k - self.off)), y(k) == sel(old.d[''], [k])), y(k)))
def name_of(E, st, a):
    """a predefined MPI object, by its name"""
    x = E.ev(a, st)
    return str(getattr(x, 'path', x))
CT = {'int': 'ompi_mpi_int', 'double': 'ompi_mpi_double'}
def typed(E, st, n, a, *bufs):
    nm = name_of(E, st, a).split('.')[-1]
    for b in bufs:
        if not b.null: E.oblige(st, 'precondition', 'MPI type of the elements', z3.BoolVal(nm == CT.get(b.t.n, '?')), n)
def nn(E, st, n, g, lab): E.oblige(st, 'precondition', lab, g, n); st.assume(g)
def distinct(E, st, n, a, b): nn(E, st, n, z3.BoolVal(a.null or a.path != b.path), 'send and receive buffer are different')
def ival(E, st, a): return coerce(val(E, a, st), I)
def BL(b): return BLKI if b.sort() == I else BLKR
def mpi(E, st, n, qual, b, args, rt):
    f = M.get(qual)
    if f is None: return False, None
    f(E, st, n, args, me(E, st), nr(E, st))
    return True, iv(0)
M = {}
def m_alltoall(E, st, n, args, ME, NR):
    x, y = Buf(E, st, args[0], 'in'), Buf(E, st, args[3], 'out'); c, c2 = ival(E, st, args[1]), ival(E, st, args[4])
    typed(E, st, n, args[2], x); typed(E, st, n, args[5], y); distinct(E, st, n, x, y); F = BL(x)
    nn(E, st, n, And(c >= 0, c == c2), 'equal block sizes'); nn(E, st, n, And(x.room(NR * c), y.room(NR * c)), 'one block per process in both buffers')
    b = lambda r, t: x.at(st, r * c + t)
    so = z3.Solver(); so.set('timeout', 2000); so.add(*[f for f in st.facts if not z3.is_quantifier(f)]); so.add(c != 1)
    if so.check() == z3.unsat:
        nn(E, st, n, c == 1, 'one element per process')
        st.assume(FA([r_], Imp(rng(r_, 0, NR), F(ME, r_, 0) == x.at(st, r_)), F(ME, r_, 0), x.at(st, r_)))
        if F is BLKI:
            nn(E, st, n, FA([r_], Imp(rng(r_, 0, NR), x.at(st, r_) >= 0), x.at(st, r_)), 'announced counts are not negative')
        y.new(st, 'exchanged', lambda k: rng(k, 0, NR), lambda k: F(k, ME, 0))
        if F is BLKI: st.assume(FA([s_], Imp(rng(s_, 0, NR), F(s_, ME, 0) >= 0), F(s_, ME, 0)))
        return
    st.assume(FA([r_, t_], Imp(And(rng(r_, 0, NR), rng(t_, 0, c)), F(ME, r_, t_) == b(r_, t_)), F(ME, r_, t_)))
    old = y
    pre = E.container(st, y.path, None)
    st.v[y.path] = fresh_arr(E.uid('exchanged'), pre.t, pre.dims)
    st.assume(FA([s_, t_], Imp(And(rng(s_, 0, NR), rng(t_, 0, c)), y.at(st, s_ * c + t_) == F(s_, ME, t_)), F(s_, ME, t_)))
def blocks(E, st, n, b, num, dis, NR, lab):
    nn(E, st, n, And(num.room(NR), dis.room(NR)), 'a count and an offset per process, %s' % lab)
    nn(E, st, n, FA([r_], Imp(rng(r_, 0, NR), And(num.at(st, r_) >= 0, b.off + dis.at(st, r_) >= 0, b.off + dis.at(st, r_) + num.at(st, r_) <= b.n)), num.at(st, r_), dis.at(st, r_)), 'blocks inside the buffer, %s' % lab)
def m_alltoallv(E, st, n, args, ME, NR):
    x, ni, di, y, no, do = [Buf(E, st, args[q], '') for q in (0, 1, 2, 4, 5, 6)]
    typed(E, st, n, args[3], x); typed(E, st, n, args[7], y); distinct(E, st, n, x, y); F = BL(x)
    blocks(E, st, n, x, ni, di, NR, 'sent'); blocks(E, st, n, y, no, do, NR, 'received')
    nn(E, st, n, FA([r_], Imp(rng(r_, 0, NR), no.at(st, r_) == BLKI(r_, ME, 0)), no.at(st, r_)), 'counts expected are those announced')
    nn(E, st, n, FA([r_], Imp(rng(r_, 0, NR), ni.at(st, r_) == BLKI(ME, r_, 0)), ni.at(st, r_)), 'counts sent are those announced')
    nn(E, st, n, FA([r_, s_], Imp(And(r_ >= 0, r_ < s_, s_ < NR), Or(do.at(st, r_) + no.at(st, r_) <= do.at(st, s_), do.at(st, s_) + no.at(st, s_) <= do.at(st, r_))), MP(do.at(st, r_), do.at(st, s_))), 'blocks received do not overlap')
    st.assume(FA([r_, t_], Imp(And(rng(r_, 0, NR), rng(t_, 0, ni.at(st, r_))), F(ME, r_, t_) == x.at(st, di.at(st, r_) + t_)), F(ME, r_, t_)))
    old = E.container(st, y.path, None); o2, n2 = do.at(st, s_), no.at(st, s_)
    st.v[y.path] = fresh_arr(E.uid('received'), old.t, old.dims)
    st.assume(FA([s_, t_], Imp(And(rng(s_, 0, NR), rng(t_, 0, n2)), y.at(st, o2 + t_) == F(s_, ME, t_)), F(s_, ME, t_)))
def m_gather(E, st, n, args, ME, NR):
    x, y = Buf(E, st, args[0], ''), Buf(E, st, args[3], ''); c, c2, root = ival(E, st, args[1]), ival(E, st, args[4]), ival(E, st, args[6])
    typed(E, st, n, args[2], x); typed(E, st, n, args[5], y); distinct(E, st, n, x, y); F = BL(x)
    nn(E, st, n, And(c == 1, c2 == 1, x.room(iv(1)), rng(root, 0, NR)), 'one element each'); v = x.at(st, iv(0))
    nn(E, st, n, (ME == root) if not y.null else ME != root, 'receive buffer exactly at the root')
    if F is BLKI: nn(E, st, n, v >= 0, 'announced count is not negative')
    st.assume(F(ME, root, 0) == v)
    if not y.null:
        nn(E, st, n, y.room(NR), 'one place per process')
        y.new(st, 'gathered', lambda k: rng(k, 0, NR), lambda k: F(k, root, 0))
        if F is BLKI: st.assume(FA([s_], Imp(rng(s_, 0, NR), F(s_, root, 0) >= 0), F(s_, root, 0)))
def m_gatherv(E, st, n, args, ME, NR):
    x, y = Buf(E, st, args[0], ''), Buf(E, st, args[3], ''); c, root = ival(E, st, args[1]), ival(E, st, args[7])
    typed(E, st, n, args[2], x); typed(E, st, n, args[6], y); distinct(E, st, n, x, y); F = BL(x)
    nn(E, st, n, And(c >= 0, x.room(c), c == BLKI(ME, root, 0)), 'elements sent are those announced')
    nn(E, st, n, (ME == root) if not y.null else ME != root, 'receive buffer exactly at the root')
    st.assume(FA([t_], Imp(rng(t_, 0, c), F(ME, root, t_) == x.at(st, t_)), F(ME, root, t_)))
    if y.null: return
    no, do = Buf(E, st, args[4], ''), Buf(E, st, args[5], '')
    blocks(E, st, n, y, no, do, NR, 'received')
    nn(E, st, n, FA([r_], Imp(rng(r_, 0, NR), no.at(st, r_) == BLKI(r_, root, 0)), no.at(st, r_)), 'counts expected are those announced')
    nn(E, st, n, FA([r_, s_], Imp(And(r_ >= 0, r_ < s_, s_ < NR), Or(do.at(st, r_) + no.at(st, r_) <= do.at(st, s_), do.at(st, s_) + no.at(st, s_) <= do.at(st, r_))), MP(do.at(st, r_), do.at(st, s_))), 'blocks received do not overlap')
    old = E.container(st, y.path, None); o2, n2 = do.at(st, s_), no.at(st, s_)
    st.v[y.path] = fresh_arr(E.uid('gathered'), old.t, old.dims)
    st.assume(FA([s_, t_], Imp(And(rng(s_, 0, NR), rng(t_, 0, n2)), y.at(st, o2 + t_) == F(s_, root, t_)), F(s_, root, t_)))
def m_allgather(E, st, n, args, ME, NR):
    x, y = Buf(E, st, args[0], ''), Buf(E, st, args[3], ''); c, c2 = ival(E, st, args[1]), ival(E, st, args[4])
    typed(E, st, n, args[2], x); typed(E, st, n, args[5], y); distinct(E, st, n, x, y); F = BL(x)
    nn(E, st, n, And(c >= 0, c == c2, x.room(c), y.room(NR * c)), 'one block per process')
    st.assume(FA([t_], Imp(rng(t_, 0, c), F(ME, iv(-1), t_) == x.at(st, t_)), F(ME, iv(-1), t_)))
    old = E.container(st, y.path, None)
    st.v[y.path] = fresh_arr(E.uid('gathered'), old.t, old.dims)
    st.assume(FA([s_, t_], Imp(And(rng(s_, 0, NR), rng(t_, 0, c)), y.at(st, s_ * c + t_) == F(s_, iv(-1), t_)), F(s_, iv(-1), t_)))
def op_of(E, st, a):
    nm = name_of(E, st, a)
    for o in OPS:
        if nm.endswith('ompi_mpi_op_' + o): return iv(OPS[o])
    raise Unsupported('operation %s' % nm)
def m_allreduce(E, st, n, args, ME, NR):
    inplace = z3.is_true(z3.simplify(ival_ptr(E, st, args[0]))) if False else in_place(E, st, args[0])
    y = Buf(E, st, args[1], ''); x = y if inplace else Buf(E, st, args[0], '')
    c = ival(E, st, args[2]); typed(E, st, n, args[3], x, y); op = op_of(E, st, args[4])
    if not inplace: distinct(E, st, n, x, y)
    nn(E, st, n, And(c >= 0, x.room(c), y.room(c)), 'as many elements in both buffers')
    st.assume(FA([t_], Imp(rng(t_, 0, c), OWN(ME, op, t_) == x.at(st, t_)), OWN(ME, op, t_)))
    y.new(st, 'combined', lambda k: rng(k, 0, c), lambda k: RED(op, k))
def in_place(E, st, a):
    try: v = E.ev(a, st)
    except Unsupported: return True
    return not isinstance(v, (PtrVal, LV, tuple))
def m_reduce(E, st, n, args, ME, NR):
    x, y = Buf(E, st, args[0], ''), Buf(E, st, args[1], ''); c, root = ival(E, st, args[2]), ival(E, st, args[5])
    typed(E, st, n, args[3], x, y); op = op_of(E, st, args[4]); distinct(E, st, n, x, y)
    nn(E, st, n, And(c >= 0, x.room(c), rng(root, 0, NR)) if y.null else And(c >= 0, x.room(c), Imp(ME == root, y.room(c)), rng(root, 0, NR)), 'as many elements in both buffers')
    st.assume(FA([t_], Imp(rng(t_, 0, c), OWN(ME, op, t_) == x.at(st, t_)), OWN(ME, op, t_)))
    if not y.null: y.new(st, 'combined', lambda k: And(ME == root, rng(k, 0, c)), lambda k: RED(op, k))
def put(E, st, a, v):
    p = E.ev(a, st); E.wr(st, p if isinstance(p, LV) else E.deref(p, st), v)
GSIZE, GRANK = z3.Ints('size_of_group rank_in_group')
def m_size(E, st, n, args, ME, NR): put(E, st, args[1], GSIZE)
def m_rank(E, st, n, args, ME, NR): put(E, st, args[1], GRANK)
def m_init(E, st, n, args, ME, NR): pass
def m_initialized(E, st, n, args, ME, NR): put(E, st, args[0], fresh('initialized', I))
def m_bcast(E, st, n, args, ME, NR):
    x = Buf(E, st, args[0], ''); c, root = ival(E, st, args[1]), ival(E, st, args[3]); typed(E, st, n, args[2], x)
    nn(E, st, n, And(c >= 0, x.room(c), rng(root, 0, NR)), 'elements of the buffer')
    st.assume(FA([t_], Imp(And(ME == root, rng(t_, 0, c)), BC(root, t_) == x.at(st, t_)), BC(root, t_)))
    y0 = [x.at(st, k)]
    x.new(st, 'broadcast', lambda k: rng(k, 0, c), lambda k: BC(root, k))
def p2p(E, st, n, x, c, dest, NR):
    nn(E, st, n, And(c >= 0, x.room(c), rng(dest, 0, NR)), 'elements of the send buffer, to a process')
    st.assume(FA([t_], Imp(rng(t_, 0, c), SENT(dest, t_) == x.at(st, t_)), SENT(dest, t_)))
def m_send(E, st, n, args, ME, NR):
    x = Buf(E, st, args[0], ''); typed(E, st, n, args[2], x)
    p2p(E, st, n, x, ival(E, st, args[1]), ival(E, st, args[3]), NR); nn(E, st, n, ival(E, st, args[4]) == 0, 'tag')
def got(E, st, n, y, c, src, NR):
    nn(E, st, n, And(c >= 0, y.room(c), rng(src, 0, NR)), 'elements of the receive buffer, from a process')
    y.new(st, 'received', lambda k: rng(k, 0, c), lambda k: RCV(src, k))
def m_recv(E, st, n, args, ME, NR):
    y = Buf(E, st, args[0], ''); typed(E, st, n, args[2], y)
    got(E, st, n, y, ival(E, st, args[1]), ival(E, st, args[3]), NR); nn(E, st, n, ival(E, st, args[4]) == 0, 'tag')
def m_sendrecv(E, st, n, args, ME, NR):
    x, y = Buf(E, st, args[0], ''), Buf(E, st, args[5], ''); typed(E, st, n, args[2], x); typed(E, st, n, args[7], y); distinct(E, st, n, x, y)
    nn(E, st, n, And(ival(E, st, args[4]) == 0, ival(E, st, args[9]) == 0), 'tags')
    p2p(E, st, n, x, ival(E, st, args[1]), ival(E, st, args[3]), NR); got(E, st, n, y, ival(E, st, args[6]), ival(E, st, args[8]), NR)
def m_sendrecv_replace(E, st, n, args, ME, NR):
    x = Buf(E, st, args[0], ''); typed(E, st, n, args[2], x); c = ival(E, st, args[1])
    nn(E, st, n, And(ival(E, st, args[4]) == 0, ival(E, st, args[6]) == 0), 'tags')
    p2p(E, st, n, x, c, ival(E, st, args[3]), NR); got(E, st, n, x, c, ival(E, st, args[5]), NR)
for nm, f in dict(MPI_Alltoall=m_alltoall, MPI_Alltoallv=m_alltoallv, MPI_Gather=m_gather, MPI_Gatherv=m_gatherv, MPI_Allgather=m_allgather, MPI_Allreduce=m_allreduce, MPI_Bcast=m_bcast, MPI_Reduce=m_reduce, MPI_Comm_size=m_size, MPI_Comm_rank=m_rank, MPI_Init=m_init, MPI_Comm_set_errhandler=m_init, MPI_Initialized=m_initialized, MPI_Send=m_send, MPI_Recv=m_recv, MPI_Sendrecv=m_sendrecv, MPI_Sendrecv_replace=m_sendrecv_replace).items(): M[nm] = f
def S(name, params, key=None, req=None, **k):
    o = dict(cpp_call=mpi, real_mpi=True); o.update(k.pop('opts', {}))
    def requires(c): return [('a process of the group', And(c['this.num_ranks_'] >= 1, rng(c['this.rank_'], 0, c['this.num_ranks_'])))] + (req(c) if req else [])
    s = Spec('MPI_Manager::' + name, params, key='MPI_Manager::' + (key or name) + ' exchange', unit=U, opts=o, requires=requires, **k); SPECS.append(s); return s
NR = lambda c: c['this.num_ranks_']; ME = lambda c: c['this.rank_']
def eq(a, b): return FA([k], Imp(rng(k, 0, a.n), a[k] == b[k]), a[k])
def same(c, *vs): return [('%s unchanged' % v, And(c[v].n == c.old[v].n, FA([k], c[v][k] == c.old[v][k], c[v][k]))) for v in vs]
def prefix(c, dis, num, n, hi=None):
    d, m = c[dis], c[num]
    return [d[0] == 0, FA([k], Imp(rng(k, 0, (n if hi is None else hi) - 1), d[k + 1] == d[k] + m[k]), MP(d[k], m[k])), FA([k], Imp(rng(k, 0, n if hi is None else hi), d[k] >= 0), d[k])]
def announced(c, num, n): return FA([r_], Imp(rng(r_, 0, n), c[num][r_] == BLKI(r_, ME(c), 0)), c[num][r_])
def UP(L): return z3.If(L['i'] <= NR(L), L['i'], NR(L))
TOT = z3.Function('elements_before', I, I)
S('all2allv_easy_prep', ['insz', 'numin', 'disin', 'numout', 'disout'], callable=True, modifies=['disin', 'numout', 'disout'],
  req=lambda c: [('counts', FA([k], Imp(rng(k, 0, c['numin'].n), c['numin'][k] >= 0), c['numin'][k]))],
  ensures=lambda c: [('one entry per process', And(*[c[v].n == NR(c) for v in ('numin', 'disin', 'numout', 'disout')])), ('offsets sent', And(*prefix(c, 'disin', 'numin', NR(c)))), ('offsets received', And(*prefix(c, 'disout', 'numout', NR(c)))),
    ('counts received are those announced', FA([r_], Imp(rng(r_, 0, NR(c)), And(c['numout'][r_] == BLKI(r_, ME(c), 0), c['numout'][r_] >= 0)), c['numout'][r_])), ('own counts announced', FA([r_], Imp(rng(r_, 0, NR(c)), BLKI(ME(c), r_, 0) == c['numin'][r_]), c['numin'][r_])), ('blocks sent follow each other', tight(c, 'disin', 'numin', NR(c))), ('blocks received follow each other', tight(c, 'disout', 'numout', NR(c))), ('the send buffer has exactly the elements announced', c['insz'] == c['disin'][NR(c) - 1] + c['numin'][NR(c) - 1])] + same(c, 'numin'),
  exsures=lambda c: [('refused only if the sizes do not fit', Or(c.old['numin'].n != NR(c), And(*(prefix(c, 'disin', 'numin', NR(c)) + [c['insz'] != c['disin'][NR(c) - 1] + c['numin'][NR(c) - 1]]))))],
  loops={0: Loop(inv=lambda L: [('sizes', And(L['i'] >= 1, *[L[v].n == NR(L) for v in ('disin', 'disout', 'numout', 'numin')])), ('sent', And(*prefix(L, 'disin', 'numin', NR(L), UP(L)))), ('sent follow', tight(L, 'disin', 'numin', UP(L))), ('received follow', tight(L, 'disout', 'numout', UP(L))), ('received', And(*prefix(L, 'disout', 'numout', NR(L), UP(L))))])}, nloops=1)
# ---- the exchanges themselves: where each block goes
def tight(c, dis, num, n): return FA([r_, s_], Imp(And(r_ >= 0, r_ < s_, s_ < n), c[dis][r_] + c[num][r_] <= c[dis][s_]), MP(c[dis][r_], c[dis][s_]))
def counts_legal(c, v): return ('counts', FA([k], Imp(rng(k, 0, c[v].n), c[v][k] >= 0), c[v][k]))
S('gatherv_helper1_m', ['nval_loc', 'nval', 'offset', 'nval_tot'], modifies=['nval', 'offset', 'nval_tot'], callable=True, req=lambda c: [ME(c) == 0, c['nval_loc'] >= 0],
  ensures=lambda c: [('one entry per process', And(c['nval'].n == NR(c), c['offset'].n == NR(c))), ('offsets', And(*prefix(c, 'offset', 'nval', NR(c)))), ('blocks follow each other', tight(c, 'offset', 'nval', NR(c))),
    ('counts are those announced', FA([r_], Imp(rng(r_, 0, NR(c)), And(c['nval'][r_] == BLKI(r_, ME(c), 0), c['nval'][r_] >= 0)), c['nval'][r_])), ('own count announced', BLKI(ME(c), 0, 0) == c['nval_loc']),
    ('total', c['nval_tot'] == c['offset'][NR(c) - 1] + c['nval'][NR(c) - 1])],
  loops={0: Loop(inv=lambda L: [('sizes', And(L['i'] >= 0, L['nval'].n == NR(L))), ('so far', L['nval_tot'] == TOT(L['i']))], defs=None),
         1: Loop(inv=lambda L: [('sizes', And(L['i'] >= 1, L['offset'].n == NR(L), L['nval'].n == NR(L))), ('offsets', And(*prefix(L, 'offset', 'nval', NR(L), UP(L)))), ('follow', tight(L, 'offset', 'nval', UP(L))),
            ('sums', FA([k], Imp(And(rng(k, 0, NR(L)), k < L['i']), L['offset'][k] == TOT(k)), L['offset'][k]))])}, nloops=2,
  axioms=lambda c: [TOT(0) == 0, FA([k], Imp(k >= 0, TOT(k + 1) == TOT(k) + BLKI(k, iv(0), 0)), MP(TOT(k), BLKI(k, iv(0), 0)))])
def delivered(c, me, b, num, dis, F=BLKR): return FA([s_, t_], Imp(And(rng(s_, 0, NR(c)), rng(t_, 0, num[s_])), b[dis[s_] + t_] == F(s_, me, t_)), F(s_, me, t_))
def handed(c, me, b, num, dis, F=BLKR): return FA([r_, t_], Imp(And(rng(r_, 0, NR(c)), rng(t_, 0, num[r_])), F(me, r_, t_) == b[dis[r_] + t_]), F(me, r_, t_))
S('all2allv_easy', ['in', 'numin', 'out', 'numout'], modifies=['out', 'numout'], req=lambda c: [counts_legal(c, 'numin')], exsures=lambda c: [('nothing received', And(c['out'].n == c.old['out'].n, eq(c.old['out'], c['out'])))] ,
  ensures=lambda c: [('block of each process at its offset', delivered(c, ME(c), c['out'], c['numout'], c['disout'])), ('blocks sent', handed(c, ME(c), c['in'], c['numin'], c['disin'])), ('buffer exactly as large as announced', c['out'].n == c['disout'][NR(c) - 1] + c['numout'][NR(c) - 1]),
     ('offsets', And(*(prefix(c, 'disout', 'numout', NR(c)) + prefix(c, 'disin', 'numin', NR(c))))), ('counts are those announced', announced(c, 'numout', NR(c)))] + same(c, 'in', 'numin'))
S('all2allv', ['in', 'numin', 'disin', 'out', 'numout', 'disout', 'outsize'], modifies=['out'],
  req=lambda c: [And(*[c[v].n == NR(c) for v in ('numin', 'disin', 'numout', 'disout')]), c['outsize'] >= 0, announced(c, 'numout', NR(c)), FA([r_], Imp(rng(r_, 0, NR(c)), c['numin'][r_] == BLKI(ME(c), r_, 0)), c['numin'][r_]),
     tight(c, 'disout', 'numout', NR(c))] + [FA([r_], Imp(rng(r_, 0, NR(c)), And(c[n][r_] >= 0, c[d][r_] >= 0, c[d][r_] + c[n][r_] <= sz)), c[n][r_], c[d][r_]) for n, d, sz in (('numin', 'disin', c['in'].n), ('numout', 'disout', c['outsize']))],
  ensures=lambda c: [('block of each process at its offset', delivered(c, ME(c), c['out'], c['numout'], c['disout'])), ('blocks sent', handed(c, ME(c), c['in'], c['numin'], c['disin'])), ('size', c['out'].n == c['outsize'])] + same(c, 'in', 'numin', 'disin', 'numout', 'disout'))
S('gatherv_m', ['in', 'out'], type='arr<double> &, arr<double> &', modifies=['out'], req=lambda c: [ME(c) == 0],
  ensures=lambda c: [('block of each process at its offset', delivered(c, iv(0), c['out'], c['nval'], c['offset'])), ('own block', FA([t_], Imp(rng(t_, 0, c['in'].n), BLKR(ME(c), 0, t_) == c['in'][t_]), BLKR(ME(c), 0, t_))), ('buffer exactly as large as announced', c['out'].n == c['offset'][NR(c) - 1] + c['nval'][NR(c) - 1]),
     ('offsets', And(*prefix(c, 'offset', 'nval', NR(c))))] + same(c, 'in'))
S('gatherv_s', ['in'], type='(const arr<double>', req=lambda c: [ME(c) != 0], ensures=lambda c: [('own block', FA([t_], Imp(rng(t_, 0, c['in'].n), BLKR(ME(c), 0, t_) == c['in'][t_]), BLKR(ME(c), 0, t_))), ('announced', BLKI(ME(c), 0, 0) == c['in'].n)] + same(c, 'in'))
S('gather_m', ['in', 'out', 'root'], type='const double &', modifies=['out'], req=lambda c: [c['root'] == ME(c)], ensures=lambda c: [('one place per process', And(c['out'].n == NR(c), FA([s_], Imp(rng(s_, 0, NR(c)), c['out'][s_] == BLKR(s_, ME(c), 0)), c['out'][s_]))), ('own value', BLKR(ME(c), ME(c), 0) == c['in'])])
S('gather_s', ['in', 'root'], type='const double &', req=lambda c: [c['root'] != ME(c), rng(c['root'], 0, NR(c))], ensures=lambda c: [('own value', BLKR(ME(c), c['root'], 0) == c['in'])])
S('all2all', ['in', 'out'], type='arr<double> &', modifies=['out'], ensures=lambda c: [('size', c['out'].n == c['in'].n)] + same(c, 'in') + [('blocks', FA([s_, t_], Imp(And(rng(s_, 0, NR(c)), rng(t_, 0, BS(c))), And(c['out'][s_ * BS(c) + t_] == BLKR(s_, ME(c), t_), BLKR(ME(c), s_, t_) == c['in'][s_ * BS(c) + t_])), MP(BLKR(s_, ME(c), t_), BLKR(ME(c), s_, t_))))],
  exsures=lambda c: [('only if the blocks are not equal', c['in'].n % NR(c) != 0)])
def BS(c): return c['in'].n / NR(c)
S('allgather', ['in', 'out'], key='allgather arrays', type='(const arr<double>', modifies=['out'], ensures=lambda c: [('size', c['out'].n == NR(c) * c['in'].n), ('blocks', FA([s_, t_], Imp(And(rng(s_, 0, NR(c)), rng(t_, 0, c['in'].n)), c['out'][s_ * c['in'].n + t_] == BLKR(s_, -1, t_)), BLKR(s_, -1, t_))),
  ('own block', FA([t_], Imp(rng(t_, 0, c['in'].n), BLKR(ME(c), -1, t_) == c['in'][t_]), BLKR(ME(c), -1, t_)))] + same(c, 'in'))
S('allgather', ['in', 'out'], key='allgather numbers', type='(const double', modifies=['out'], ensures=lambda c: [('one place per process', And(c['out'].n == NR(c), FA([s_], Imp(rng(s_, 0, NR(c)), c['out'][s_] == BLKR(s_, -1, 0)), BLKR(s_, -1, 0)))), ('own value', BLKR(ME(c), -1, 0) == c['in'])])
def opn(c): return c['op']
for opname, opno in OPS.items():
    S('allreduce', ['in', 'out', 'op'], key='allreduce arrays: ' + opname, type='(const arr<double>', modifies=['out'], req=lambda c, o=opno: [c['op'] == o], ensures=lambda c: [('size', c['out'].n == c['in'].n), ('combined over the processes', FA([t_], Imp(rng(t_, 0, c['in'].n), c['out'][t_] == RED(c['op'], t_)), c['out'][t_])), ('own contribution', FA([t_], Imp(rng(t_, 0, c['in'].n), OWN(ME(c), c['op'], t_) == c['in'][t_]), OWN(ME(c), c['op'], t_)))] + same(c, 'in'))
    S('allreduce', ['in', 'out', 'op'], key='allreduce numbers: ' + opname, type='(const double', modifies=['out'], req=lambda c, o=opno: [c['op'] == o], ensures=lambda c: [('combined over the processes', c['out'] == RED(c['op'], 0)), ('own contribution', OWN(ME(c), c['op'], 0) == c['in'])])
    S('allreduce', ['data', 'op'], key='allreduce array in place: ' + opname, type='(arr<double>', modifies=['data'], keep_dims=['data'], req=lambda c, o=opno: [c['op'] == o], ensures=lambda c: [('combined over the processes', FA([t_], Imp(rng(t_, 0, c['data'].n), c['data'][t_] == RED(c['op'], t_)), c['data'][t_])), ('own contribution', FA([t_], Imp(rng(t_, 0, c['data'].n), OWN(ME(c), c['op'], t_) == c.old['data'][t_]), OWN(ME(c), c['op'], t_)))])
    S('allreduce', ['data', 'op'], key='allreduce number in place: ' + opname, type='(double', modifies=['data'], req=lambda c, o=opno: [c['op'] == o], ensures=lambda c: [('combined over the processes', c['data'] == RED(c['op'], 0)), ('own contribution', OWN(ME(c), c['op'], 0) == c.old['data'])])
S('bcast', ['data', 'root'], key='bcast array', type='(arr<double>', modifies=['data'], keep_dims=['data'], req=lambda c: [rng(c['root'], 0, NR(c))], ensures=lambda c: [('the data of the root', FA([t_], Imp(rng(t_, 0, c['data'].n), And(c['data'][t_] == BC(c['root'], t_), Imp(ME(c) == c['root'], c['data'][t_] == c.old['data'][t_]))), c['data'][t_]))])
S('bcast', ['data', 'root'], key='bcast number', type='(double', modifies=['data'], req=lambda c: [rng(c['root'], 0, NR(c))], ensures=lambda c: [('the data of the root', And(c['data'] == BC(c['root'], 0), Imp(ME(c) == c['root'], c['data'] == c.old['data'])))])
TO = lambda v: (lambda c: [c[v] >= 0, c[v] < NR(c)])
S('send', ['data', 'dest'], key='send array', type='(const arr<double>', req=TO('dest'), ensures=lambda c: [('sent', FA([t_], Imp(rng(t_, 0, c['data'].n), SENT(c['dest'], t_) == c['data'][t_]), SENT(c['dest'], t_)))] + same(c, 'data'))
S('recv', ['data', 'src'], key='recv array', type='(arr<double>', modifies=['data'], keep_dims=['data'], req=TO('src'), ensures=lambda c: [('received', FA([t_], Imp(rng(t_, 0, c['data'].n), c['data'][t_] == RCV(c['src'], t_)), c['data'][t_]))])
S('send', ['data', 'dest'], key='send number', type='(const double', req=TO('dest'), ensures=lambda c: [('sent', SENT(c['dest'], 0) == c['data'])])
S('recv', ['data', 'src'], key='recv number', type='(double', modifies=['data'], req=TO('src'), ensures=lambda c: [('received', c['data'] == RCV(c['src'], 0))])
BOTH = lambda c: TO('dest')(c) + TO('src')(c)
S('sendrecv', ['sendbuf', 'dest', 'recvbuf', 'src'], key='sendrecv arrays', type='(const arr<double>', modifies=['recvbuf'], keep_dims=['recvbuf'], req=BOTH, ensures=lambda c: [('sent', FA([t_], Imp(rng(t_, 0, c['sendbuf'].n), SENT(c['dest'], t_) == c['sendbuf'][t_]), SENT(c['dest'], t_))), ('received', FA([t_], Imp(rng(t_, 0, c['recvbuf'].n), c['recvbuf'][t_] == RCV(c['src'], t_)), c['recvbuf'][t_]))] + same(c, 'sendbuf'))
S('sendrecv', ['sendbuf', 'dest', 'recvbuf', 'src'], key='sendrecv numbers', type='(const double', modifies=['recvbuf'], req=BOTH, ensures=lambda c: [('sent', SENT(c['dest'], 0) == c['sendbuf']), ('received', c['recvbuf'] == RCV(c['src'], 0))])
S('sendrecv_replace', ['data', 'dest', 'src'], key='sendrecv_replace array', type='(arr<double>', modifies=['data'], keep_dims=['data'], req=BOTH, ensures=lambda c: [('sent', FA([t_], Imp(rng(t_, 0, c['data'].n), SENT(c['dest'], t_) == c.old['data'][t_]), SENT(c['dest'], t_))), ('received', FA([t_], Imp(rng(t_, 0, c['data'].n), c['data'][t_] == RCV(c['src'], t_)), c['data'][t_]))])
for opname, opno in OPS.items():
    S('reduceRaw', ['in', 'out', 'num', 'op', 'root'], key='reduceRaw: ' + opname, type='const double *', modifies=['out'], req=lambda c, o=opno: [c['op'] == o, c['num'] >= 0, rng(c['root'], 0, NR(c)), c['in'].n >= c['in'].off + c['num'], c['out'].n >= c['out'].off + c['num'], c['in'].off >= 0, c['out'].off >= 0],
      ensures=lambda c: [('combined over the processes at the root', FA([t_], Imp(And(rng(t_, 0, c['num']), ME(c) == c['root']), c['out'][t_] == RED(c['op'], t_)), c['out'][t_])), ('own contribution', FA([t_], Imp(rng(t_, 0, c['num']), OWN(ME(c), c['op'], t_) == c['in'][t_]), OWN(ME(c), c['op'], t_)))])
SPECS.append(Spec('MPI_Manager::MPI_Manager', ['comm'], key='MPI_Manager::MPI_Manager exchange', unit=U, modifies=['this.*'], opts=dict(cpp_call=mpi, real_mpi=True, noframe=True), ensures=lambda c: [('size of the group', c['this.num_ranks_'] == GSIZE), ('place in the group', c['this.rank_'] == GRANK)]))
MT = dict(NAT_CHAR='char', NAT_INT='int', NAT_UINT='unsigned', NAT_LONG='long', NAT_ULONG='unsigned_long', NAT_LONGLONG='long_long_int', NAT_ULONGLONG='unsigned_long_long', NAT_FLOAT='float', NAT_DOUBLE='double', NAT_LONGDOUBLE='long_double')
NDTS = ['NAT_CHAR', 'NAT_SCHAR', 'NAT_UCHAR', 'NAT_SHORT', 'NAT_USHORT', 'NAT_INT', 'NAT_UINT', 'NAT_LONG', 'NAT_ULONG', 'NAT_LONGLONG', 'NAT_ULONGLONG', 'NAT_FLOAT', 'NAT_DOUBLE', 'NAT_LONGDOUBLE', 'NAT_BOOL', 'NAT_STRING']
def want(c, x):
    from dv.engine import Unsupported as _U
    r = c.res
    if not isinstance(r, PtrVal): raise Unattached('MPI type %r' % r)
    hit = [q for q, t in MT.items() if r.path == 'global.ompi_mpi_' + t]
    return c['type'] == NDTS.index(hit[0]) if hit else FALSE
SPECS.append(Spec('ndt2mpi', ['type'], key='ndt2mpi exchange', unit=U, opts=dict(real_mpi=True), requires=lambda c: [rng(c['type'], 0, len(NDTS))], ensures=lambda c: [('MPI type of the same kind', want(c, 0))],
   exsures=lambda c: [('only without an MPI type', And(*[c['type'] != NDTS.index(q) for q in MT]))]))
PROPS = dict(C21=[s.key for s in SPECS])
