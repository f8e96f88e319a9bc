"""P12: linear algebra over GF(2)."""
import itertools
from .. import gen, mon, gref, ref
from ..run import Skip
from pyzx.linalg import Mat2, CNOTMaker
from pyzx.circuit import Circuit
from pyzx.circuit import gates as G
from pyzx import extract as E

RULE = "random 0/1 matrices of many shapes, ranks and densities x operation x block size; non-trivial when the matrix has at least two rows and columns; distinct by (matrix, operation)"
ASSUMPTIONS = ["matrices have at least one row and one column"]
OPS = ['anyslice', 'gauss', 'gauss_full', 'trackers', 'pivots', 'rank', 'inverse', 'inverse_none', 'factor', 'solve', 'solve_none', 'nullspace', 'nullspace_trivial', 'mul', 'transpose', 'slices', 'rowcol', 'permute', 'eq',
       'to_cnots', 'to_cnots_opt', 'to_cnots_log', 'synthesised', 'blocks', 'greedy', 'greedy_flat', 'greedy_two', 'remove_extra', 'optimal_swap', 'max_overlap', 'perm_swaps', 'unchanged', 'square_full_rank', 'deficient']
NEED = ["op:" + o for o in OPS] + ["big_matrices"]


def mat(r, rows=None, cols=None, p=None):
    big = 25 if r.random() < .05 else 9
    rows = rows or r.randrange(1, big)
    cols = cols or r.randrange(1, big)
    x = r.random()
    p = p if p is not None else r.choice([.1, .3, .5, .5, .8])
    m = [[int(r.random() < p) for _ in range(cols)] for _ in range(rows)]
    if x < .25:  # low rank, repeated rows
        k = r.randrange(1, rows + 1)
        base = m[:k]
        m = []
        for _ in range(rows):
            v = [0] * cols
            for b in base:
                if r.random() < .5:
                    v = [a ^ c for a, c in zip(v, b)]
            m.append(v)
    elif x < .35:
        for row in m[1:]:
            if r.random() < .5:
                row[:] = m[0]
    return m


def invertible(r, n):
    m = [[int(i == j) for j in range(n)] for i in range(n)]
    for _ in range(r.randrange(0, 4 * n + 1)):
        if n > 1:
            i, j = r.sample(range(n), 2)
            m[i] = [a ^ b for a, b in zip(m[i], m[j])]
    if r.random() < .5:
        r.shuffle(m)
    return m


# ---- independent arithmetic on row bit masks
def bits(m):
    return [sum(v << j for j, v in enumerate(row)) for row in m]


def rank(m):
    rows, k = bits(m), 0
    rows = list(rows)
    while rows:
        p = rows.pop()
        if p:
            k += 1
            low = p & -p
            rows = [x ^ p if x & low else x for x in rows]
    return k


def mul(a, b):
    bb = bits(b)
    n = len(b[0]) if b else 0
    out = []
    for row in a:
        x = 0
        for v, y in zip(row, bb):
            if v:
                x ^= y
        out.append([x >> j & 1 for j in range(n)])
    return out


def ident(n):
    return [[int(i == j) for j in range(n)] for i in range(n)]


def lead(row):
    return next((j for j, v in enumerate(row) if v), None)


def echelon(m, rk, full):
    last = -1
    for i, row in enumerate(m):
        l = lead(row)
        if i >= rk:
            if l is not None:
                return "row %d below the rank is not zero" % i
            continue
        if l is None:
            return "row %d is zero" % i
        if l <= last:
            return "the leading entries do not move to the right in row %d" % i
        last = l
        for k in range(len(m)):
            if m[k][l] and (k > i or (full and k != i)):
                return "column %d of a pivot is not cleared" % l
    return None


def k_gauss(case):
    r = case.rng
    big = 10 if r.random() < .94 else r.choice([20, 45])
    rows, cols = r.randrange(1, big), r.randrange(1, big)
    if big > 10:
        case.see("big_matrices")
    m = mat(r, rows, cols)
    full = r.random() < .6
    bs = r.choice([None, 1, 2, 3, 4, 5, 6, 7, cols, cols + 3])
    a = Mat2([row.copy() for row in m])
    kw = {} if bs is None else {'blocksize': bs}
    if bs is not None:
        case.see("op:blocks")
    x = Mat2(ident(rows)) if r.random() < .8 else None
    y = Mat2(ident(rows)) if r.random() < .8 else None
    piv = [] if r.random() < .5 else None
    if piv is not None:
        kw['pivot_cols'] = piv
    rk = a.gauss(full_reduce=full, x=x, y=y, **kw)
    sig = "%s full_reduce=%s blocksize=%s" % (m, full, bs)
    case.check(rk == rank(m), "gauss:rank", lambda: "gauss returns %d, the rank is %d: %s" % (rk, rank(m), sig))
    w = echelon(a.data, rk, full)
    case.check(w is None, "gauss:form", lambda: "gauss of %s gives %s: %s" % (sig, a.data, w))
    # same row space: the result has the rank, and stacked with the original still does
    case.check(rank(a.data + m) == rk, "gauss:rowspace", lambda: "gauss of %s changed the row space" % sig)
    if x is not None:
        case.check(mul(x.data, m) == a.data, "gauss:x", lambda: "x does not record the row operations of %s" % sig)
    if y is not None:
        case.check(mul(y.data, a.data) == m, "gauss:y", lambda: "y does not record the inverse row operations of %s" % sig)
    if x is not None or y is not None:
        case.see("op:trackers")
    if piv is not None:
        case.check(piv == [lead(row) for row in a.data[:rk]], "gauss:pivots", lambda: "pivot columns %s, expected %s: %s" % (piv, [lead(row) for row in a.data[:rk]], sig))
        case.see("op:pivots")
    case.see("op:gauss_full" if full else "op:gauss")
    case.see("op:square_full_rank" if rows == cols == rk else "op:deficient")
    if rows > 1 and cols > 1:
        case.note('gauss', m, full, bs)
    case.sample(sig)


def k_ops(case):
    r = case.rng
    m = mat(r) if r.random() < .6 else invertible(r, r.randrange(1, 9) if r.random() < .95 else r.randrange(9, 25))
    rows, cols = len(m), len(m[0])
    keep = [row.copy() for row in m]
    a = Mat2(m)
    sig = str(keep)
    rk = rank(m)
    case.check(a.rows() == rows and a.cols() == cols, "shape", "rows/cols")
    case.check(a.rank() == rk, "rank", lambda: "rank %d of %s" % (a.rank(), sig))
    case.see("op:rank")
    t = a.transpose()
    case.check(t.data == [list(c) for c in zip(*m)], "transpose", lambda: "transpose of %s" % sig)
    case.see("op:transpose")
    b = mat(r, cols, r.randrange(1, 7))
    case.check((a * Mat2(b)).data == mul(m, b), "mul", lambda: "%s * %s" % (sig, b))
    case.see("op:mul")
    inv = a.inverse()
    if rows == cols and rk == rows:
        case.check(inv is not None and mul(inv.data, m) == ident(rows) and mul(m, inv.data) == ident(rows), "inverse", lambda: "inverse of %s is %s" % (sig, inv and inv.data))
        case.see("op:inverse")
    else:
        case.check(inv is None, "inverse:none", lambda: "inverse of the singular %s is %s" % (sig, inv.data))
        case.see("op:inverse_none")
    f = a.factor()
    case.check(len(f) == 2 and f[0].rows() == rows and f[1].rows() == rk and (rk == 0 or (f[0].cols() == rk and f[1].cols() == cols and mul(f[0].data, f[1].data) == keep)), "factor", lambda: "factor of %s is %s, %s" % (sig, f[0].data, f[1].data))
    case.see("op:factor")
    ns = a.nullspace() if r.random() < .7 else Mat2([x.copy() for x in m]).nullspace(should_copy=False)
    case.check(len(ns) == cols - rk and all(any(v) and len(v) == cols for v in ns), "nullspace:size", lambda: "nullspace of %s (rank %d) is %s" % (sig, rk, ns))
    if ns:
        case.check(rank(ns) == len(ns), "nullspace:independent", lambda: "nullspace of %s is dependent: %s" % (sig, ns))
        case.check(all(sum(x & y for x, y in zip(row, v)) % 2 == 0 for row in keep for v in ns), "nullspace", lambda: "nullspace of %s contains a vector outside the kernel: %s" % (sig, ns))
        case.see("op:nullspace")
    else:
        case.see("op:nullspace_trivial")
    rhs = [[int(r.random() < .5)] for _ in range(rows)] if r.random() < .5 else mul(m, [[int(r.random() < .5)] for _ in range(cols)])
    rb = Mat2([x.copy() for x in rhs])
    s = a.solve(rb)
    solvable = rank([x + y for x, y in zip(m, rhs)]) == rk
    if solvable:
        case.check(s is not None and (s.rows(), s.cols()) == (cols, 1) and mul(keep, s.data) == rhs, "solve", lambda: "solve %s x = %s gives %s" % (sig, rhs, s and s.data))
        case.see("op:solve")
    else:
        case.check(s is None, "solve:none", lambda: "solve %s x = %s gives %s but there is no solution" % (sig, rhs, s.data))
        case.see("op:solve_none")
    case.check(rb.data == rhs and a.data == keep, "mutated", lambda: "rank, inverse, factor, nullspace, solve or product changed %s" % sig)
    case.see("op:unchanged")
    # equality
    c = a.copy()
    case.check(c == a and not (c != a), "eq", "a copy is not equal")
    i, j = r.randrange(rows), r.randrange(cols)
    c.data[i][j] ^= 1
    case.check(not (c == a) and a.data == keep, "eq:differs", lambda: "differing matrices are equal or share data: %s" % sig)
    case.check(not (a == Mat2([x + [0] for x in keep])) and not (a == Mat2(keep + [keep[0]])) and not (a == keep), "eq:shape", "matrices of different shape are equal")
    case.see("op:eq")
    # slices
    i2, j2 = r.randrange(i, rows) + 1, r.randrange(j, cols) + 1
    case.check(a[i, j] == keep[i][j], "getitem", "element")
    case.check(a[i:i2, j:j2].data == [x[j:j2] for x in keep[i:i2]], "getitem:slice", lambda: "slice [%d:%d,%d:%d] of %s" % (i, i2, j, j2, sig))
    case.check(a[i, :].data == [keep[i]] and a[:, j].data == [[x[j]] for x in keep], "getitem:rowcol", lambda: "row or column slice of %s" % sig)
    ni, nj = r.choice([i, i - rows]), r.choice([j, j - cols])   # counted from the end
    case.check(a[ni, nj] == keep[i][j] and a[ni, j:j2].data == [keep[i][j:j2]] and a[i:i2, nj].data == [[x[j]] for x in keep[i:i2]], "getitem:negative", lambda: "indices %d and %d of %s" % (ni, nj, sig))
    st = r.choice([2, 3, -1])
    case.check(a[::st, j].data == [[x[j]] for x in keep[::st]] and a[i, ::st].data == [keep[i][::st]], "getitem:step", lambda: "step %d of %s" % (st, sig))
    c = a.copy()
    c[ni, ::st] = Mat2([[1] * len(keep[0][::st])])
    case.check(c.data == [[1 if p == i and q in range(cols)[::st] else keep[p][q] for q in range(cols)] for p in range(rows)], "setitem:step", lambda: "row %d, step %d of %s" % (ni, st, sig))
    sl = [slice(*(r.choice([None, r.randrange(-k - 1, k + 2)]) for _ in range(2)), r.choice([None, None, 1, 2, -1, -2])) for k in (rows, cols)]
    rr, cc = range(*sl[0].indices(rows)), range(*sl[1].indices(cols))
    if len(rr) and len(cc):
        case.check(a[sl[0], sl[1]].data == [[keep[p][q] for q in cc] for p in rr], "getitem:slices", lambda: "%s of %s" % (sl, sig))
        blk = mat(r, len(rr), len(cc))
        c = a.copy()
        c[sl[0], sl[1]] = Mat2([list(x) for x in blk])
        want = [list(x) for x in keep]
        for p, x in zip(rr, blk):
            for q, y in zip(cc, x):
                want[p][q] = y
        case.check(c.data == want, "setitem:slices", lambda: "assigning %s to %s of %s" % (blk, sl, sig))
        case.see("op:anyslice")
    c = a.copy()
    blk = mat(r, i2 - i, j2 - j)
    c[i:i2, j:j2] = Mat2(blk)
    want = [[blk[p - i][q - j] if i <= p < i2 and j <= q < j2 else keep[p][q] for q in range(cols)] for p in range(rows)]
    case.check(c.data == want, "setitem", lambda: "block assignment into %s" % sig)
    c[i, j] = 1 - blk[0][0]
    case.check(c.data[i][j] == 1 - blk[0][0], "setitem:element", "element assignment")
    case.see("op:slices")
    # row and column operations
    i, k = r.randrange(rows), r.randrange(rows)
    j, l = r.randrange(cols), r.randrange(cols)
    c = a.copy()
    if i != k:
        c.row_add(i, k)
        case.check(c.data == [[x ^ y for x, y in zip(keep[k], keep[i])] if p == k else keep[p] for p in range(rows)], "row_add", lambda: "row_add(%d,%d) of %s" % (i, k, sig))
    c = a.copy()
    if j != l:
        c.col_add(j, l)
        case.check(c.data == [[x[q] ^ x[j] if q == l else x[q] for q in range(cols)] for x in keep], "col_add", lambda: "col_add(%d,%d) of %s" % (j, l, sig))
    c = a.copy()
    c.row_swap(i, k)
    want = [x.copy() for x in keep]
    want[i], want[k] = want[k], want[i]
    case.check(c.data == want, "row_swap", lambda: "row_swap(%d,%d) of %s" % (i, k, sig))
    c = a.copy()
    c.col_swap(j, l)
    want = [x.copy() for x in keep]
    for x in want:
        x[j], x[l] = x[l], x[j]
    case.check(c.data == want, "col_swap", lambda: "col_swap(%d,%d) of %s" % (j, l, sig))
    case.see("op:rowcol")
    p = list(range(rows))
    q = list(range(cols))
    r.shuffle(p)
    r.shuffle(q)
    c = a.copy()
    c.permute_rows(p)
    c.permute_cols(q)
    case.check(c.data == [[keep[x][y] for y in q] for x in p], "permute", lambda: "permute of %s" % sig)
    case.see("op:permute")
    if rows > 1 and cols > 1:
        case.note('ops', keep)


def run(cn, n):
    rows = ident(n)
    for g in cn:
        rows[g.target] = [a ^ b for a, b in zip(rows[g.target], rows[g.control])]
    return rows


def k_cnots(case):
    """to_cnots: undoing the listed CNOTs' row operations gives the reduced matrix, so they synthesise it."""
    r = case.rng
    n = r.randrange(1, 9) if r.random() < .94 else r.randrange(9, 28)
    m = invertible(r, n)
    a = Mat2([x.copy() for x in m])
    x = r.random()
    kw, op = ({}, 'to_cnots') if x < .35 else ({'optimize': True}, 'to_cnots_opt') if x < .7 else ({'use_log_blocksize': True}, 'to_cnots_log')
    cn = a.to_cnots(**kw)
    case.check(all(type(g).__name__ == 'CNOT' and g.control != g.target and 0 <= g.control < n and 0 <= g.target < n for g in cn), "to_cnots:gates", "not CNOTs on the qubits")
    # documented use: row_add(target, control) for each CNOT reduces the matrix
    red = [x.copy() for x in m]
    for g in cn:
        red[g.control] = [p ^ q for p, q in zip(red[g.control], red[g.target])]
    case.check(red == ident(n), "to_cnots", lambda: "to_cnots(%s) of %s gives CNOTs %s which reduce it to %s" % (kw, m, [(g.control, g.target) for g in cn], red))
    case.check(a.data == m, "mutated", "to_cnots changed the matrix")
    case.see("op:" + op)
    # rows over GF(2): the circuit |x> -> |Mx> is the reversed list with control and target exchanged
    rev = [G.CNOT(g.target, g.control) for g in reversed(cn)]
    case.check(run(rev, n) == m, "synthesised", lambda: "the CNOT circuit does not implement %s" % m)
    case.see("op:synthesised")
    if n > 1:
        case.note('cnots', m, str(kw))


def k_extract(case):
    """Helpers of circuit extraction working on matrices."""
    r = case.rng
    rows, cols = r.randrange(1, 7), r.randrange(1, 7)
    m = mat(r, rows, cols)
    rk = rank(m)
    sig = str(m)

    def apply(ops):
        d = [x.copy() for x in m]
        for s, t in ops:
            case.check(s != t, "greedy:self", "row added to itself")
            d[t] = [p ^ q for p, q in zip(d[t], d[s])]
        return d
    # is there a sum of rows with a single one?
    vs = {0}
    for b in bits(m):
        vs |= {v ^ b for v in vs}
    exists = any(bin(v).count('1') == 1 for v in vs)
    for name, f in (('greedy', E.greedy_reduction), ('greedy_flat', E.greedy_reduction_flat)):
        a = Mat2([x.copy() for x in m])
        ops = f(a)
        case.check(a.data == m, "mutated", "%s changed the matrix" % name)
        case.check((ops is not None) == exists, name + ":exists", lambda: "%s of %s gives %s, but a single-one row sum %s" % (name, sig, ops, "exists" if exists else "does not exist"))
        if ops is not None:
            d = apply(ops)
            case.check(any(sum(x) == 1 for x in d), name, lambda: "%s of %s gives %s which leaves no row with a single one" % (name, sig, ops))
            case.see("op:" + name)
    if exists and not any(sum(x) == 1 for x in m):
        ops = E.greedy_two_reduction(Mat2([x.copy() for x in m]))
        if ops is not None:
            d = apply(ops)
            case.check(sum(1 for x in d if sum(x) == 1) >= 2, "greedy_two", lambda: "greedy_two_reduction of %s gives %s which leaves no two rows with a single one" % (sig, ops))
            case.see("op:greedy_two")
    if exists and rk == rows:
        cn = E.filter_duplicate_cnots(Mat2([x.copy() for x in m]).to_cnots()) if r.random() < .5 else [G.CNOT(t, c) for c, t in E.greedy_reduction(Mat2([x.copy() for x in m]))]
        d0 = [x.copy() for x in m]
        for g in cn:
            d0[g.control] = [p ^ q for p, q in zip(d0[g.control], d0[g.target])]
        if any(sum(x) == 1 for x in d0):
            a = Mat2([x.copy() for x in m])
            ex = E.remove_extra_cnots(cn, a)
            d = [x.copy() for x in m]
            for g in ex:
                d[g.control] = [p ^ q for p, q in zip(d[g.control], d[g.target])]
            n0, n1 = sum(1 for x in d0 if sum(x) == 1), sum(1 for x in d if sum(x) == 1)
            case.check(n1 >= n0 and len(ex) <= len(cn), "remove_extra_cnots", lambda: "remove_extra_cnots(%s) of %s gives %s with %d extractable rows instead of %d" % ([(g.control, g.target) for g in cn], sig, [(g.control, g.target) for g in ex], n1, n0))
            case.see("op:remove_extra")
    # column_optimal_swap: a permutation of the columns maximising ones on the diagonal when a perfect one exists
    n = r.randrange(1, 7) if r.random() < .9 else r.randrange(7, 16)
    q = mat(r, n, n, p=r.choice([.2, .4, .6]))
    t = E.column_optimal_swap(Mat2([x.copy() for x in q]))
    case.check(sorted(t.keys()) == list(range(n)) == sorted(t.values()), "column_optimal_swap", lambda: "column_optimal_swap of %s is %s: not a permutation" % (q, t))
    case.see("op:optimal_swap")
    # max_overlap of a symmetric matrix
    s = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            s[i][j] = s[j][i] = int(r.random() < .5)
    (i, j), common = E.max_overlap(Mat2([x.copy() for x in s]))
    best = max([sum(a & b for a, b in zip(s[x], s[y])) for x in range(n) for y in range(x)] + [0])
    ok = len(common) == best and (best == 0 or (i != j and common == [k for k in range(n) if s[i][k] and s[j][k]]))
    case.check(ok, "max_overlap", lambda: "max_overlap of %s gives %s, the largest overlap is %d" % (s, ((i, j), common), best))
    case.see("op:max_overlap")
    p = list(range(n))
    r.shuffle(p)
    l = list(range(n))
    for a, b in E.permutation_as_swaps({i: p[i] for i in range(n)}):
        l[a], l[b] = l[b], l[a]
    case.check(l == p or [l.index(i) for i in range(n)] == p, "permutation_as_swaps", lambda: "permutation_as_swaps of %s yields %s" % (p, l))
    case.see("op:perm_swaps")
    case.note('extract', m)


KINDS = {'gauss': (k_gauss, 30000, 400000), 'ops': (k_ops, 15000, 150000), 'cnots': (k_cnots, 15000, 150000), 'extract': (k_extract, 12000, 120000)}
