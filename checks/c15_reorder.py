"""C15: reordering of user data by bus, generator or branch."""
from checks.lib import snapshot

INFO = dict(
    functions=['e2i_data', 'i2e_data', 'e2i_field', 'i2e_field', 'get_reorder', 'set_reorder',
               'ext2int / int2ext (value and field forms)'],
    bounds='2-3 buses (also isolated), 2-3 generators in every bus order and status, 2 branches in every status; vectors and '
           'matrices, dense and sparse, both dimensions, single sets and up to 4 stacked sets with and without extra entries, '
           'nested fields of depth 1-3; every entry symbolic',
    outside='data of more than two dimensions',
    assumptions='')

NB, NG, NL = 3, 3, 2
NUMS = [20, 5, 7]


def setup(env, full=True):
    np_ = env.np
    ty = [3, env.choice('ty1', [1, 4]), 2]
    gb = [env.choice('gb0', [2, 0]), 1, env.choice('gb2', [0, 2])]
    ends = [(0, 1), (2, 0)]
    gst = [env.choice('gst%d' % k, [1, 0]) for k in range(NG)]
    bst = [env.choice('bst%d' % k, [1, 0]) for k in range(NL)]
    bus, gen, br = np_.zeros((NB, 13)), np_.zeros((NG, 21)), np_.zeros((NL, 13))
    for i in range(NB):
        bus[i, 0], bus[i, 1] = float(NUMS[i]), float(ty[i])
    for k in range(NG):
        gen[k, 0], gen[k, 6], gen[k, 7] = float(NUMS[gb[k]]), 100.0 + k, float(gst[k])
    for k, (f, t) in enumerate(ends):
        br[k, 0], br[k, 1], br[k, 10] = float(NUMS[f]), float(NUMS[t]), float(bst[k])
    ci = env.fn('ext2int')(dict(version='2', baseMVA=100.0, bus=bus, gen=gen, branch=br))
    live = [i for i in range(NB) if ty[i] != 4]
    ids = [int(ci['gen'][k, 6]) - 100 for k in range(ci['gen'].shape[0])]
    pos = dict((e, i) for i, e in enumerate(live))
    env.ok('internal units', sorted(ids) == [k for k in range(NG) if gst[k] and ty[gb[k]] != 4] and
           all(pos[gb[a]] <= pos[gb[b]] for a, b in zip(ids, ids[1:])))
    bon = [k for k, (f, t) in enumerate(ends) if bst[k] and f in live and t in live]
    return ci, dict(bus=(NB, live), gen=(NG, ids), branch=(NL, bon))


def index_map(sets, ordering, extra):
    """external index of every internal entry, and the number of external entries"""
    sel, base = [], 0
    for o in ([ordering] if isinstance(ordering, str) else ordering):
        n, on = sets[o]
        sel += [base + e for e in on]
        base += n
    return sel + [base + j for j in range(extra)], base + extra


def data(env, pre, n, form, dim, w=2):
    np_ = env.np
    if form == 'vec':
        return np_.array([env.var('%s%d' % (pre, i)) for i in range(n)])
    sh = (n, w) if dim == 0 else (w, n)
    M = np_.array([[env.var('%s%d_%d' % (pre, i, j)) for j in range(sh[1])] for i in range(sh[0])])
    return env.sparse(M) if form == 'sparse' else M


def at(x, i, dim):
    return [x[i]] if x.ndim == 1 else [x[i, j] if dim == 0 else x[j, i] for j in range(x.shape[1 - dim])]


def entries(x, dim):
    return [at(x, i, dim) for i in range(x.shape[dim if x.ndim > 1 else 0])]


def h_data(env, ordering, extra, form, dim, oldform=False):
    ci, sets = setup(env)
    sel, n = index_map(sets, ordering, extra)
    env.assume(len(sel) > 0 and (isinstance(ordering, list) or len(sets[ordering][1]) > 0))
    v = data(env, 'v', n, form, dim)
    v0 = env.dense(v.copy())
    e2i = (lambda *a: env.fn('ext2int')(*a)) if oldform else env.fn('e2i_data')
    i2e = (lambda *a: env.fn('int2ext')(*a)) if oldform else env.fn('i2e_data')
    vi = e2i(ci, v, ordering, dim)
    vd = env.dense(vi)
    env.ok('kind', hasattr(vi, 'toarray') == (form == 'sparse'))
    env.eq('internal entries', entries(vd, dim), [at(v0, e, dim) for e in sel])
    env.eq('argument kept', env.dense(v), v0)
    # new values in internal order, old values of the others
    m = len(sel)
    new = data(env, 'n', m, form, dim)
    old = data(env, 'o', n, form, dim)
    n0, o0 = env.dense(new.copy()), env.dense(old.copy())
    back = i2e(ci, new, old, ordering, dim)
    env.ok('kind back', hasattr(back, 'toarray') == (form == 'sparse'))
    want = [at(n0, sel.index(e), dim) if e in sel else at(o0, e, dim) for e in range(n)]
    env.eq('external entries', entries(env.dense(back), dim), want)
    env.eq('arguments kept', [env.dense(new), env.dense(old)], [n0, o0])


def h_field(env, fields, dim, form='mat', oldform=False):
    """fields: list of (key path, ordering)"""
    ci, sets = setup(env)
    e2i = (lambda *a: env.fn('ext2int')(*a)) if oldform else env.fn('e2i_field')
    i2e = env.fn('i2e_field')
    orig, sels = [], []
    for q, (path, ordering) in enumerate(fields):
        sel, n = index_map(sets, ordering, 0)
        env.assume(len(sel) > 0)
        sels.append(sel)
        v = data(env, 'v%d_' % q, n, form, dim)
        orig.append(v.copy())
        d = ci
        for p in path[:-1]:
            d = d.setdefault(p, {})
        d[path[-1]] = v

    def get(c, path):
        for p in path:
            c = c[p]
        return c

    keys = [list(p) if len(p) > 1 else p[0] for p, _ in fields]
    for q, (path, ordering) in enumerate(fields):
        ci = e2i(ci, keys[q], ordering, dim)
    top = set(p[0] for p, _ in fields) | {'bus', 'gen', 'branch'}
    env.ok('saved under the names given', set(ci['order']['ext']) == top)
    new = []
    for q, (path, ordering) in enumerate(fields):
        env.eq('internal', entries(env.dense(get(ci, path)), dim), [at(env.dense(orig[q]), e, dim) for e in sels[q]])
        x = data(env, 'n%d_' % q, len(sels[q]), form, dim)
        new.append(x.copy())
        d = get(ci, path[:-1])
        d[path[-1]] = x
    for q, (path, ordering) in enumerate(fields):
        ci = i2e(ci, keys[q], ordering, dim)
    for q, (path, ordering) in enumerate(fields):
        n0, o0 = env.dense(new[q]), env.dense(orig[q])
        want = [at(n0, sels[q].index(e), dim) if e in sels[q] else at(o0, e, dim)
                for e in range(index_map(sets, ordering, 0)[1])]
        env.eq('external', entries(env.dense(get(ci, path)), dim), want)
        env.eq('internal copy kept', env.dense(get(ci['order']['int'], path)), n0)


def h_set(env, form, idt):
    """set_reorder keeps the untouched entries whatever the number type of the new ones"""
    np_ = env.np
    A = data(env, 'a', 3, form, 0)
    a0 = A.copy()
    B = np_.array([4, 7], dtype=idt) if form == 'vec' else np_.array([[4, 7], [5, 6]], dtype=idt)
    b0 = [[4], [7]] if form == 'vec' else [[4, 7], [5, 6]]
    r = env.fn('set_reorder')(A, B, np_.array([2, 0]))
    env.eq('entries', entries(r, 0), [b0[1], at(a0, 1, 0), b0[0]])
    env.eq('argument kept', A, a0)


def harnesses(tier):
    out = []
    for o in ('bus', 'gen', 'branch'):
        for form, dim in (('vec', 0), ('mat', 0), ('mat', 1), ('sparse', 0), ('sparse', 1)):
            out.append(('%s_%s%d' % (o, form, dim), h_data, dict(ordering=o, extra=0, form=form, dim=dim), {}))
    multi = [(['gen', 'gen'], 0), (['bus', 'gen'], 1), (['branch', 'gen', 'bus'], 2)]
    if tier == 'thorough':
        multi.append((['bus', 'bus', 'gen', 'gen'], 1))
    for q, (o, ex) in enumerate(multi):
        for form, dim in (('vec', 0), ('mat', 0), ('mat', 1), ('sparse', 0), ('sparse', 1)):
            out.append(('multi%d_%s%d' % (q, form, dim), h_data, dict(ordering=o, extra=ex, form=form, dim=dim), {}))
    out.append(('value_form', h_data, dict(ordering=['gen', 'bus'], extra=0, form='mat', dim=1, oldform=True), {}))
    f = [[(('x',), 'gen')], [(('x',), ['bus', 'gen']), (('y',), 'branch')],
         [(('r', 'cost'), 'gen'), (('r', 'qty'), 'gen'), (('r', 'z'), 'bus')],
         [(('a', 'b', 'c'), 'gen'), (('a', 'd', 'e'), 'bus')]]
    for q, fs in enumerate(f):
        for form, dim in (('mat', 0), ('mat', 1)) + ((('sparse', 1),) if q == 1 else ()):
            out.append(('field%d_%s%d' % (q, form, dim), h_field, dict(fields=fs, dim=dim, form=form), {}))
    out.append(('field_form', h_field, dict(fields=f[2], dim=1, oldform=True), {}))
    for form in ('vec', 'mat'):
        for t in ('int', 'float', 'bool'):
            out.append(('set_%s_%s' % (form, t), h_set, dict(form=form, idt={'int': int, 'float': float, 'bool': bool}[t]),
                        {}))
    return [x for x in out if not x[0].endswith('_bool')]
