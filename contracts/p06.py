"""P06: joint priors factorise: prob / ln_prob / cdf / rescale of a (conditional) prior dictionary."""
import itertools
import numpy as np
from pydv.contract import contract
import bilby.core.prior as bp
import bilby.core.prior.dict as pd
import bilby.core.utils.random as brandom
from bilby.core.prior.conditional import conditional_prior_factory

INF = np.inf
KEYS = ['a', 'b', 'd']


class Stub(bp.Prior):
    """a prior known only by its contract: prob >= 0, ln_prob = log prob, any rescale, any cdf"""

    def __init__(self, dens, scale, dist, shift=0.0, name=None, latex_label=None, unit=None, boundary=None):
        super().__init__(name=name, latex_label=latex_label, unit=unit, boundary=boundary)
        self.dens, self.scale, self.dist, self.shift = dens, scale, dist, shift

    def prob(self, val):
        return self.dens(val, self.shift)

    def ln_prob(self, val):
        return np.log(self.dens(val, self.shift))

    def rescale(self, val):
        return self.scale(val, self.shift)

    def cdf(self, val):
        return self.dist(val, self.shift)


CondStub = conditional_prior_factory(Stub)


def fns(c, key):
    return c.func('dens_' + key, 2, positive=True), c.func('scale_' + key, 2), c.func('cdf_' + key, 2)


def ratio(c, p, keys):
    """the normalisation of the constrained density: a modular call"""
    if c.sym:
        r = c.pos('ratio')
        c.callee(p, 'normalize_constraint_factor', lambda keys, **k: r)
        return r
    return p.normalize_constraint_factor(tuple(keys))


def unconstrained(c, p):
    """modular call: without constraints the normalisation is one (contract 'normalisation without constraints')"""
    c.callee(p, 'normalize_constraint_factor', lambda keys, **k: 1)
    return p


@contract("P06", "normalisation without constraints", bound="1 to 3 keys, ten repeats of the estimate")
def _(c):
    keys = KEYS[:c.choice('n', [1, 2, 3])]
    F = {x: fns(c, x) for x in keys}
    p = c.choice('class', [bp.PriorDict, bp.ConditionalPriorDict])({x: Stub(*F[x], name=x) for x in keys})
    c.setattr(p, 'sample_subset', lambda keys=(), size=None: {x: c.array(x) for x in keys})
    c.ensure_eq('one', p.normalize_constraint_factor(tuple(keys)), 1)
    c.ensure_eq('one-again', p.normalize_constraint_factor(tuple(keys)), 1)
    c.ensure_eq('constraint-factor', p.evaluate_constraints({x: c.real(x) for x in keys}), 1)


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


@contract("P06", "PriorDict[product, scalar samples]", bound="1 to 3 keys")
def _(c):
    k = c.choice('n', [1, 2, 3])
    keys = KEYS[:k]
    F = {x: fns(c, x) for x in keys}
    p = unconstrained(c, bp.PriorDict({x: Stub(*F[x], name=x) for x in keys}))
    order = c.choice('order', list(itertools.permutations(keys)))
    s = {x: c.real(x) for x in order}
    want = prod(F[x][0](s[x], 0.0) for x in keys)
    lw = sum(np.log(F[x][0](s[x], 0.0)) for x in keys)
    c.ensure_eq('prob-is-the-product', p.prob(s), want)
    c.ensure_eq('ln_prob-is-the-sum', p.ln_prob(s), lw)
    c.ensure_eq('unnormalised-ln_prob', p.ln_prob(s, normalized=False), lw)
    c.ensure_eq('ln_prob-is-log-prob', np.log(p.prob(s)), p.ln_prob(s))
    q = p.cdf(s)
    c.ensure('cdf-keys', set(q) == set(keys) and type(q) is dict)
    for x in keys:
        c.ensure_eq('cdf', q[x], F[x][2](s[x], 0.0))
    c.ensure('sample-unchanged', list(s) == list(order))


@contract("P06", "PriorDict[product, arrays of samples]", bound="1 to 3 keys")
def _(c):
    k = c.choice('n', [1, 2, 3])
    keys = KEYS[:k]
    F = {x: fns(c, x) for x in keys}
    p = unconstrained(c, bp.PriorDict({x: Stub(*F[x], name=x) for x in keys}))
    s = {x: c.array(x) for x in reversed(keys)}
    r = p.prob(s, axis=0)
    c.ensure_eq('prob-is-the-product', r, prod(F[x][0](s[x], 0.0) for x in keys))
    r = p.ln_prob(s, axis=0)
    c.ensure_eq('ln_prob-is-the-sum', r, sum(np.log(F[x][0](s[x], 0.0)) for x in keys))


def constrained(c):
    g = c.func('derived', 2)
    F = {x: fns(c, x) for x in 'ab'}
    lo = c.real('lo')
    hi = c.real('hi', lo, open=True)

    def conv(sample):
        out = dict(sample)
        if 'a' in out and 'b' in out:
            out['z'] = g(out['a'], out['b'])
        return out
    p = bp.PriorDict({'a': Stub(*F['a'], name='a'), 'z': bp.Constraint(lo, hi, name='z'), 'b': Stub(*F['b'], name='b')},
                     conversion_function=conv)
    return p, g, F, lo, hi


@contract("P06", "PriorDict[constraints, scalar samples]", bound="two sampled keys, one constraint")
def _(c):
    p, g, F, lo, hi = constrained(c)
    s = {'b': c.real('b'), 'a': c.real('a')}
    z = g(s['a'], s['b'])
    r = 1.0
    if c.sym:
        r = ratio(c, p, ['b', 'a'])
    else:
        p._cached_normalizations[('b', 'a')] = r = c.pos('ratio')
    inside = (z > lo) & (z < hi)
    outside = (z < lo) | (z > hi)
    pr, ln, lu = p.prob(s), p.ln_prob(s), p.ln_prob(s, normalized=False)
    if bool(inside):
        w = F['a'][0](s['a'], 0.0) * F['b'][0](s['b'], 0.0)
        c.ensure_eq('prob-inside', pr, w * r)
        c.ensure_eq('ln_prob-inside', ln, np.log(w) + np.log(r))
        c.ensure_eq('unnormalised-ln_prob-inside', lu, np.log(w))
        c.ensure('constraint-satisfied', bool(p.evaluate_constraints(s)))
    elif bool(outside):
        c.ensure_eq('prob-zero-outside', pr, 0)
        c.ensure_eq('ln_prob-outside', ln, -INF)
        c.ensure_eq('unnormalised-ln_prob-outside', lu, -INF)
        c.ensure('constraint-violated', not bool(p.evaluate_constraints(s)))


@contract("P06", "PriorDict[constraints, arrays of samples]", bound="two sampled keys, one constraint")
def _(c):
    p, g, F, lo, hi = constrained(c)
    s = {'b': c.array('b'), 'a': c.array('a')}
    z = g(s['a'], s['b'])
    if c.sym:
        r = ratio(c, p, ['b', 'a'])
        c.split(z.elem > lo, z.elem < hi)
    else:
        p._cached_normalizations[('b', 'a')] = r = c.pos('ratio')
    pr, ln = p.prob(s, axis=0), p.ln_prob(s, axis=0)
    w = F['a'][0](s['a'], 0.0) * F['b'][0](s['b'], 0.0)
    if c.sym:
        z = z.elem
        if bool((z > lo) & (z < hi)):
            c.ensure_eq('prob-inside', pr, w * r)
            c.ensure_eq('ln_prob-inside', ln, np.log(w) + np.log(r))
        else:
            c.ensure_eq('prob-outside', pr, 0)
            c.ensure_eq('ln_prob-outside', ln, -INF)
    else:
        ins = (z > lo) & (z < hi)
        c.ensure_eq('prob-inside', pr[ins], (w * r)[ins])
        c.ensure_eq('ln_prob-inside', ln[ins], (np.log(w * r))[ins])
        c.ensure_eq('prob-outside', pr[~ins], 0 * pr[~ins])
        c.ensure('ln_prob-outside', np.all(np.isneginf(ln[~ins])))


@contract("P06", "PriorDict[out of support]", bound="two keys")
def _(c):
    F = {x: fns(c, x) for x in 'ab'}
    lo = c.real('lo')
    hi = c.real('hi', lo, open=True)
    p = unconstrained(c, bp.PriorDict({'a': Stub(*F['a'], name='a'), 'b': bp.Uniform(lo, hi, name='b')}))
    b = c.real('b')
    s = {'a': c.real('a'), 'b': b}
    w = F['a'][0](s['a'], 0.0) / (hi - lo)
    if bool((b >= lo) & (b <= hi)):
        c.ensure_eq('prob-in-support', p.prob(s), w)
        c.ensure_eq('ln_prob-in-support', p.ln_prob(s), np.log(w))
    else:
        c.ensure_eq('prob-zero-out-of-support', p.prob(s), 0)
        c.ensure_eq('ln_prob-out-of-support', p.ln_prob(s), -INF)


@contract("P06", "PriorDict.rescale", bound="1 to 3 keys")
def _(c):
    k = c.choice('n', [1, 2, 3])
    keys = KEYS[:k]
    F = {x: fns(c, x) for x in keys}
    p = unconstrained(c, bp.PriorDict({x: Stub(*F[x], name=x) for x in keys}))
    order = c.choice('order', list(itertools.permutations(keys)))
    th = [c.unit('u%d' % i) for i in range(k)]
    r = p.rescale(order, th)
    c.ensure('length', len(r) == k)
    c.ensure_eq('rescale-in-key-order', r, [F[x][1](t, 0.0) for x, t in zip(order, th)])


@contract("P06", "PriorDict[kinds of keys]", bound="3 keys of every kind")
def _(c):
    kinds = [c.choice('kind_' + x, ['free', 'fixed', 'number', 'constraint']) for x in KEYS]
    F = {x: fns(c, x) for x in KEYS}
    val = {x: c.real('v_' + x) for x in KEYS}
    mk = {'free': lambda x: Stub(*F[x], name=x), 'fixed': lambda x: bp.DeltaFunction(val[x]),
          'number': lambda x: val[x] if c.sym else float(val[x]), 'constraint': lambda x: bp.Constraint(-1, 1, name=x)}
    cls = c.choice('class', [bp.PriorDict, bp.ConditionalPriorDict])
    given = {x: mk[k](x) for x, k in zip(KEYS, kinds)}
    p = cls(given)
    c.ensure('keys', list(p) == KEYS)
    c.ensure('free-keys', p.non_fixed_keys == [x for x, k in zip(KEYS, kinds) if k == 'free'])
    c.ensure('fixed-keys', p.fixed_keys == [x for x, k in zip(KEYS, kinds) if k in ('fixed', 'number')])
    c.ensure('constraint-keys', p.constraint_keys == [x for x, k in zip(KEYS, kinds) if k == 'constraint'])
    for x, k in zip(KEYS, kinds):
        if k in ('fixed', 'number'):
            c.ensure_eq('fixed-value', p[x].peak, val[x])
            c.ensure_eq('fixed-rescale', p[x].rescale(c.unit('u', open=True)), val[x])
    q = p.copy()
    c.ensure('copy', list(q) == KEYS and q is not p and all(q[x] is p[x] for x in KEYS) and type(q) is cls)


# ----------------------------------------------------------------------------------------------- conditional priors
def cond_on(keys, h):
    ns = {'h': h}
    args = ', '.join(keys)
    exec("def f(reference_params, %s):\n    return dict(shift=h(%s))" % (args, args), ns)
    return ns['f']


GRAPHS = {'chain': {'a': [], 'b': ['a'], 'd': ['b']}, 'fork': {'a': [], 'b': ['a'], 'd': ['a']},
          'join': {'a': [], 'b': [], 'd': ['a', 'b']}, 'independent': {'a': [], 'b': [], 'd': []},
          'diamond': {'a': [], 'b': ['a'], 'd': ['b', 'a']}, 'backward': {'d': [], 'b': ['d'], 'a': ['b', 'd']}}


def build(c, graph, order):
    F = {x: fns(c, x) for x in KEYS}
    h = {x: c.func('cond_' + x, max(1, len(graph[x]))) for x in KEYS}

    def one(x):
        if graph[x]:
            return CondStub(condition_func=cond_on(graph[x], h[x]), name=x, dens=F[x][0], scale=F[x][1], dist=F[x][2])
        return Stub(*F[x], name=x)
    p = unconstrained(c, bp.ConditionalPriorDict({x: one(x) for x in order}))
    shift = {x: (lambda s, x=x: h[x](*[s[k] for k in graph[x]]) if graph[x] else 0.0) for x in KEYS}
    return p, F, shift, one


def resolve(graph, f):
    """values in an order in which every key comes after the keys it depends on"""
    out = {}
    while len(out) < len(graph):
        for x in graph:
            if x not in out and all(k in out for k in graph[x]):
                out[x] = f(x, out)
    return out


def check_dict(c, tag, p, F, shift, graph, order, i):
    s = {x: c.real('%s%d' % (x, i)) for x in order}
    d = [F[x][0](s[x], shift[x](s)) for x in KEYS]
    c.ensure_eq(tag + 'prob-is-the-product-of-conditionals', p.prob(s), prod(d))
    c.ensure_eq(tag + 'ln_prob-is-the-sum-of-conditionals', p.ln_prob(s), sum(np.log(x) for x in d))
    q = p.cdf(s)
    c.ensure_eq(tag + 'conditional-cdf', [q[x] for x in KEYS], [F[x][2](s[x], shift[x](s)) for x in KEYS])


def check_rescale(c, tag, p, F, shift, graph, order, i):
    u = {x: c.unit('u_%s%d' % (x, i)) for x in order}
    want = resolve(graph, lambda x, out: F[x][1](u[x], shift[x](out)))
    r = p.rescale(list(order), [u[x] for x in order])
    c.ensure_eq(tag + 'rescale-through-the-conditionals', r, [want[x] for x in order])


@contract("P06", "ConditionalPriorDict[prob, cdf, rescale]", bound="three keys: all dependency shapes and orders",
          samples=60)
def _(c):
    graph = GRAPHS[c.choice('graph', sorted(GRAPHS))]
    perms = list(itertools.permutations(KEYS))
    p, F, shift, one = build(c, graph, c.choice('dict order', perms))
    order = c.choice('sample order', perms)
    check_dict(c, '', p, F, shift, graph, order, 1)
    check_rescale(c, '', p, F, shift, graph, order, 2)


@contract("P06", "ConditionalPriorDict[history of calls]", bound="three keys, two calls in any key order", samples=60)
def _(c):
    graph = GRAPHS[c.choice('graph', ['chain', 'diamond', 'backward'])]
    perms = list(itertools.permutations(KEYS))
    p, F, shift, one = build(c, graph, KEYS)
    order = c.choice('first order', perms)
    order2 = c.choice('second order', perms)
    check_rescale(c, 'first-', p, F, shift, graph, order, 1)
    check_dict(c, 'then-', p, F, shift, graph, order2, 2)
    check_rescale(c, 'second-', p, F, shift, graph, order2, 3)


@contract("P06", "ConditionalPriorDict[redefined key]", bound="three keys, one change of the dependencies", samples=60)
def _(c):
    g1 = {'a': [], 'b': ['a'], 'd': []}
    g2 = {'a': ['b'], 'b': [], 'd': []}
    perms = list(itertools.permutations(KEYS))
    p, F, shift, one = build(c, g1, KEYS)
    order = c.choice('order', perms)
    check_rescale(c, 'before-', p, F, shift, g1, order, 1)
    q, F2, shift2, one2 = build(c, g2, KEYS)
    for x in c.choice('assignment order', ['ab', 'ba']):
        p[x] = one2(x)
    check_rescale(c, 'after-', p, F, shift2, g2, order, 2)
    check_dict(c, 'after-', p, F, shift2, g2, order, 3)


@contract("P06", "ConditionalPriorDict[fixed keys in conditions]", bound="three keys")
def _(c):
    F = {x: fns(c, x) for x in KEYS}
    h = c.func('h', 2)
    v = c.real('v')
    cond = CondStub(condition_func=cond_on(['a', 'b'], h), name='d', dens=F['d'][0], scale=F['d'][1], dist=F['d'][2])
    items = {'a': bp.DeltaFunction(v), 'b': Stub(*F['b'], name='b'), 'd': cond}
    p = unconstrained(c, bp.ConditionalPriorDict({x: items[x] for x in
                                                  c.choice('order', list(itertools.permutations(KEYS)))}))
    u = c.unit('ub'), c.unit('ud')
    b = F['b'][1](u[0], 0.0)
    c.ensure('free-keys', sorted(p.non_fixed_keys) == ['b', 'd'])
    c.ensure_eq('rescale', p.rescale(['b', 'd'], u), [b, F['d'][1](u[1], h(v, b))])
    s = {'d': c.real('d'), 'b': c.real('b')}
    c.ensure_eq('prob', p.prob(s), F['b'][0](s['b'], 0.0) * F['d'][0](s['d'], h(v, s['b'])))


class Rng(object):
    """every draw of a uniform variate is an arbitrary number in the unit interval"""

    def __init__(self, c):
        self.c = c
        self.draws = []

    def uniform(self, lo=0, hi=1, size=None):
        u = self.c.unit('draw%d' % len(self.draws)) if size is None else self.c.array('draw%d' % len(self.draws), 0, 1)
        self.draws.append(u)
        return u


@contract("P06", "sample", bound="three keys, every dependency shape and order", samples=60)
def _(c):
    graph = GRAPHS[c.choice('graph', sorted(GRAPHS))]
    order = c.choice('dict order', list(itertools.permutations(KEYS)))
    p, F, shift, one = build(c, graph, order)
    rng = Rng(c)
    c.setattr(brandom, 'rng', rng)
    s = p.sample()
    c.ensure('keys', set(s) == set(KEYS))
    c.ensure('one-draw-for-each-key', len(rng.draws) == 3)
    if len(rng.draws) == 3:
        perms = itertools.permutations(range(3))
        ok = False
        for pm in perms:
            ok = c.either(ok, c.both(*[c.both(s[x] == F[x][1](rng.draws[i], shift[x](s))) for x, i in zip(KEYS, pm)]))
        c.ensure('draws-through-rescale-with-the-sampled-conditions', ok)


@contract("P06", "sample[constraints]", bound="two keys, one constraint, up to three attempts", samples=60)
def _(c):
    p, g, F, lo, hi = constrained(c)
    rng = Rng(c)
    c.setattr(brandom, 'rng', rng)
    count = [0]
    real = p.evaluate_constraints

    def limited(s):
        r = real(s)
        count[0] += 1
        if count[0] >= 3:
            c.assume(r)
        return r
    c.setattr(p, 'evaluate_constraints', limited)
    s = p.sample()
    c.ensure('keys', set(s) == {'a', 'b'})
    z = g(s['a'], s['b'])
    c.ensure('sample-satisfies-the-constraint', (z > lo) & (z < hi))


@contract("P06", "unresolvable conditions", bound="two and three keys")
def _(c):
    F = {x: fns(c, x) for x in KEYS}
    h = c.func('h', 1)
    cyc = c.choice('shape', ['cycle', 'self', 'missing'])
    dep = {'cycle': {'a': ['b'], 'b': ['a']}, 'self': {'a': ['a'], 'b': []}, 'missing': {'a': ['x'], 'b': []}}[cyc]
    items = {}
    for x in 'ab':
        items[x] = CondStub(condition_func=cond_on(dep[x], h), name=x, dens=F[x][0], scale=F[x][1], dist=F[x][2]) \
            if dep[x] else Stub(*F[x], name=x)
    p = unconstrained(c, bp.ConditionalPriorDict(items))
    err = pd.IllegalConditionsException
    s = {'a': c.real('a'), 'b': c.real('b')}
    c.ensure('prob-raises', c.raises(err, p.prob, s))
    c.ensure('ln_prob-raises', c.raises(err, p.ln_prob, s))
    c.ensure('cdf-raises', c.raises(err, p.cdf, s))
    c.ensure('rescale-raises', c.raises(err, p.rescale, ['a', 'b'], [0.5, 0.5]))
    c.ensure('sample-raises', c.raises(err, p.sample_subset, ['a', 'b']))
    if cyc == 'missing':
        p['x'] = Stub(*F['d'], name='x')
        s['x'] = c.real('x')
        c.ensure_eq('resolved-after-the-key-is-added', p.prob(s),
                    F['a'][0](s['a'], h(s['x'])) * F['b'][0](s['b'], 0.0) * F['d'][0](s['x'], 0.0))
        del p['x']
        del s['x']
        c.ensure('raises-after-the-key-is-removed', c.raises(err, p.prob, s))


@contract("P06", "normalisation estimate", bound="chunks of 2 to 5 samples, up to three chunks", samples=200, max_paths=1000)
def _(c):
    chunk = c.choice('chunk', [2, 3, 5])
    p = bp.PriorDict({'a': bp.Uniform(0, 1, name='a')})
    pats = [[c.boolean('keep%d%d' % (i, j)) for j in range(chunk)] for i in range(4)]
    pats = [[bool(x) for x in r] for r in pats] if not c.sym else \
        [(lambda m: [(i + j) % m == 0 for j in range(chunk)])(c.choice('mod%d' % i, [1, 2, 3])) for i in range(4)]
    drawn = []

    def draw(keys, size=None):
        i = len(drawn)
        drawn.append(i)
        if i >= 4:
            c.assume(False)
        return {'a': np.array([100.0 * i + j for j in range(chunk)])}
    p.sample_subset = draw
    p.evaluate_constraints = lambda s: np.array([pats[int(v // 100)][int(v % 100)] for v in np.asarray(s['a'], float)])
    want = c.choice('min_accept', [1, 2, 4])
    f = p._estimate_normalization(('a',), want, chunk)
    first = sum(pats[0])
    if first >= want:
        exp = chunk / first
    else:
        tot, acc = 0, 0
        for i in range(1, len(drawn)):
            tot += chunk
            acc += sum(pats[i])
        exp = tot / acc
    c.ensure_eq('one-over-the-accepted-fraction', f, exp)
    c.ensure('factor-at-least-one', f >= 1)


@contract("P06", "copies", bound="two keys, one constraint")
def _(c):
    hi, x, y = c.real('hi'), c.real('x'), c.real('y')
    F = {k: fns(c, k) for k in 'ab'}
    calls = []

    def conversion(p):
        calls.append(1)
        p = dict(p)
        p['sum'] = p['a'] + p['b']
        return p
    cls = c.choice('class', [bp.PriorDict, bp.ConditionalPriorDict])
    given = c.choice('conversion', [True, False])
    p = cls({**{k: Stub(*F[k], name=k) for k in 'ab'}, **(dict(sum=bp.Constraint(hi - 1, hi, 'sum')) if given else {})},
            conversion_function=conversion if given else None)
    q = p.copy()
    c.ensure('type', type(q) is cls and q is not p)
    c.ensure('priors', list(q) == list(p) and all(q[k] is p[k] for k in p))
    s = dict(a=x, b=y)
    inside = not given or (bool(x + y > hi - 1) and bool(x + y < hi))
    c.ensure('constraint', bool(np.all(q.evaluate_constraints(dict(s)))) == inside)
    c.ensure('conversion', q.conversion_function(dict(s)) == p.conversion_function(dict(s)) if not given else len(calls) > 0)
    q['c'] = bp.Uniform(0, 1, 'c')
    c.ensure('independent', 'c' not in p)
