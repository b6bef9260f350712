"""Scenario generators: one simulated run = f(property, seed, run number, tier). Swarm style: every run picks its own
sizes, workload mix, enabled faults and rates."""
import random

REAL_ALL = 'all of core/src/main/cpp and binding/src/main/cpp/py_*.h, unmodified, as one process'


def mode(r):
    """rendering of symbols; from 12 on, words are long"""
    return r.randrange(12) if r.random() < 0.93 else r.randrange(12, 24)


class W:
    """what one run's data looks like"""

    def __init__(self, r, kind, amax=None, reach=False):
        lim = 36 if kind in ('SS', 'SV') else 300 if kind in ('SW', 'SX') else 300
        if amax:
            lim = min(lim, amax)
        a = r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 8, 12, 20, 35, 60, 120] if not reach else [2, 3, 3, 4, 4, 5, 6, 8, 10])
        self.A = min(a, lim)
        self.lim = lim
        self.kind = kind
        self.src = r.choice(['w', 'w', 'w', 'm', 'm', 'z', 'u', 'c', 'k'] if not reach else ['w', 'w', 'w', 'm', 'c', 'z'])
        self.K = r.choice([2, 3, 5, 8, 15])
        self.L = r.choice([2, 3, 4, 6])
        self.ws = r.randrange(1, 10000)
        self.len = r.choice([1, 3, 8, 15, 25, 40])
        self.emp = r.choice([0, 0, 0, 5, 12])
        self.noise = r.choice([0, 1]) if kind in ('SS', 'SV', 'SW', 'SX') else 0

    def data(self, r, n, ln=None, fresh=0.15, **kw):
        d = {'src': self.src, 'A': self.A, 'n': n, 'len': ln or self.len, 'seed': r.randrange(1, 1 << 30)}
        if self.src in 'wd':
            d.update(K=self.K, L=self.L)
        if self.src in 'wm':
            d['ws'] = self.ws
        if self.emp:
            d['emp'] = self.emp
        if self.noise:
            d['noise'] = r.randrange(1, 1 << 20)
        x = r.random()
        if x < fresh:      # symbols nobody has seen yet
            k = r.random()
            if k < 0.4:
                d['o'] = r.randrange(1, self.lim)
            elif k < 0.7:
                d['A'] = min(self.lim, self.A + r.choice([1, 2, 5, 40]))
            else:
                d['src'] = r.choice('umzck')
        elif fresh and x < fresh + 0.05:
            d['g'] = 1
        d.update(kw)
        return d


KINDS = ['IS', 'IS', 'IV', 'IV', 'SS', 'SW', 'SV', 'SX']
STREAM = ['IS', 'IS', 'IV', 'SS', 'SW']
FITS = ['IV', 'IV', 'SV', 'SX']


def size_for(r, A):
    return max(0, r.choice([0, 1, A // 2, A - 1, A, A + 1, A + 2, A + 5, 2 * A + 3, 4 * A + 10, 100, 500, 5000]))


def new_model(r, m, kind, w, size=None, iters=None):
    iters = r.choice([1, 1, 1, 1, 2, 3, 0]) if iters is None else iters
    return ('new', {'m': m, 'kind': kind, 'size': size_for(r, w.A) if size is None else size, 'iters': iters,
                    'verb': r.choice([0, 0, 0, 1, 2]), 'mode': mode(r)})


def craft_model(r, m, kind, w, size=None, fitted=None, minp=None, ents=None):
    A = w.A
    ents = r.choice([0, 2, 5, 10, 20]) if ents is None else ents
    size = r.choice([A + ents, A + ents + 1, A + ents + 5, 2 * (A + ents) + 4, 200, 1000]) if size is None else size
    minp = r.choice([0.5, 0.2, 0.1, 0.05, 0.03, 0.01]) if minp is None else minp
    return ('craft', {'m': m, 'kind': kind, 'size': size, 'A': A, 'ents': ents, 'minp': minp, 'seed': r.randrange(1, 1 << 20),
                      'mode': mode(r), 'fitted': int(r.random() < 0.5) if fitted is None else int(fitted), 'iters': r.choice([1, 1, 1, 2, 2, 0]),
                      'fscale': r.choice([1, 1, 1, 1, 1000, 100000, 3000000, 30000000])})


def rand_policy(r, d):
    d['rs'] = r.randrange(1, 1 << 20)
    p = r.choice(['u', 'u', 'u', 'c', 'r', 's', 's', 't', 'z', 'x', 'a'])
    if p != 'u':
        d['rp'] = p
        d['rq'] = r.randrange(0, 50)
    return d


def fit_op(r, m, w, n=None, intr=0.0, iters=1, **kw):
    n = r.choice([0, 1, 2, 5, 10, 25, 60]) if n is None else n
    d = w.data(r, n, fresh=0.1)
    d['m'] = m
    rand_policy(r, d)
    if r.random() < intr:
        total = iters * n + n + 1
        d['f.intr'] = r.choice([1, max(1, n), r.randrange(1, total + 1), r.randrange(1, total + 1), iters * n + 1, max(1, total - 1), max(1, iters * n)])
    d.update(kw)
    return ('fit', d)


def burst(r, tier, long=False):
    """number of sequences of one training step"""
    c = [1, 2, 5, 10, 20, 40, 80]
    if long:
        c += [150, 300, 300]
    if tier == 'thorough':
        c += [150, 400]
    return r.choice(c)


def look_op(r, m, w, what=None, f=None):
    what = what or r.choice(['parse', 'parse', 'parse', 'snap', 'save'])
    d = {'m': m, 'what': what}
    if what == 'parse':
        d.update(w.data(r, r.choice([1, 2, 4]), fresh=0.3))
        d['m'] = m
        d['how'] = r.randrange(3)
    elif f:
        d['f'] = f
    return ('look', d)


def long_look(r, m, w):
    """one sequence of thousands of symbols"""
    d = w.data(r, 1, r.choice([600, 1500, 3000, 5000]), fresh=0.1)
    d.update(m=m, what='parse', fix=1, emp=0, how=r.randrange(3))
    return ('look', d)


def huge_look(r, m, w):
    """one sequence of more symbols than 15 or 16 bits can count"""
    d = w.data(r, 1, r.choice([33000, 34500, 40000, 66000]), fresh=0.1)
    d.update(m=m, what='parse', fix=1, emp=0, how=r.randrange(3))
    return ('look', d)


def near_ties(r, m):
    """a model whose sequences are nearly as likely as their symbols, and long texts made of them"""
    w = W(r, r.choice(KINDS), amax=6)
    w.A = max(2, w.A)
    op = craft_model(r, m, w.kind, w, ents=r.choice([2, 5, 10]))
    op[1].update(tie=r.choice([4, 5, 5, 6]), elen=r.choice([2, 2, 3, 4]))
    ops = [op]
    for _ in range(r.choice([1, 2, 3])):
        d = w.data(r, 1, r.choice([600, 1500, 3000]), fresh=0)
        d.update(m=m, what='parse', fix=1, emp=0, how=r.randrange(3), ent=r.randrange(1, 1 << 20))
        ops.append(('look', d))
    return ops


def huge_alphabet(r, ends):
    """thousands of symbols, then text about the last of them"""
    A = r.choice([2100, 4200, 5000, 9000])
    kind = r.choice(['IS', 'IV'])
    ops = [('new', {'m': 0, 'kind': kind, 'size': A + r.choice([20, 1000, 4000]), 'verb': 0, 'mode': mode(r), 'iters': 1}),
           ('train', dict(m=0, src='c', A=A, seed=r.randrange(1, 1 << 20), **r.choice([dict(n=1, len=A, fix=1), dict(n=A // 2, len=8)])))]
    L = r.choice([2, 3, 4])
    K = r.choice([2, 3, 6])
    o = r.choice([0, A // 2, A - K * L])
    for _ in range(r.choice([1, 2, 3])):
        ops.append(('train', dict(m=0, src='d', K=K, L=L, A=K * L, o=o, n=200, len=r.choice([25, 40]), fix=1, seed=r.randrange(1, 1 << 20))))
        ops.append(('upd', {'m': 0}))
    for e in ends:
        if e == 'reload':
            ops.append(('reload', {'m': 0}))
        else:
            ops.append(('look', dict(m=0, what='parse', src='d', K=K, L=L, A=K * L, o=o, n=3, len=30, seed=r.randrange(1, 1 << 20), how=r.randrange(3))))
    return ops


def long_train(r, m, w):
    d = w.data(r, r.choice([1, 2]), r.choice([300, 600, 1200, 2500]), fresh=0.1)
    d.update(m=m, fix=1, emp=0)
    return ('train', d)


def step_by_step(r, m, w):
    """an update after every sequence"""
    ops = []
    for _ in range(r.choice([5, 12, 30])):
        d = w.data(r, 1, fresh=0.02)
        d['m'] = m
        ops += [('train', d), ('upd', {'m': m})]
    return ops


def life(r, tier, m, w, n_ops, kind, mix, long=False, intr=0.0, iters=1, **kw):
    """a history of one model. mix: weights of operations"""
    ops = []
    stream = kind in ('IS', 'IV', 'SS', 'SW')
    names = [k for k in mix if not (k in ('train', 'upd') and not stream) and not (k == 'fit' and kind not in ('IV', 'SV', 'SX'))]
    if not stream and 'fit' not in names:
        names.append('fit')
    weights = [mix.get(k, 1) for k in names]
    for _ in range(n_ops):
        x = r.choices(names, weights)[0]
        if x == 'train':
            d = w.data(r, burst(r, tier, long))
            d['m'] = m
            ops.append(('train', d))
        elif x == 'upd':
            ops.append(('upd', {'m': m}))
        elif x == 'fit':
            ops.append(fit_op(r, m, w, intr=intr, iters=iters))
        elif x == 'reload':
            ops.append(('reload', {'m': m, 'f': 'model%d.json' % r.randrange(2)}))
        elif x == 'look':
            ops.append(look_op(r, m, w))
        elif x == 'parse':
            ops.append(look_op(r, m, w, 'parse'))
    return ops


def start(r, kinds, craft_p, amax=None, reach=False, m=0, size=None, fitted=None):
    kind = r.choice(kinds)
    w = W(r, kind, amax, reach)
    if r.random() < craft_p:
        return kind, w, craft_model(r, m, kind, w, size, fitted)
    return kind, w, new_model(r, m, kind, w, size)


MIX = {'train': 5, 'upd': 3, 'look': 3, 'reload': 0.7, 'fit': 1}


def mixed(r, base):
    m = dict(base)
    for k in m:
        m[k] *= r.choice([0.3, 1, 1, 2])
    return m


def g_c01(r, tier):
    if r.random() < 0.003:
        return huge_alphabet(r, ['look'])
    kind, w, op = start(r, KINDS, 0.6)
    long = r.random() < 0.15
    ops = [op] + life(r, tier, 0, w, r.randrange(3, 14), kind, mixed(r, MIX), long, intr=0.3)
    if r.random() < 0.04:
        ops.append(long_look(r, 0, w))
    elif r.random() < 0.0005:
        ops.append(huge_look(r, 0, w))
    return ops


def g_c02(r, tier):
    if r.random() < 0.03:
        return near_ties(r, 0)
    kind, w, op = start(r, KINDS, 0.7, reach=r.random() < 0.8)
    long = r.random() < 0.2
    mix = mixed(r, {'train': 5, 'upd': 3, 'parse': 4, 'reload': 0.7, 'fit': 2})
    return [op] + life(r, tier, 0, w, r.randrange(3, 12), kind, mix, long, intr=0.2) + [long_look(r, 0, w) if r.random() < 0.04 else look_op(r, 0, w, 'parse')]


def g_c03(r, tier):
    if r.random() < 0.003:
        return huge_alphabet(r, ['reload', 'look'])
    kind, w, op = start(r, KINDS, 0.5)
    long = r.random() < 0.15
    return [op] + life(r, tier, 0, w, r.randrange(2, 14), kind, mixed(r, dict(MIX, look=4, reload=1.5)), long, intr=0.4)


def g_c04(r, tier):
    kind, w, op = start(r, KINDS, 0.5)
    mix = mixed(r, dict(MIX, look=6))
    ops = [op] + life(r, tier, 0, w, r.randrange(4, 16), kind, mix, r.random() < 0.1, intr=0.2) + [('upd', {'m': 0})]
    for i in range(len(ops) - 1, -1, -1):      # an update again, at once or after some reads
        if ops[i][0] == 'upd' and r.random() < 0.3:
            j = i + 1
            while j < len(ops) and ops[j][0] == 'look' and r.random() < 0.7:
                j += 1
            ops.insert(j, ('upd', {'m': 0}))
    return ops + [('dump', {'m': 0})]


def g_c05(r, tier):
    if r.random() < 0.003:
        return huge_alphabet(r, ['reload'])
    kind, w, op = start(r, KINDS, 0.6, reach=r.random() < 0.6)
    mix = mixed(r, {'train': 5, 'upd': 3, 'look': 1, 'reload': 0.5, 'fit': 1.5})
    ops = [op] + life(r, tier, 0, w, r.randrange(3, 16), kind, mix, r.random() < 0.3, intr=0.2)
    if kind in STREAM and r.random() < 0.15:
        ops += step_by_step(r, 0, w)
    if kind in STREAM and r.random() < 0.03:
        ops += [long_train(r, 0, w), ('upd', {'m': 0})]
    if kind in STREAM and r.random() < 0.0004:
        d = huge_look(r, 0, w)[1]
        del d['what'], d['how']
        ops += [('train', d), ('upd', {'m': 0})]
    return ops


def g_c06(r, tier):
    kind, w, op = start(r, FITS, 0.25, fitted=False)
    ops = [op]
    iters = int(op[1]['iters'])
    for _ in range(r.choice([0, 0, 1, 2])):
        if kind == 'IV':
            d = w.data(r, burst(r, tier))
            d['m'] = 0
            ops.append(('train', d))
            if r.random() < 0.5:
                ops.append(('upd', {'m': 0}))
    w2 = w
    ops.append(fit_op(r, 0, w2, n=r.choice([1, 2, 3, 5, 10, 30, 80, 200]), iters=iters))
    if r.random() < 0.3:
        ops[-1][1]['g'] = 1       # later documents bring symbols of their own
    for _ in range(r.choice([0, 1, 2, 3])):
        x = r.random()
        if x < 0.5:
            ops.append(fit_op(r, 0, w))
        elif x < 0.75:
            ops.append(('reload', {'m': 0}))
        else:
            ops.append(look_op(r, 0, w))
    return ops


def g_c07(r, tier):
    if r.random() < 0.1:
        return fit_progress(r, r.choice([1, 1, 2, 3]))
    kind = r.choice(FITS)
    w = W(r, kind)
    iters = r.choice([1, 1, 2, 3])
    n = r.choice([1, 2, 5, 10, 25, 60, 120])
    ops = [new_model(r, 0, kind, w, iters=iters)]
    same = r.random() < 0.5
    first = fit_op(r, 0, w, n=n, intr=1.0, iters=iters)
    ops.append(first)
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        x = r.random()
        if x < 0.45:
            f = fit_op(r, 0, w, n=n, intr=1.0, iters=iters)
            if same:
                f = ('fit', dict(first[1], **{k: v for k, v in f[1].items() if k in ('rs', 'rp', 'rq', 'f.intr')}))
            ops.append(f)
        elif x < 0.6:
            ops.append(('reload', {'m': 0}))
        elif x < 0.75:
            ops.append(look_op(r, 0, w))
        elif kind == 'IV':
            d = w.data(r, burst(r, tier))
            d['m'] = 0
            ops.append(('train', d))
            if r.random() < 0.5:
                ops.append(('upd', {'m': 0}))
    if r.random() < 0.25:
        ops.append(('reload', {'m': 0}))
    f = fit_op(r, 0, w, n=n, intr=0.0, iters=iters)
    if same:
        f = ('fit', {k: v for k, v in first[1].items() if k != 'f.intr'})
    ops.append(f)
    if r.random() < 0.4:
        ops.append(fit_op(r, 0, w, intr=0.5))
    if r.random() < 0.3:
        ops.append(('reload', {'m': 0}))
        ops.append(fit_op(r, 0, w))
    return ops


def g_c08(r, tier):
    if r.random() < 0.003:
        return huge_alphabet(r, ['reload', 'look'])
    kind, w, op = start(r, KINDS, 0.4)
    ops = [op]
    for _ in range(r.randrange(1, 4)):
        ops += life(r, tier, 0, w, r.randrange(0, 6), kind, mixed(r, {'train': 4, 'upd': 2, 'reload': 1, 'fit': 1.5}), r.random() < 0.15, intr=0.3)
        d = {'m': 0, 'f': 'm%d.json' % r.randrange(2)}
        if r.random() < 0.4:
            d['pre'] = r.choice([1, 50, 400, 5000, 60000])
            if r.random() < 0.5:
                d['prek'] = 'json'
        ops.append(('fidelity', d))
    return ops


def g_c09(r, tier):
    kind, w, op = start(r, KINDS, 0.6)
    ops = [op] + life(r, tier, 0, w, r.randrange(0, 5), kind, {'train': 4, 'upd': 3, 'fit': 2}, r.random() < 0.15)
    for _ in range(r.randrange(1, 6)):
        d = {'m': 0, 'f': 'm%d.json' % r.randrange(2), 'f.seed': r.randrange(1, 1000)}
        x = r.random()
        if r.random() < 0.1:
            d['target'] = r.choice(['dir', 'nodir', 'dangling', 'long', 'link', 'link'])
            x += 0.3
        if r.random() < 0.1:
            d['f.rename'] = r.choice(['EACCES', 'ENOSPC', 'EIO', 'EROFS'])
        if x < 0.15:
            d['f.open'] = r.choice(['EACCES', 'EMFILE', 'ENOSPC', 'EROFS', 'ENOENT'])
        elif x < 0.75:
            d['f.werr'] = r.choice(['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG'])
            y = r.random()
            if y < 0.5:
                d['f.wpct'] = r.randrange(0, 1000)
            elif y < 0.75:
                d['f.wpct'] = r.choice([0, 990, 995, 999])
            else:
                d['f.wat'] = r.choice([0, 1, 2, 10, 100, 4095, 4096, 8190, 8191, 8192])
            if r.random() < 0.4:
                d['f.wn'] = r.choice([1, 1, 2, 5])
        elif x < 0.88:
            d['f.close'] = r.choice(['EIO', 'ENOSPC', 'EDQUOT'])
        if r.random() < 0.4:
            d['f.wchunk'] = r.choice([1, 3, 7, 100, 1000, 4096])
        if r.random() < 0.3:
            d['f.weintr'] = r.choice([1, 2, 3])
        ops.append(('fsave', d))
        if r.random() < 0.25:
            ops += life(r, tier, 0, w, r.randrange(0, 2), kind, {'train': 4, 'upd': 3, 'fit': 2})
    return ops


def g_c10(r, tier):
    kind, w, op = start(r, KINDS, 0.6)
    ops = [op] + life(r, tier, 0, w, r.randrange(0, 5), kind, {'train': 4, 'upd': 3, 'fit': 2}, r.random() < 0.15)
    for _ in range(r.randrange(1, 7)):
        d = {'m': 0, 'f': 'm%d.json' % r.randrange(2)}
        d['how'] = r.choice(['prefix', 'prefix', 'prefix', 'crash', 'crash', 'missing', 'empty', 'zeros', 'cutzeros', 'reorder', 'none', 'none', r.choice(['missing', 'isdir']), 'member', 'kind'])
        if d['how'] in ('prefix', 'crash', 'cutzeros'):
            if r.random() < 0.45:
                d['back'] = r.choice([0, 1, 1, 2, 3, 4, 5, 8, 12, 16, 24, 40, r.randrange(1, 200)])
            else:
                d['at'] = r.randrange(0, 1000)
        if d['how'] in ('zeros', 'cutzeros'):
            d['bs'] = r.choice([1, 8, 64, 512, 4096])
            d['p'] = r.choice([0.01, 0.1, 0.3, 0.9])
        if d['how'] == 'member':
            d['at'] = r.randrange(0, 1000)
        if d['how'] in ('zeros', 'cutzeros', 'crash', 'reorder', 'member', 'kind'):
            d['seed'] = r.randrange(1, 10000)
        if d['how'] == 'crash' and r.random() < 0.5:
            d['f.wchunk'] = r.choice([1, 10, 512])
        if r.random() < (0.8 if d['how'] == 'none' else 0.15):
            d['f.rerr'] = r.choice(['EIO', 'EIO', 'EACCES'])
            d['f.rpct'] = r.choice([0, 999, 1000, r.randrange(0, 1000)])
            if r.random() < 0.4:       # only the n-th time the file is opened
                d['f.ropen'] = r.choice([1, 2, 2])
        if r.random() < 0.3:
            d['f.rchunk'] = r.choice([1, 13, 512])
        if r.random() < 0.2:
            d['f.reintr'] = r.choice([1, 2, 3])
        if d['how'] == 'none' and r.random() < 0.1:
            d['f.open'] = r.choice(['EACCES', 'EMFILE', 'ENOENT'])
            d['f.openn'] = r.choice([1, 1, 2])
        ops.append(('tear', d))
    return ops


def g_c11(r, tier):
    M = r.choice([1, 2, 3, 4]) if r.random() < 0.95 else r.choice([8, 12])
    ops, ws, kinds = [], [], []
    for m in range(M):
        kind, w, op = start(r, KINDS, 0.6, m=m)
        op[1]['m'] = m
        ops.append(op)
        ws.append(w)
        kinds.append(kind)
    for _ in range(r.randrange(3, 16)):
        m = r.randrange(M)
        ops += life(r, tier, m, ws[m], 1, kinds[m], mixed(r, MIX), r.random() < 0.1, intr=0.2)
        if ops[-1][0] == 'reload':
            ops[-1][1]['f'] = 'model_%d.json' % m
        if m > 0 and r.random() < 0.05:
            ops.append(('drop', {'m': m}))
    if M > 1 and r.random() < 0.4:
        d = ws[0].data(r, r.choice([3, 10, 30]))
        d.update(m=0, threads=M, sseed=r.randrange(1, 1 << 20), mean=r.choice([2, 10, 100, 1000]))
        if r.random() < 0.4:
            d['files'] = 1
        ops.append(('trainers', schedule(r, d)))
    ops.append(('dump', {'m': 0}))
    return ops


def schedule(r, d):
    """beside switches at a steady rate: bursts of them, and a thread that is held up at some point while the others go on"""
    x = r.random()
    if x < 0.25:
        d['mean2'] = r.choice([1, 5, 1000, 10000])
    elif x < 0.6:
        d['stall'] = int(2 ** r.uniform(0, 12))
        if r.random() < 0.6:
            d['mean'] = 100000
    return d


def g_c12(r, tier):
    kind, w, op = start(r, KINDS, 0.6)
    weights = {'train': 4, 'upd': 3, 'fit': 2, 'reload': 0.5}
    ops = [op] + life(r, tier, 0, w, r.randrange(0, 6), kind, weights, r.random() < 0.15)
    other = r.random() < 0.3
    if other:               # some of the threads read another model, of another age
        k2, w2, op2 = start(r, KINDS if r.random() < 0.5 else [kind], 0.6)
        op2[1]['m'] = 1
        ops += [op2] + life(r, tier, 1, w2, r.randrange(0, 4), k2, weights, False)
        if r.random() < 0.6:
            ops.append(('upd', {'m': 1}))
    if r.random() < 0.5:    # published, and not read since
        if r.random() < 0.5:
            d = w.data(r, burst(r, tier))
            d['m'] = 0
            ops.append(('train', d))
        ops.append(('upd', {'m': 0}))
    elif r.random() < 0.7:  # not published yet
        d = w.data(r, burst(r, tier))
        d['m'] = 0
        ops.append(('train', d))
    for i in range(r.choice([1, 1, 2])):
        if i and r.random() < 0.5:
            ops.append(('upd', {'m': 0}))
        ops.append(('readers', {'m': 0, 'threads': r.choice([2, 2, 3, 4, 6]), 'per': r.choice([1, 2, 4, 8]), 'seed': r.randrange(1, 1 << 20),
                                'same': r.randrange(2), 'saves': r.randrange(2), 'sseed': r.randrange(1, 1 << 20), 'mean': r.choice([1, 3, 10, 50, 300, 2000])}))
        if other:
            ops[-1][1]['m2' if r.random() < 0.7 else 'busy'] = 1
        schedule(r, ops[-1][1])
    ops += [('upd', {'m': 0}), ('dump', {'m': 0})]
    return ops


def oom_at(r, big):
    return r.choice([1, 2, 3, r.randrange(1, 12), r.randrange(1, 60), r.randrange(1, big), r.randrange(1, big)])


def g_c13_dict(r, tier):
    """the dictionary on its own"""
    ops = g_c20(r, tier)
    for n, d in ops:
        d.pop('clone', None)
        if r.random() < 0.7:
            d['f.oom'] = oom_at(r, 200 if n == 'dinit' else 30)
            if r.random() < 0.2:
                d['f.oomn'] = r.choice([2, 5])
    return ops


def g_c13_new_symbols(r, tier):
    """few allocations per operation, each of them worth failing"""
    kind = r.choice(['IS', 'IV', 'SS', 'SW'])
    w = W(r, kind, 8)
    ops = [craft_model(r, 0, kind, w, ents=r.choice([0, 2, 5])) if r.random() < 0.6 else new_model(r, 0, kind, w)]
    for i in range(r.randrange(2, 10)):
        d = {'m': 0, 'src': 'u', 'A': r.choice([1, 2, 4]), 'n': 1, 'len': r.choice([1, 2, 4]), 'o': r.randrange(30), 'seed': r.randrange(1, 1 << 20)}
        d.update({'f.oom': r.randrange(1, 50), 'f.at': 0})
        if r.random() < 0.3:
            d['f.oomn'] = r.choice([2, 3])
        if r.random() < 0.3:
            d['f.mid'] = 1
        if r.random() < 0.3:
            d['f.skip'] = 1
        ops.append(('train', d))
        if r.random() < 0.3:
            ops.append(('upd', {'m': 0, 'f.oom': r.randrange(1, 60)} if r.random() < 0.5 else {'m': 0}))
    return ops + [('upd', {'m': 0})]


def g_c13(r, tier):
    x = r.random()
    if x < 0.1:
        return g_c13_dict(r, tier)
    if x < 0.25:
        return g_c13_new_symbols(r, tier)
    kind, w, op = start(r, KINDS, 0.6)
    if r.random() < 0.7:
        w.len = min(w.len, 15)
    ops = [op]

    def oom(d, big):
        d['f.oom'] = oom_at(r, big)
        if r.random() < 0.3:
            d['f.oomn'] = r.choice([2, 5, 50])
        if r.random() < 0.15:
            d['f.ooms'] = r.choice([64, 256, 1024])
        return d
    for _ in range(r.randrange(2, 12)):
        l = life(r, tier, 0, w, 1, kind, mixed(r, dict(MIX, reload=1)), r.random() < 0.05, intr=0.1)
        if not l:
            continue
        name, d = l[0]
        if name == 'fit':
            d.pop('f.intr', None)
        if r.random() < 0.6:
            if name == 'train':
                oom(d, 400)
                d['f.at'] = r.randrange(0, 100)
                if r.random() < 0.3:      # until an operation needs that many: a rebuild
                    d['f.until'] = 1
                    d['f.at'] = 0
                    d['f.oom'] = r.choice([r.randrange(60, 400), r.randrange(60, 5000)])
                if r.random() < 0.35:
                    d['f.mid'] = 1
                if r.random() < 0.25:
                    d['f.skip'] = 1
            elif name == 'upd':
                oom(d, 300)
            elif name == 'fit':
                oom(d, 20000 if r.random() < 0.5 else 1000)
            elif name == 'look' and d['what'] == 'parse':
                oom(d, 100)
            elif name == 'reload':
                oom(d, 800)
                if r.random() < 0.5:
                    d['f.onload'] = 1
        ops.append((name, d))
    ops.append(('upd', {'m': 0}))
    return ops


def g_c14(r, tier):
    kind = r.choice(['IS', 'IS', 'IV', 'SS', 'SW'])
    w = W(r, kind, reach=r.random() < 0.7)
    w.len = r.choice([15, 25, 40, 80])
    ops = []
    if r.random() < 0.65:
        w.A = min(w.A, 40)
        ents = r.choice([0, 2, 5, 10, 20])
        ops.append(craft_model(r, 0, kind, w, size=r.choice([w.A + ents, w.A + ents + 1, w.A + ents + 4, w.A + ents + 15, w.A + 2 * ents + 30]), ents=ents,
                               minp=r.choice([0.5, 0.2, 0.1, 0.05])))
        if r.random() < 0.3:     # a short adjustment first
            d = w.data(r, r.choice([5, 30]), fresh=0)
            d['m'] = 0
            ops.append(('train', d))
        ops += life(r, tier, 0, w, r.randrange(3, 14), kind, mixed(r, {'train': 6, 'upd': 3, 'reload': 1.2, 'look': 0.3}), False)
        ops.append(('upd', {'m': 0}))
        return ops
    ops.append(new_model(r, 0, kind, w, size=r.choice([0, 1, w.A - 1, w.A, w.A + 1, w.A + 4, w.A + 10, 2 * w.A + 20])))
    fix = {'fix': 1, 'len': 50}
    for i in range(r.randrange(1, 4)):
        d = w.data(r, r.choice([100, 210, 300, 500] if i else [210, 300, 400]), fresh=0.0 if i == 0 else 0.1)
        d.update(fix)
        d.update(m=0, capstart=1)
        ops.append(('train', d))
        if r.random() < 0.7:
            ops.append(('upd', {'m': 0}))
        if r.random() < 0.3:
            ops.append(('reload', {'m': 0}))
    ops.append(('upd', {'m': 0}))
    return ops


def g_c15(r, tier):
    if r.random() < 0.003:
        return huge_alphabet(r, ['reload'])
    kind, w, op = start(r, KINDS, 0.65, reach=r.random() < 0.8)
    if r.random() < 0.5:
        w.len = r.choice([1, 2, 3, 4])       # many boundaries
    mix = mixed(r, {'train': 6, 'upd': 3, 'reload': 0.7, 'fit': 1.5})
    return [op] + life(r, tier, 0, w, r.randrange(3, 14), kind, mix, r.random() < 0.3, intr=0.2) + [('upd', {'m': 0})]


def progress_start(r, kind, iters=1):
    w = W(r, kind)
    w.src = 'd'
    w.K = r.choice([2, 3, 4, 5, 6])
    w.L = r.choice([3, 4, 5])
    w.A = w.K * w.L
    w.emp = 0
    size = w.A + r.choice([20, 40, 100, 500])
    return w, [('new', {'m': 0, 'kind': kind, 'size': size, 'verb': 0, 'mode': mode(r), 'iters': iters})], {'fix': 1, 'len': 50}


def progress_op(r, w, fix):
    p = w.data(r, 10, fresh=0)
    p.update(fix)
    p.update(m=0, limit=0.7)
    return ('progress', p)


def fit_progress(r, interruptions):
    kind = r.choice(FITS)
    iters = r.choice([1, 2, 3, 10, 25])
    w, ops, fix = progress_start(r, kind, iters)
    n = -(-300 // iters) + r.choice([0, 0, 7])
    d = w.data(r, n, fresh=0)
    d.update(fix)
    d['m'] = 0
    if r.random() < 0.2:
        ops.append(('reload', {'m': 0}))
    for _ in range(interruptions):
        total = iters * n + n
        f = dict(d, rs=r.randrange(1, 1 << 20))
        f['f.intr'] = r.choice([1, n, n + 1, 2 * n, r.randrange(1, 2 * n + 2), r.randrange(1, total + 1), r.randrange(1, total + 1), iters * n, iters * n + 1, total])
        ops.append(('fit', f))
        if r.random() < 0.6:
            ops.append(r.choice([('reload', {'m': 0}), ('reload', {'m': 0}), look_op(r, 0, w)]))
    ops.append(('fit', dict(d, rs=r.randrange(1, 1 << 20))))
    if r.random() < 0.4:
        ops.append(('reload', {'m': 0}))
    ops.append(progress_op(r, w, fix))
    return ops


def long_past(r):
    """a model that has seen much data without structure learns a new source"""
    kind = r.choice(['IS', 'IS', 'IV', 'SS', 'SW'])
    w, ops, fix = progress_start(r, kind)
    old = r.choice([1, 2, 3, 3, 4])
    o = r.randrange(1, 8) if kind in ('SS', 'SV') else r.choice([r.randrange(1, 20), 40])
    ops[0] = craft_model(r, 0, kind, w, size=w.A + old + r.choice([30, 100, 500]), minp=r.choice([0.5, 0.5, 0.2, 0.1]), ents=0)
    ops[0][1].update(A=old)
    fix = dict(fix, o=o)
    n = r.choice([700, 1500, 2500])
    past = dict(m=0, src='u', A=old, n=n, len=r.choice([1, 2]), fix=1, seed=r.randrange(1, 1 << 20))
    ops.append(('train', past))
    if r.random() < 0.3:
        ops.append(('upd', {'m': 0}))
        ops.append(('train', dict(past, n=n // 2)))
    d = w.data(r, r.choice([600, 800]), fresh=0)
    d.update(fix)
    d['m'] = 0
    p = progress_op(r, w, fix)
    p[1]['limit'] = 0.9     # the longer the past, the slower the change
    return ops + [('train', d), ('upd', {'m': 0}), p]


def g_c16(r, tier):
    x = r.random()
    if x < 0.2:
        return long_past(r)
    if x < 0.45:
        return fit_progress(r, r.choice([0, 0, 1, 2]))
    kind = r.choice(['IS', 'IS', 'IV', 'SS', 'SW'])
    w, ops, fix = progress_start(r, kind)
    if r.random() < 0.3:      # a model of other data, from a file, learns a new source
        old = r.choice([1, 3, 6])
        ents = r.choice([0, 3, 10])
        o = r.randrange(1, 8) if kind in ('SS', 'SV') else r.choice([0, r.randrange(1, 20), 40])
        ops[0] = craft_model(r, 0, kind, w, size=w.A + old + ents + r.choice([30, 100, 500]), minp=r.choice([0.2, 0.05, 0.01, 0.005]), ents=ents)
        ops[0][1].update(A=old)
        fix = dict(fix, o=o)

    def disturb():
        x = r.random()
        if x < 0.1:
            ops.append(r.choice([('upd', {'m': 0, 'f.oom': oom_at(r, 300)}), ('reload', {'m': 0, 'f.oom': oom_at(r, 800), 'f.onload': r.randrange(2)})]))
        elif x < 0.35:
            ops.append(('reload', {'m': 0}))
        elif x < 0.6:
            ops.append(look_op(r, 0, w))
        elif x < 0.8:
            ops.append(('upd', {'m': 0}))
        else:
            ops.append(('fsave', {'m': 0, 'f.werr': 'ENOSPC', 'f.wpct': r.randrange(1000), 'f': 'm.json'}))
    chunks = r.choice([1, 3, 6])
    for _ in range(chunks):
        d = w.data(r, r.choice([5, 20, 60]), fresh=0)
        d.update(fix)
        d['m'] = 0
        if r.random() < 0.3:       # memory runs out in the middle, most often in a rebuild
            d.update({'f.oom': r.choice([r.randrange(1, 60), r.randrange(60, 400), r.randrange(60, 5000)]), 'f.at': 0, 'f.until': 1, 'f.skip': r.randrange(2)})
        ops.append(('train', d))
        for _ in range(r.choice([0, 1, 2])):
            disturb()
    for phase in range(r.choice([1, 2])):
        d = w.data(r, r.choice([300, 500]), fresh=0)
        d.update(fix)
        d['m'] = 0
        ops.append(('train', d))
        ops.append(('upd', {'m': 0}))
        ops.append(progress_op(r, w, fix))
        if phase == 0:
            for _ in range(r.choice([0, 1, 2])):
                disturb()
    return ops


def g_c17(r, tier):
    kind = r.choice(['SS', 'SW', 'SV', 'SX'])
    w = W(r, kind, reach=r.random() < 0.5)
    ops = [new_model(r, 0, kind, w)]
    long = r.random() < 0.4
    ops += life(r, tier, 0, w, r.randrange(3, 14), kind, mixed(r, {'train': 6, 'upd': 3, 'parse': 3, 'look': 1, 'fit': 2}), long)
    for o in ops:
        if o[0] == 'fit' and r.random() < 0.3:
            o[1]['n'] = 200
    if kind in ('SS', 'SW') and r.random() < 0.05:
        ops[1:1] = [long_train(r, 0, w), ('upd', {'m': 0})]
    ops += [('upd', {'m': 0}), ('dump', {'m': 0})]
    return ops


def g_c18(r, tier):
    ops = []
    if r.random() < 0.5:
        for t in range(r.choice([1, 2])):
            d = {'t': t, 'kind': r.choice(['char', 'word', 'pair'])}
            if r.random() < 0.5:
                d.update(map=r.randrange(1, 1000), n=r.randrange(0, 13), span=r.choice([1, 9, 30, 1000]))
            ops.append(('tknew', d))
        for _ in range(r.randrange(2, 15)):
            ops.append(('tk', {'t': r.randrange(2), 'seed': r.randrange(1, 1 << 20), 'len': r.choice([0, 1, 5, 20, 60]), 'A': r.choice([1, 3, 8, 23]), 'off': r.randrange(23),
                               'n': r.choice([1, 1, 3]), 'dec': r.randrange(2), **({'lw': r.choice([30, 70, 300])} if r.random() < 0.1 else {})}))
        return ops
    kind, w, op = start(r, ['SS', 'SW', 'SV', 'SX'], 0.5)
    ops = [op, ('tokids', {'m': 0})]
    for _ in range(r.randrange(2, 12)):
        ops += life(r, tier, 0, w, 1, kind, mixed(r, dict(MIX, reload=2, look=3)), False)
        if ops[-1][0] == 'train' and r.random() < 0.6:
            ops.append(('upd', {'m': 0}))
        if r.random() < 0.15:
            ops.append(('reload', {'m': 0}))
        ops.append(('tokids', {'m': 0}))
    return ops


def g_c19(r, tier):
    kind = r.choice(KINDS)
    w = W(r, kind, reach=r.random() < 0.5)
    ops = [new_model(r, 0, kind, w)]
    ops[0][1]['verb'] = r.choice([1, 1, 2, 5])
    ops += life(r, tier, 0, w, r.randrange(3, 12), kind, mixed(r, dict(MIX, reload=0.5)), r.random() < 0.4, intr=0.2)
    ops += [('upd', {'m': 0}), ('dump', {'m': 0})]
    return ops


def lits(seqs):
    return '|'.join('.'.join(str(x) for x in s) for s in seqs)


def g_c20(r, tier):
    A = r.choice([2, 2, 3, 4, 8])
    L = r.choice([2, 3, 5, 9])
    n = r.choice([0, 1, 3, 8, 20, 50])
    if r.random() < 0.02:
        n, A = r.choice([200, 500]), r.choice([8, 100, 1000])
    top = max(60, n)
    off = r.choice([0, 0, 0, -3, 2147483600])

    def sym(a=A):
        return r.randrange(a) + off

    def seq(mx=L, a=A):
        return [sym(a) for _ in range(r.randrange(1, mx + 1))]
    ents = [seq() for _ in range(n)]
    for _ in range(r.choice([0, 0, 3, 10])):   # chains of prefixes
        if ents:
            e = r.choice(ents)
            ents.append(e + [sym()])
            ents.append(e[:r.randrange(1, len(e) + 1)])
    if r.random() < 0.25:                      # a deep chain, with branches
        e = [sym(2) for _ in range(r.choice([8, 12, 20, 40]))]
        for i in range(1, len(e) + 1):
            if r.random() < 0.9:
                ents.append(e[:i])
            if r.random() < 0.2:
                ents.append(e[:i] + [sym()])
    ops = [('dinit', {'how': r.choice(['seqs', 'seqs', 'seqs', 'symbols', 'empty']), 'lit': lits(ents)})]
    for _ in range(r.randrange(5, 40)):
        wide = A + r.choice([0, 0, 0, 3])
        q = seq(L + 3, wide)
        if ents and r.random() < 0.6:
            q = r.choice(ents) + seq(3, wide)
            if r.random() < 0.3:
                q = q[:r.randrange(1, len(q) + 1)]
        x = r.random()
        if x < 0.75:
            d = {'lit': lits([q])}
            if r.random() < 0.4:
                d['ex'] = '.'.join(str(r.randrange(0, top)) for _ in range(r.choice([0, 1, 3, 10, 40])))
            if r.random() < 0.03:
                d['clone'] = 1
            ops.append(('dsearch', d))
        else:
            d = {'lit': lits([sum([seq(4, wide) for _ in range(r.randrange(0, 6))], [])]), 'seed': r.randrange(1, 1000)}
            if r.random() < 0.5:
                d['weighted'] = 1
            elif r.random() < 0.5:
                d['ex'] = '.'.join(str(r.randrange(0, top)) for _ in range(r.choice([0, 1, 3, 10])))
            ops.append(('dparse', d))
    return ops


def g_c23(r, tier):
    """any history with any fault; the simulator repeats it"""
    g = r.choice([g_c13, g_c13, g_c13, g_c09, g_c10, g_c10, g_c07, g_c18, g_c03, g_c08, g_c20])
    ops = g(r, tier)
    if len(ops) > 9:
        k = r.randrange(0, len(ops) - 8)
        ops = ops[:1] + ops[1 + k:9 + k]
    for n, d in ops:
        if d.get('n', 0) > 60:
            d['n'] = 60
    if r.random() < 0.2:
        ops.append(('drop', {'m': 0}))
    return ops


def g_c24(r, tier):
    kind = 'IV'
    w = W(r, kind, reach=r.random() < 0.6)
    ops = [new_model(r, 0, kind, w)]
    for _ in range(r.randrange(1, 7)):
        ops += life(r, tier, 0, w, r.randrange(0, 3), kind, mixed(r, {'train': 5, 'upd': 3, 'fit': 3}), r.random() < 0.2, intr=0.4)
        n = r.choice([0, 1, 2, 5, 12, 40])
        d = w.data(r, n, fresh=0.3)
        d.update({'m': 0, 'how': r.randrange(2)})
        if r.random() < 0.85:
            d['f.intr'] = r.randrange(1, 2 * n + 2)
        ops.append(('itransform', d))
    return ops


def g_c25(r, tier):
    kind = r.choice(['IS', 'IS', 'IV', 'SS', 'SW'] + (['IV', 'SV', 'SX'] if r.random() < 0.3 else []))
    A = r.choice([15, 17, 20, 25, 30] if kind in ('SS', 'SV') else [15, 20, 25, 30, 40])
    w = W(r, kind)
    w.src, w.A, w.emp = 'u', A, 0
    fix = {'fix': 1, 'len': 50}
    iters = r.choice([1, 2])
    ops = [('new', {'m': 0, 'kind': kind, 'size': A + r.choice([20, 40, 100, 500]), 'verb': 0, 'mode': mode(r), 'iters': iters})]

    def disturb():
        x = r.random()
        if x < 0.15:
            ops.append(r.choice([('upd', {'m': 0, 'f.oom': oom_at(r, 300)}), ('reload', {'m': 0, 'f.oom': oom_at(r, 800), 'f.onload': r.randrange(2)})]))
        elif x < 0.45:
            ops.append(('reload', {'m': 0}))
        elif x < 0.6:
            ops.append(look_op(r, 0, w))
        elif x < 0.85:
            ops.append(('upd', {'m': 0}))
        else:
            ops.append(('fsave', {'m': 0, 'f.werr': 'ENOSPC', 'f.wpct': r.randrange(1000), 'f': 'm.json'}))

    def check():
        p = w.data(r, 20, fresh=0)
        p.update(fix)
        p.update(m=0, limit=0.93)
        ops.append(('noise', p))
    if kind in ('SV', 'SX') or (kind == 'IV' and r.random() < 0.5):
        d = w.data(r, -(-300 // iters) + r.choice([0, 50]), fresh=0)
        d.update(fix)
        d['m'] = 0
        for _ in range(r.choice([0, 1, 2])):
            ops.append(('fit', dict(d, rs=r.randrange(1, 1 << 20), **{'f.intr': r.randrange(1, 2 * d['n'])})))
            disturb()
        ops.append(('fit', dict(d, rs=r.randrange(1, 1 << 20))))
        if r.random() < 0.4:
            ops.append(('reload', {'m': 0}))
        check()
        return ops
    for _ in range(r.choice([0, 1, 3])):
        d = w.data(r, r.choice([5, 20, 60]), fresh=0)
        d.update(fix)
        d['m'] = 0
        if r.random() < 0.3:
            d.update({'f.oom': r.choice([r.randrange(1, 60), r.randrange(60, 400), r.randrange(60, 5000)]), 'f.at': 0, 'f.until': 1, 'f.skip': r.randrange(2)})
        ops.append(('train', d))
        for _ in range(r.choice([0, 1, 2])):
            disturb()
    for phase in range(r.choice([1, 2])):
        d = w.data(r, r.choice([300, 500]), fresh=0)
        d.update(fix)
        d['m'] = 0
        ops.append(('train', d))
        ops.append(('upd', {'m': 0}))
        check()
        for _ in range(r.choice([0, 1])):
            disturb()
    return ops


def g_c26(r, tier):
    """one model, a fixed alphabet, far more data than it can hold"""
    kind = r.choice(['IS', 'IS', 'IV', 'SS', 'SW'])
    A = r.choice([2, 3, 4, 5, 6])
    w = W(r, kind, amax=A)
    w.A, w.emp = A, 0
    w.src = r.choice(['w', 'w', 'u', 'm', 'c', 'z'])
    size = r.choice([0, A, A + 2, A + 5, A + 10, A + 16])
    ops = [('new', {'m': 0, 'kind': kind, 'size': size, 'verb': 0, 'mode': mode(r) % 12, 'iters': 1})]
    d = w.data(r, 400, 50, fresh=0)     # warming up: through the first prunes
    d.update(m=0, fix=1)
    ops += [('train', d), ('upd', {'m': 0})]
    if r.random() < 0.3:
        ops.append(('reload', {'m': 0}))
        d = w.data(r, 400, 50, fresh=0)
        d.update(m=0, fix=1)
        ops += [('train', d), ('upd', {'m': 0})]
    d = w.data(r, 0, 50, fresh=0)
    d.update(m=0, fix=1, blocks=r.choice([6, 6, 7, 8]), per=r.choice([100, 200, 300, 300]), upd=r.choice([0, 0, 1, 10, 50]), reads=int(r.random() < 0.8))
    if r.random() < 0.3:
        d['noupd'] = 1
    if r.random() < 0.4:
        d['parses'] = 300
    if r.random() < 0.25:       # many short sequences: what is kept per sequence
        d.update(len=r.choice([1, 2, 3]), per=2500, upd=r.choice([0, 1000]))
    if r.random() < 0.3:
        d['f.oom'] = r.choice([r.randrange(1, 60), r.randrange(60, 400)])
        d['f.at'] = r.randrange(100)
    if r.random() < 0.3:
        d.update({'f.werr': 'ENOSPC', 'f.wat': r.randrange(200)})
    ops.append(('steady', d))
    return ops


def stretch(r, prop, ops):
    """pushes one dimension of a scenario to a scale that the others do not reach"""
    heads = [d for n, d in ops if n in ('new', 'craft')]
    feeds = [d for n, d in ops if n in ('train', 'fit')]
    if not heads:
        return ops
    kinds = {d['kind'] for d in heads}
    can = ['size', 'iters', 'slow', 'many', 'long']
    if prop != 'C14' and not kinds & {'SS', 'SV'}:
        can += ['symbols', 'symbols']
    if any(n == 'craft' for n, _ in ops):
        can += ['elen', 'ents', 'elen', 'ents']
    if kinds & {'SW', 'SX'}:
        can += ['words', 'words']
    what = r.choice(can)
    if what == 'size' and prop != 'C14':
        for d in heads:
            d['size'] = r.choice([-1, -1000, -(1 << 31), (1 << 31) - 1, 1000000])
    elif what == 'iters':
        for d in heads:
            d['iters'] = r.choice([0, 0, 20, 40, -1])
        for n, d in ops:
            if n == 'fit':
                d['n'] = min(d['n'], 25)
    elif what == 'symbols':
        big = r.choice([300, 500]) if kinds & {'SW', 'SX'} else r.choice([300, 700, 1500, 3000])
        for n, d in ops:
            if 'A' in d:
                d['A'] = big
                d['src'] = r.choice(['u', 'u', 'c', 'm', 'z'])
                d['len'] = r.choice([25, 60, 200])
                if 'n' in d:
                    d['n'] = min(d['n'], 40)
            if n == 'craft':
                d['size'] += big
    elif what == 'elen':
        for n, d in ops:
            if n == 'craft':
                d.update(elen=r.choice([20, 40, 100, 300]), ents=max(d['ents'], 12))
                d['size'] = max(d['size'], d['A'] + d['ents'] + r.choice([0, 5, 100]))
    elif what == 'ents':
        for n, d in ops:
            if n == 'craft':
                d.update(ents=r.choice([100, 250, 600]), A=max(4, d['A']))
                d['size'] = max(d['size'], d['A'] + d['ents'] + r.choice([0, 5, 100]))
    elif what == 'slow':
        for d in heads:
            if 'minp' in d:
                d['minp'] = r.choice([0.001, 1e-4, 1e-5, 1e-6])
        if feeds:
            f = r.choice(feeds)
            f.update(n=r.choice([200, 400]), len=50, fix=1)
    elif what == 'many' and feeds:
        f = r.choice(feeds)
        f.update(n=r.choice([500, 1000]), len=r.choice([1, 2, 5]))
    elif what == 'long' and feeds:
        f = r.choice(feeds)
        f.update(n=r.choice([1, 2, 3]), len=r.choice([400, 1000]), fix=1)
    elif what == 'words':
        for d in heads:
            d['mode'] = r.randrange(12, 24)
    return ops


STRETCHED = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C11', 'C12', 'C13', 'C14', 'C15', 'C17', 'C18', 'C19']

PROFILES = {
    'C01': dict(gen=g_c01, quick=20000, thorough=200000, nontrivial=['segmentations_with_vgrams', 'segmentations_with_unknown'], real=REAL_ALL,
                probes=['segmentations_with_vgrams', 'segmentations_with_unknown', 'fits_interrupted', 'fast_cycle_models'],
                about='Histories of accept, update, fit (with hostile draws and interruptions), save/forget/load, on all six model classes; after each operation sequences from the data, shuffled, and with unknown symbols are segmented.'),
    'C02': dict(gen=g_c02, quick=20000, thorough=200000, nontrivial=['optimality_checks_with_vgrams'], real=REAL_ALL, probes=['optimality_checks_with_vgrams'],
                about='Dictionaries and frequencies come out of such histories; every segmentation is compared with an independent dynamic programme.'),
    'C03': dict(gen=g_c03, quick=20000, thorough=200000, nontrivial=['symbol_checks'], real=REAL_ALL, probes=['symbol_checks', 'fits_interrupted'],
                about='The published dictionary is examined after every operation, also before the first publication and right after loading.'),
    'C04': dict(gen=g_c04, quick=9000, thorough=120000, nontrivial=['unchanged_checks', 'observations_compared'], real=REAL_ALL, probes=['unchanged_checks', 'observations_compared'],
                about='Each history runs twice, with and without its read-only operations; all publications, saved files and final states have to agree.'),
    'C05': dict(gen=g_c05, quick=20000, thorough=200000, nontrivial=['count_checks_after_rebuild', 'conservation_checks', 'count_checks_exact'], real=REAL_ALL,
                probes=['count_checks_after_rebuild', 'conservation_checks', 'count_checks_exact'],
                about='After each publication the frequencies are compared, as a multiset of symbols, with every unbroken run of the recorded history.'),
    'C06': dict(gen=g_c06, quick=20000, thorough=200000, nontrivial=['corpora_covered'], real=REAL_ALL, probes=['corpora_covered', 'fits_of_fitted'],
                about='The sampler draws what the simulator decides: one document only, a subset, sticky, round robin, always 0, always RAND_MAX, uniform.'),
    'C07': dict(gen=g_c07, quick=14000, thorough=200000, nontrivial=['fits_completed_after_failure'], real=REAL_ALL, probes=['fits_interrupted', 'fits_completed_after_failure'],
                about='The host asks for termination at a chosen check of fit; fit is repeated, also after saving, forgetting and loading.'),
    'C08': dict(gen=g_c08, quick=12000, thorough=160000, nontrivial=['models_compared_with_vgrams'], real=REAL_ALL, probes=['models_compared_with_vgrams', 'fitted_models_reloaded'],
                about='At several stages of a history the model is saved (over older files), the file read by an independent JSON reader, loaded, compared and saved again.'),
    'C09': dict(gen=g_c09, quick=20000, thorough=200000, nontrivial=['saves_failed', 'saves_ok_despite_retries'], real=REAL_ALL, probes=['saves_failed', 'saves_ok_despite_retries', 'saves_ok'],
                about='open, write and close of a save fail or are shortened or interrupted at chosen bytes.'),
    'C10': dict(gen=g_c10, quick=20000, thorough=200000, nontrivial=['torn_files_rejected'], real=REAL_ALL, probes=['torn_files_rejected', 'whole_files_loaded'],
                about='The disk stops at some byte of a save, blocks are lost or zeroed, the file is cut, missing or unreadable; then it is loaded.'),
    'C11': dict(gen=g_c11, quick=4500, thorough=70000, nontrivial=['observations_compared'], real=REAL_ALL, probes=['observations_compared', 'switches'], threads=True,
                about='Each history runs twice: alone in one environment, and among other models (also on other threads) in another: time, entropy, process id, contents and layout of memory.'),
    'C12': dict(gen=g_c12, quick=2500, thorough=50000, nontrivial=['switches'], real=REAL_ALL, probes=['switches', 'reader_calls'], threads=True,
                about='Threads read one model; a seeded scheduler decides at every basic block of the code under test which thread runs; compared with the same calls one after the other.'),
    'C13': dict(gen=g_c13, quick=16000, thorough=160000, nontrivial=['oom_in_accept', 'oom_in_update', 'oom_in_fit', 'oom_in_parse', 'oom_in_save', 'oom_in_load'], real=REAL_ALL,
                probes=['oom_in_accept', 'oom_in_update', 'oom_in_fit', 'oom_in_parse', 'oom_in_load'],
                about='Chosen allocations (one, several, only large ones) fail during accept, update, fit, parse, save and load; then the operation is retried.'),
    'C14': dict(gen=g_c14, quick=6000, thorough=80000, nontrivial=['capacity_checks_with_vgrams', 'capacity_checks_tight'], real=REAL_ALL, probes=['capacity_checks_with_vgrams', 'capacity_checks_tight'],
                about='Models are trained through many grow-and-prune cycles, with late symbols, saving, loading and fine-tuning.'),
    'C15': dict(gen=g_c15, quick=14000, thorough=160000, nontrivial=['vgrams_verified'], real=REAL_ALL, probes=['vgrams_verified'],
                about='Every multi-symbol entry ever published is searched for in the sequences trained on.'),
    'C16': dict(gen=g_c16, quick=1500, thorough=30000, nontrivial=['progress_checks'], real=REAL_ALL, probes=['progress_checks'],
                about='A stationary source of few words; the early phase is disturbed by publishing, reading, failed saves, restarts from file; then, in quiet, progress is required after a bounded amount of data.'),
    'C17': dict(gen=g_c17, quick=12000, thorough=140000, nontrivial=['observations_compared'], real=REAL_ALL, probes=['observations_compared'],
                about='Each history runs twice: on the text model, and on tokenizer plus integer model.'),
    'C18': dict(gen=g_c18, quick=20000, thorough=200000, nontrivial=['token_checks', 'model_id_checks'], real=REAL_ALL, probes=['token_checks', 'model_id_checks'],
                about='Tokenizers, fresh or restored with gaps in their ids, transform and decode in any order; ids inside text models are read from their files over their life.'),
    'C19': dict(gen=g_c19, quick=12000, thorough=140000, nontrivial=['silence_checks', 'observations_compared'], real=REAL_ALL, probes=['silence_checks', 'observations_compared'],
                about='Each history runs twice: silent on a healthy console, and verbose on a console that refuses writes from some byte on.'),
    'C23': dict(gen=g_c23, quick=5000, thorough=100000, nontrivial=['leak_checks'], real=REAL_ALL, probes=['leak_checks'],
                about='Any history with any faults runs five times in one process, its models destroyed after each round; memory and descriptors in use are compared between the rounds.'),
    'C24': dict(gen=g_c24, quick=10000, thorough=200000, nontrivial=['transforms_interrupted'], real=REAL_ALL, probes=['transforms_interrupted', 'transforms_whole'],
                about='The host asks for termination at a chosen check of transform; what is returned is compared with segmenting the documents one by one.'),
    'C25': dict(gen=g_c25, quick=3000, thorough=100000, nontrivial=['noise_checks'], real=REAL_ALL, probes=['noise_checks'],
                about='A source of independent, equally likely symbols; the early phase is disturbed as for C16, also by other data and by v-grams from a file.'),
    'C26': dict(gen=g_c26, quick=700, thorough=40000, nontrivial=['steady_checks'], real=REAL_ALL, probes=['steady_checks'],
                about='One model with a fixed alphabet is trained, published, read, saved with far more data than it can hold; the memory its calls keep and the steps they take are compared between blocks of data.'),
    'C20': dict(gen=g_c20, quick=30000, thorough=600000, nontrivial=['dict_searches'], real='core/src/main/cpp/algorithm/int_dict_p.cc, unmodified', probes=['symbols_added', 'dict_searches'],
                about='Look-ups and parses, with and without exclusions, that make the dictionary grow, against a list searched linearly.'),
}


def scenario(prop, seed, i, tier):
    r = random.Random('%s/%s/%d' % (seed, prop, i))
    ops = PROFILES[prop]['gen'](r, tier)
    if prop in STRETCHED and r.random() < 0.06:
        ops = stretch(r, prop, ops)
    head = {'prop': prop, 'env': r.randrange(1, 1 << 20)}
    if prop == 'C19':
        head['consoleat'] = r.choice([-1, 0, 0, 1, 10, 100, 5000])
        head['consolethrow'] = int(r.random() < 0.2)
    return ('scenario', head), [(n, {k: str(v) for k, v in a.items()}) for n, a in ops]
