"""C17: job counts."""
from harness.capture import record

BOUNDS = 'every integer n_jobs in -200..200 (and numpy integers), every CPU count in 1..128, ensembles of 1-5 members; ' \
         'every other type of value from a fixed list'
OUTSIDE = 'CPU counts above 128; operating systems that do not report a CPU count'


def configs(tier):
    out = [{'m': 'check'}, {'m': 'numpy'}, {'m': 'none'}, {'m': 'types'}]
    for nm in (1, 2, 3, 4, 5):
        out.append({'m': 'ensemble', 'nm': nm})
        out.append({'m': 'ensemble_none', 'nm': nm})
    out += [{'m': 'rdst'}, {'m': 'ridge'}]
    return out


def ck(h, w, r, k, cpus):
    h.check(w + 'at least one', h.le(1, r, exact=True))
    h.check(w + 'at most the number of CPUs', h.le(r, cpus, exact=True))
    h.check(w + 'positive', h.implies(h.lt(0, k, exact=True),
                                      h.or_(h.and_(h.eq(r, k), h.le(k, cpus, exact=True)),
                                            h.and_(h.eq(r, cpus), h.le(cpus, k, exact=True)))))
    neg = cpus + 1 + k
    h.check(w + 'negative', h.implies(h.lt(k, 0, exact=True),
                                      h.or_(h.and_(h.eq(r, neg), h.le(1, neg, exact=True)),
                                            h.and_(h.eq(r, 1), h.le(neg, 1, exact=True)))))


def run(h, c):
    np = h.np
    cpus = h.int('cpus', 1, 128)
    h.w.cpus = cpus
    h.w.num_threads = cpus
    k = h.int('k', -200, 200)
    C = h.load('convst.utils.checks_utils')
    m = c['m']
    if m == 'check':
        r = C.check_n_jobs(k)
        ck(h, '', r, k, cpus)
        h.out('jobs', r)
        h.reach('check')
    elif m == 'numpy':
        kk = [-40, -3, -2, -1, 0, 1, 2, 5, 200][h.choose('v', 9)]
        ty = [np.int64, np.int32, np.int8 if kk < 128 else np.int16, np.uint8 if kk >= 0 else np.int64][h.choose('t', 4)]
        ck(h, '', C.check_n_jobs(ty(kk)), kk, cpus)
        h.check('-1 is every CPU', h.eq(C.check_n_jobs(ty(-1) if ty is not np.uint8 else -1), cpus))
    elif m == 'none':
        h.check('None is one job', h.eq(C.check_n_jobs(None), 1))
        h.check('-1 is every CPU', h.eq(C.check_n_jobs(-1), cpus))
    elif m == 'types':
        for v in (True, False, 1.0, 2.5, '1', [1], (2,), np.float64(1.0), {}, np.bool_(True)):
            h.ck_raises('n_jobs=%r' % (v,), ValueError, C.check_n_jobs, v)
    elif m in ('rdst', 'ridge'):
        R = h.load('convst.transformers').R_DST if m == 'rdst' else h.load('convst.classifiers').R_DST_Ridge
        e = R(n_jobs=k)
        ck(h, 'n_jobs: ', e.n_jobs, k, cpus)
        t = h.w.threads_log
        h.check('threads are set', len(t) == 1)
        ck(h, 'threads: ', t[-1], k, cpus)
        h.reach(m)
    else:
        record(h, lambda call: np.asarray([[float(i), 2.0 * i + 1, 5.0 * i] for i in range(call['args']['X'].shape[0])]))
        h.w.pin_ridge = True
        T = h.load('convst.transformers._input_transformers')
        E = h.load('convst.classifiers').R_DST_Ensemble
        kk = k if m == 'ensemble' else None
        e = E(n_shapelets_per_estimator=1, shapelet_lengths=[3], random_state=0, proba_norm=[0.5] * c['nm'],
              input_transformers=[T.Raw() for _ in range(c['nm'])], alphas_ridge=[1.0], n_jobs=kk)
        X = np.asarray([[[1.0, 2.0, 4.0]], [[3.0, 1.0, 0.0]]])
        e.fit(X, np.asarray([0, 1]))
        e.predict(X)
        h.w.schedule = 'forward'
        total = C.check_n_jobs(kk)
        par = [r['n_jobs'] for r in h.w.recs('Parallel')]
        th = h.w.threads_log
        h.check('jobs were used', len(par) >= 2)
        for p in par:
            p = 1 if p is None else p
            h.check('member jobs: at least one', h.le(1, p, exact=True))
            h.check('member jobs: at most the requested ones', h.le(p, total, exact=True))
            for t in th:
                h.check('threads: at least one', h.le(1, t, exact=True))
                h.check('members times threads', h.le(p * t, total, exact=True))
        h.check('threads are limited', len(th) >= 1)
        h.check('at most the CPUs', h.le(total, cpus, exact=True))
        h.reach('ensemble')
