"""P21: noise classes and sampling-based costs against Noise.tla."""
import multiprocessing
import random

import numpy

from vlib.tracing import quiet, silence, error_event
from drivers import nets

MC_CFG = '''SPECIFICATION Spec
CONSTANTS Classes = %d
 MaxCount = %d
 MaxDraws = %d
INVARIANTS SumsToOne Support NoRepeats DrawnPossible NextSumsToOne Ordered Flatter MoreLikelyCostsLess NotNegative ShiftInvariant
CHECK_DEADLOCK FALSE
'''
UNIT = 100000
NOTHING = 1390000000                                         # NaN or infinity


def units(x):
    x = numpy.asarray(x, 'float64') * UNIT
    x = numpy.where(numpy.isfinite(x), numpy.clip(x, -1.3e9, 1.3e9), NOTHING)
    return numpy.rint(x).astype('int64').tolist()


def matrix(a, b, size):
    res = numpy.zeros((size, size), 'int64')
    inside = (a >= 0) & (a < size) & (b >= 0) & (b < size)
    numpy.add.at(res, (a[inside], b[inside]), 1)
    return res.tolist()


def table(a, size):
    return numpy.bincount(a[(a >= 0) & (a < size)], minlength=size).tolist()


def setting(r):
    """A distribution, and a vocabulary and network that use it."""
    v = nets.words_vocabulary(r.randint(1, 6), classes=r.random() < 0.4)
    size = v.num_classes()
    rare = [v.word_id_to_class_id[v.word_to_id[w]] for w in ('<s>', '<unk>') if r.random() < 0.5]
    counts = numpy.array([0 if c in rare else r.choice([1, 1, 2, 3, 5, 8]) for c in range(size)], 'float64')
    dist = r.choice(['uniform', 'log-uniform', 'unigram', 'unigram', 'unigram'])
    damp = r.choice([0.0, 0.25, 0.5, 0.5, 1.0, 1.0]) if dist == 'unigram' else r.choice([0.0, 0.5])
    sharing = r.choice([None, 'seq', 'batch'])
    return v, counts / counts.sum(), dist, damp, sharing


def reported(dist, size):
    """Probabilities of all the classes, however they are returned."""
    import theano
    import theano.tensor as tensor
    ids = tensor.lvector('ids')
    probs = dist.probs(ids)
    if hasattr(probs, 'owner'):
        probs = theano.function([ids], probs, on_unused_input='ignore')(numpy.arange(size))
    return units(numpy.broadcast_to(numpy.asarray(probs), (size,)))


def draws(dist, size, k, n):
    import theano
    import theano.tensor as tensor
    m = tensor.lscalar('m')
    kk = tensor.lscalar('k')
    f = theano.function([m, kk], dist.sample(m, kk))
    parts = []
    while sum(len(x) for x in parts) < n:
        parts.append(numpy.asarray(f(n // 4, k)))
    x = numpy.concatenate(parts)
    if x.ndim != 2 or x.shape != (n, k):
        return dict(a='error', what='sample of shape %s' % (x.shape,), where='sample')
    ever = numpy.zeros(size, 'int64')
    for c in range(size):
        ever[c] = (x == c).sum()
    return dict(a='draws', n=n, k=k, sets=(x[:20] + 1).tolist(), first=table(x[:, 0], size), ever=ever.tolist(),
                repeats=sum(len(set(row)) < k for row in x.tolist()) if k > 1 else 0,
                pair=matrix(x[:, 0], x[:, 1], size) if k > 1 else [], after=matrix(x[0::2, 0], x[1::2, 0], size))


def noise_case(job):
    key, kind, number = job
    quiet()
    r = random.Random(key)
    nr = numpy.random.RandomState(r.randrange(2 ** 31))
    numpy.random.seed(r.randrange(2 ** 31))
    case = dict(ev=[], kind=kind)
    try:
        with silence(), numpy.errstate(all='ignore'):
            import theano
            theano.config.optimizer = 'fast_compile'
            from theanolm.training import NCECost, BlackoutCost
            v, prior, name, damp, sharing = setting(r)
            size = v.num_classes()
            possible = int((prior > 0).sum()) if name == 'unigram' and damp > 0 else size
            case.update(dist=name, prior=units(prior), damp=units(damp), sharing=sharing or 'none')
            lines = nets.random_description(r, depth=1, types=['fc', 'gru', 'tanh'], size=3, output='softmax')
            net = nets.make(lines, v, class_prior_probs=prior)
            flat = r.random() < 0.4                           # logits do not depend on the history
            for p, x in sorted(net.get_variables().items()):
                value = nr.uniform(-1, 1, x.get_value().shape)
                if flat and p == 'layers/out/input/W':
                    value *= 0
                x.set_value(value.astype(x.get_value().dtype))
            net.set_sampling(name, damp, sharing)
            dist = net.noise_distribution
            case['ev'].append(dict(a='probs', probs=reported(dist, size)))
            if kind == 'draws':
                for k in sorted({1, r.randint(1, min(4, possible))}):
                    case['ev'].append(draws(dist, size, k, number))
                return case

            sample, sample_logits = net.noise_sample()
            ids = [net.input_word_ids, net.input_class_ids, net.target_word_ids, net.target_class_ids, net.mask]
            extra = [(net.is_training, numpy.int8(1))]
            exclude = r.random() < 0.5
            unk = v.word_to_id['<unk>']
            if kind == 'spread':
                k = 1
                f = theano.function(ids + [net.num_noise_samples], sample, givens=extra, on_unused_input='ignore')
            else:
                objective = {'nce': NCECost, 'blackout': BlackoutCost}[kind](net, unk if exclude else None)
                cost, num = objective.get_tensor()
                f = theano.function(ids + [net.num_noise_samples],
                                    [cost, num, sample, sample_logits, net.unnormalized_logprobs()],
                                    givens=extra, on_unused_input='ignore')
                probs = nets.compile_probs(net)
            for _ in range(1 if kind == 'spread' else 6):
                k = 1 if kind == 'spread' else r.randint(1, min(4, possible))
                T, N = r.randint(1, 4), r.randint(1, 4)
                if kind == 'spread':
                    T, N = r.randint(2, 3), r.randint(2, 3)
                w = nr.randint(0, v.num_shortlist_words(), (T + 1, N)).astype('int64')
                c = v.word_id_to_class_id[w].astype('int64')
                m = numpy.zeros((T, N), 'int8')
                for j in range(N):
                    m[:r.randint(0 if j else 1, T), j] = 1
                args = [w[:-1], c[:-1], w[1:], c[1:], m, k]
                if kind == 'spread':
                    pairs = [((0, 0), (0, 1)), ((0, 1), (1, 1)), ((0, 0), (1, 1)), ((1, 0), (0, 1))]
                    xs = numpy.array([[[numpy.broadcast_to(s, (T, N, 1))[p] for p in pq] for pq in pairs]
                                      for s in (f(*args) for _ in range(number // 4))])[..., 0]
                    for i, (p, q) in enumerate(pairs):
                        case['ev'].append(dict(a='spread', n=len(xs), p=[p[0] + 1, p[1] + 1], q=[q[0] + 1, q[1] + 1],
                                               x=matrix(xs[:, i, 0], xs[:, i, 1], size)))
                    continue
                value, words, s, sl, tl = [numpy.asarray(x) for x in f(*args)]
                lp = numpy.log(numpy.asarray(probs(w[:-1], c[:-1], m)[0], 'float64'))
                base = dict(T=T, N=N, K=k, s=(s + 1).tolist(), sl=units(sl), tl=units(tl), target=(c[1:] + 1).tolist())
                case['ev'].append(dict(base, a='noise', shape=list(s.shape), lp=units(lp),
                                       bias=units(net.get_variables()['layers/out/input/b'].get_value())
                                       if flat else []))
                counts = m * (w[1:] != unk) if exclude else m
                case['ev'].append(dict(base, a='cost', kind=kind, counts=counts.astype(int).tolist(), num=int(words),
                                       cost=units(value), tol=1500))
    except BaseException as e:                               # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        case['ev'].append(error_event(e))
    return case


def run(chk):
    quiet()
    chk.model_check('NoiseMC', MC_CFG % chk.n((3, 3, 2), (4, 3, 3)), vacuity=False)
    kinds = ['nce', 'blackout', 'draws', 'spread']
    jobs = [('%d/noise/%d' % (chk.seed, i), kinds[i % 4], chk.n(12000, 20000)) for i in range(chk.n(96, 800))]
    with multiprocessing.get_context('fork').Pool(8) as pool:
        cases = pool.map(noise_case, jobs, chunksize=1)
    chk.random_scenarios = sum(len(c['ev']) for c in cases)
    chk.validate('NoiseTrace', cases)
