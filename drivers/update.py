"""P20: training updates of real networks against TrainStep.tla."""
import multiprocessing
import random

import numpy

from vlib.tracing import quiet, silence, error_event
from drivers import nets

MC_CFG = '''SPECIFICATION Spec
CONSTANTS MaxSentences = %d
 MaxLen = %d
 MaxUpdates = %d
 Which = {%s}
INVARIANTS PaddingInvisible OrderInvisible ExcludedInvisible NoRateNoChange NoWeightNoChange StepNorm WeightsScale
CHECK_DEADLOCK FALSE
'''
METHODS = ['sgd', 'nesterov', 'adagrad', 'adadelta', 'rmsprop-sgd', 'rmsprop-nesterov', 'adam']
TYPES = ['fc', 'tanh', 'gru', 'lstm', 'highway', 'add', 'bgru', 'blstm']
UNIT = 100000
NOTHING = 1390000                                            # NaN or infinity


def units(x):
    x = numpy.asarray(x, 'float64') * UNIT
    x = numpy.where(numpy.isfinite(x), numpy.clip(x, -1.3e6, 1.3e6), NOTHING)
    return [int(v) for v in numpy.rint(x)]


def used(lines):
    """Does every layer contribute to the output?"""
    inputs, names = set(), []
    for x in lines:
        fields = [f.split('=') for f in x.split()[1:]]
        names += [v for k, v in fields if k == 'name']
        inputs |= {v for k, v in fields if k == 'input'}
    return all(n in inputs or n == 'out' for n in names)


class Training(object):
    """An optimizer of a real network, its options, and the gradient of one
    sentence computed with another network."""

    def __init__(self, r, nr, method, cost):
        import theano
        import theano.tensor as tensor
        from theanolm.training import create_optimizer, CrossEntropyCost, NCECost, BlackoutCost
        nets.theano_convolution()
        sampling = cost != 'cross-entropy'
        prior = None
        self.v = nets.words_vocabulary(r.randint(1, 4), classes=r.random() < 0.3)
        if sampling:
            nclass = self.v.num_classes()
            # Special tokens may never occur in the training set.
            rare = [self.v.word_id_to_class_id[self.v.word_to_id[w]] for w in ('<s>', '<unk>') if r.random() < 0.6]
            prior = numpy.array([0 if c in rare else r.randint(1, 5) for c in range(nclass)], 'float64')
            prior /= prior.sum()
        while True:
            self.lines = nets.random_description(
                r, depth=r.choice([1, 1, 1, 2]), size=2, types=TYPES,
                output='softmax' if sampling else r.choice(['softmax', 'softmax', 'hsoftmax']))
            if not used(self.lines):
                continue
            self.net = nets.make(self.lines, self.v, class_prior_probs=prior)
            if sum(x.get_value().size for x in self.net.get_variables().values()) <= 220:
                break
        nets.perturb(self.net, nr, r.choice([0.3, 0.6]))
        for x in self.net.get_variables().values():           # biases of classes that never occur
            x.set_value(numpy.clip(x.get_value(), -3, 3))
        self.files = r.choice([1, 2, 3])
        self.exclude = r.random() < 0.5
        weights = [r.choice([1.0, 1.0, 0.25, 0.5, 2.0, 0.0, 1.5]) for _ in range(self.files)]
        lr = r.choice([0.5, 0.8, 1.0, 1.0]) if method != 'adam' else r.choice([0.25, 0.5])
        if method == 'adadelta':
            lr = r.choice([1.0, 2.0])
        self.o = dict(lr=lr, eps=r.choice([0.1, 0.3, 0.5]) if method == 'adam' else r.choice([0.01, 0.05, 0.1]),
                      maxnorm=r.choice([0.25, 0.5, 1.0, 5.0]), gamma=r.choice([0.9, 0.8, 0.6]),
                      gammasq=r.choice([0.95, 0.9, 0.7]), mom=r.choice([0.9, 0.5, 0.25]),
                      l1=r.choice([0, 0, 0, 0.01]), l2=r.choice([0, 0, 0, 0.02]))
        self.weights = weights
        sharing = r.choice([None, 'seq', 'batch'])
        self.sharing = sharing
        k = r.randint(1, 2)
        if sampling:
            dist = r.choice(['uniform', 'log-uniform', 'unigram'])
            self.net.set_sampling(dist, r.choice([0.0, 0.5, 1.0]), sharing)
        cls = {'cross-entropy': CrossEntropyCost, 'nce': NCECost, 'blackout': BlackoutCost}[cost]
        objective = cls(self.net, self.v.word_to_id['<unk>'] if self.exclude else None,
                        self.o['l1'] or None, self.o['l2'] or None)
        self.opt = create_optimizer(
            dict(method=method, epsilon=self.o['eps'], learning_rate=lr, weights=numpy.array(weights),
                 max_gradient_norm=self.o['maxnorm'], num_noise_samples=k, noise_sharing=sharing,
                 gradient_decay_rate=self.o['gamma'], sqr_gradient_decay_rate=self.o['gammasq'],
                 momentum=self.o['mom']), self.net, objective)
        self.variables = list(self.net.get_variables().values())
        if not sampling:
            ref = nets.make(self.lines, self.v)
            self.refvars = [ref.get_variables()[p] for p in self.net.get_variables()]
            keep = tensor.matrix('keep')
            total = -(tensor.log(ref.target_probs()) * keep).sum()
            words, classes = tensor.lmatrix('words'), tensor.lmatrix('classes')
            self.grad = theano.function(
                [words, classes, ref.mask, keep], tensor.grad(total, self.refvars),
                givens=[(ref.input_word_ids, words[:-1]), (ref.input_class_ids, classes[:-1]),
                        (ref.target_word_ids, words[1:]), (ref.target_class_ids, classes[1:]),
                        (ref.is_training, numpy.int8(0))],
                mode=theano.Mode(linker='py', optimizer=None), on_unused_input='ignore')

    def params(self):
        return numpy.concatenate([x.get_value().ravel() for x in self.variables])

    def no_tiny(self):
        """The sign of every parameter has to be known (for L1)."""
        for x in self.variables:
            v = x.get_value()
            tiny = (v != 0) & (numpy.abs(v) < 2.0 / UNIT)
            if tiny.any():
                x.set_value(numpy.where(tiny, numpy.sign(v) * 2.0 / UNIT, v))

    def snapshot(self):
        return [(x, x.get_value(borrow=False)) for x in self.opt.update_function.get_shared()]

    @staticmethod
    def restore(snapshot):
        for x, value in snapshot:
            x.set_value(value)

    def gradient(self, sentence):
        """Gradient of the cost of one sentence: [(word, file)]."""
        for x, y in zip(self.refvars, self.variables):
            x.set_value(y.get_value())
        w = numpy.array([[x[0]] for x in sentence], 'int64')
        unk = self.v.word_to_id['<unk>']
        keep = numpy.array([[0.0 if self.exclude and x[0] == unk else 1.0] for x in sentence[1:]])
        out = self.grad(w, self.v.word_id_to_class_id[w].astype('int64'),
                        numpy.ones((len(w) - 1, 1), 'int8'), keep)
        return numpy.concatenate([numpy.asarray(x).ravel() for x in out])

    def sentences(self, r, longest):
        v = self.v
        unk, sb, eos = (v.word_to_id[w] for w in ('<unk>', '<s>', '</s>'))
        inner = [i for i in range(v.num_shortlist_words()) if i not in (sb, eos)]
        kind = r.random()
        res = []
        for _ in range(r.choice([1, 2, 3, 3, 4])):
            f = r.randrange(self.files)
            n = r.randint(1, longest)
            ws = [unk if r.random() < 0.25 else r.choice(inner) for _ in range(n)]
            if kind < 0.1:
                ws = [unk] * n                                # nothing but unknown words
            ws = [sb] + ws
            if kind >= 0.1 and r.random() < 0.8:
                ws.append(eos)
            mixed = r.random() < 0.3                          # words of several files
            res.append([(w, r.randrange(self.files) if mixed else f) for w in ws])
        return res

    def batch(self, r, sentences, steps):
        """Matrices of a mini-batch with arbitrary padding, and its positions."""
        n = len(sentences)
        nw = self.v.num_shortlist_words()
        w = numpy.array([[r.randrange(nw) for _ in range(n)] for _ in range(steps)], 'int64')
        c = self.v.word_id_to_class_id[w].astype('int64')
        f = numpy.array([[r.randrange(self.files) for _ in range(n)] for _ in range(steps)], 'int64')
        if r.random() < 0.4:                                  # what BatchIterator writes
            w[:], c[:], f[:] = 0, 0, 0
        m = numpy.zeros((steps, n), 'int8')
        for j, sent in enumerate(sentences):
            for t, (word, file_id) in enumerate(sent):
                w[t, j], f[t, j], m[t, j] = word, file_id, 1
                c[t, j] = self.v.word_id_to_class_id[word]
        unk = self.v.word_to_id['<unk>']
        pos = [[dict(m=int(m[t, j]), f=int(f[t, j]) + 1, w=int(w[t, j]), u=bool(self.exclude and w[t, j] == unk))
                for t in range(1, steps)] for j in range(n)]
        return (w, c, f, m), pos

    def train(self, arrays):
        self.opt.update_minibatch(*[x.copy() for x in arrays])


def train_case(job):
    key, method, cost, updates = job
    quiet()
    r = random.Random(key)
    nr = numpy.random.RandomState(r.randrange(2 ** 31))
    numpy.random.seed(r.randrange(2 ** 31))
    case = dict(method=method, cost=cost, ev=[], o={}, w=[], n=0)
    try:
        with silence(), numpy.errstate(all='ignore'):
            import theano
            theano.config.optimizer = 'fast_compile'
            t = Training(r, nr, method, cost)
            case.update(o={k: int(round(x * UNIT)) for k, x in t.o.items()}, w=units(t.weights), n=len(t.params()),
                        net=t.lines, sharing=t.sharing or 'none')
            for k in range(updates):
                sents = t.sentences(r, 3)
                steps = max(len(x) for x in sents) + r.choice([0, 0, 1, 2])
                arrays, pos = t.batch(r, sents, steps)
                t.no_tiny()
                before = t.params()
                if not numpy.all(numpy.isfinite(before)) or numpy.abs(before).max() > 5:
                    break
                if cost == 'cross-entropy':
                    G = [units(t.gradient(x)) for x in sents]
                start = t.snapshot()
                t.train(arrays)
                after = t.params()
                end = t.snapshot()
                if cost == 'cross-entropy':
                    case['ev'].append(dict(a='update', b=pos, G=G, before=units(before), after=units(after),
                                           tol=int(150 * max(1.0, t.o['lr']))))
                # The same words with other padding; in another order, if
                # the noise words do not depend on it.
                other, pos2 = t.batch(r, sents, steps)
                if cost == 'cross-entropy' or t.sharing is not None:
                    mixed = list(sents)
                    r.shuffle(mixed)
                    longer = r.choice([0, 0, 2]) if cost == 'cross-entropy' or t.sharing == 'batch' else 0
                    other, pos2 = t.batch(r, mixed, steps + longer)
                t.restore(start)
                t.train(other)
                case['ev'].append(dict(a='twin', b=pos, b2=pos2, before=units(before), after=units(after),
                                       after2=units(t.params())))
                if method not in ('nesterov', 'rmsprop-nesterov'):
                    t.opt._weights = numpy.ones(t.files)
                    t.restore(start)
                    t.train(arrays)
                    case['ev'].append(dict(a='scaled', b=pos, before=units(before), after=units(t.params()),
                                           after2=units(after)))
                    t.opt._weights = numpy.array(t.weights)
                rate = t.opt.learning_rate
                if r.random() < 0.5 or not any(p['m'] == 1 and not p['u'] for x in pos for p in x):
                    t.opt.learning_rate = rate * 0
                else:
                    t.opt._weights = numpy.zeros(t.files)
                t.restore(start)
                t.train(arrays)
                case['ev'].append(dict(a='still', before=units(before), after=units(t.params())))
                t.opt._weights = numpy.array(t.weights)
                t.opt.learning_rate = rate
                t.restore(end)
    except BaseException as e:                               # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        case['ev'].append(error_event(e))
    return case


def run(chk):
    quiet()
    every = ', '.join('"%s"' % x for x in METHODS)
    # Without TLC's coverage statistics, which take minutes here.
    chk.model_check('TrainStepMC', MC_CFG % chk.n((1, 2, 2, every), (2, 2, 2, every)), vacuity=False)
    chk.model_check('TrainStepMC', MC_CFG % chk.n((2, 2, 1, '"sgd"'), (3, 2, 1, '"sgd"')), vacuity=False)
    jobs = []
    for i in range(chk.n(84, 700)):
        method = METHODS[i % 7]
        cost = 'cross-entropy' if i % 3 else ['nce', 'blackout'][i // 3 % 2]
        jobs.append(('%d/update/%d' % (chk.seed, i), method, cost, chk.n(4, 6)))
    with multiprocessing.get_context('fork').Pool(8) as pool:
        cases = pool.map(train_case, jobs, chunksize=1)
    chk.random_scenarios = sum(len(c['ev']) for c in cases)
    chk.validate('TrainStepTrace', cases)
