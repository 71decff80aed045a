"""P10: text scoring against TextScore.tla."""
import io
import math

import numpy

from vlib.tracing import quiet, silence, rng, error_event
from drivers import nets

MC_CFG = '''SPECIFICATION Spec
CONSTANTS MaxSentences = 2
 MaxLen = %d
INVARIANTS PerSentence WholeText EndCounts ExcludeLess Normalized
CHECK_DEADLOCK FALSE
'''
POOL = ['a', 'b', 'c', 'd', 'e', 'f', 'g']


class StubNetwork:
    """Predicts a class with a probability that is a function of all preceding
    words; see Stub in TextScoreTrace.tla."""

    def __init__(self, vocabulary):
        import theano
        from theano import tensor
        self.vocabulary = vocabulary
        self.input_word_ids = tensor.matrix('input_word_ids', dtype='int64')
        self.input_class_ids = tensor.matrix('input_class_ids', dtype='int64')
        self.target_class_ids = tensor.matrix('target_class_ids', dtype='int64')
        self.mask = tensor.matrix('mask', dtype='int8')
        self.oos_logprobs = None
        if vocabulary.has_unigram_probs():
            self.oos_logprobs = theano.shared(numpy.log(vocabulary.get_oos_probs()), 'oos')
        self.is_training = tensor.scalar('is_training', dtype='int8')

    def target_probs(self):
        from theano import tensor
        h = tensor.cumsum(3 * self.input_word_ids + self.input_class_ids + 1, axis=0)
        return ((h + 2 * self.target_class_ids) % 7 + 1).astype('float64') / 10.0


def mic(x):
    return int(round(float(x) * 1e6))


def score(lp):
    if lp is None:
        return dict(k='none')
    if numpy.isneginf(lp):
        return dict(k='zero')
    if not numpy.isfinite(lp):
        return dict(k='bad')
    return dict(k='v', p=mic(math.exp(lp)), x=mic(lp))


def random_vocabulary(r):
    from theanolm import Vocabulary
    pool = POOL[:]
    r.shuffle(pool)
    n = r.randint(1, 5)
    short, rest = pool[:n], pool[n:]
    oos = rest[:r.randint(0, 2)]
    counted = r.random() < 0.85
    special = [x for x in ['<s>', '</s>', '<unk>'] if r.random() < 0.2]
    labels = r.choice([1, 2, 3])
    lines = [dict(w=w, label=str(i % labels)) for i, w in enumerate(short)] + \
        [dict(w=w, label='s' + w) for w in special]
    r.shuffle(lines)
    ids = {lab: i for i, lab in enumerate(sorted({x['label'] for x in lines}))}
    text = ''.join('%s %d\n' % (x['w'], ids[x['label']]) for x in lines)
    v = Vocabulary.from_file(io.StringIO(text), 'classes', oos_words=oos)
    counts = {}
    if counted:
        counts = {w: r.choice([0, 1, 2, 3]) for w in short}
        counts.update({w: r.randint(1, 4) for w in oos})
        counts.update({'<s>': 3, '</s>': 3, '<unk>': r.choice([0, 2])})
        with numpy.errstate(all='ignore'):
            v.compute_probs(dict(counts))
    conf = dict(lines=lines, oos=oos, counted=counted, counts=counts or {'none': 0},
                words=[str(w) for w in v.id_to_word], cls=[int(x) for x in v.word_id_to_class_id])
    return v, conf


def batch_of(v, sentences, r):
    n = max(len(s) for s in sentences) + r.choice([0, 0, 1])
    w = numpy.array([[r.randrange(v.num_words()) for _ in sentences] for _ in range(n)], dtype='int64')
    m = numpy.zeros((n, len(sentences)), dtype='int8')
    for i, s in enumerate(sentences):
        w[:len(s), i] = v.words_to_ids(s)
        m[:len(s), i] = 1
    return w, m


def run_case(r, v, conf, scorer, short, excl, real=None, long=False):
    from theanolm.parsing import LinearBatchIterator
    ev = []
    case = dict(conf, ev=ev, short=short, excl=excl, stub=real is None)
    try:
        lines = []
        for _ in range(r.randint(2, 6)):
            lines.append([r.choice(POOL + ['<unk>', 'zz', 'o']) for _ in range(r.choice([0, 1, 2, 3, 4, 6]))])
        lines = [x for x in lines if x] + [['a']]
        if long:
            # More words in a mini-batch than a byte can count.
            base = [x for x in lines]
            lines = [r.choice(base) for _ in range(r.choice([40, 90, 120]))]
        text = [['<s>'] + x + ['</s>'] for x in lines]
        parts, i = [], 0
        while i < len(text):
            k = r.randint(1, 3) if not long else r.choice([30, 60, 200])
            parts.append(text[i:i + k])
            i += k
        for part in parts:
            w, m = batch_of(v, part, r)
            cls, mem = v.get_class_memberships(w)
            keep = w.copy(), cls.copy(), mem.copy(), m.copy()
            res = scorer.score_batch(w, cls, mem, m)
            if any((x != y).any() for x, y in zip(keep, (w, cls, mem, m))):
                ev.append(dict(a='error', what='arguments changed'))
            e = dict(a='batch', text=part, scores=[[score(x) for x in s] for s in res])
            if real is not None:
                e['cp'] = real(w, cls, m, part)
            ev.append(e)
        for s in r.sample(text, min(3, len(text))):
            ids = numpy.asarray(v.words_to_ids(s))
            cls, mem = v.get_class_memberships(ids)
            ev.append(dict(a='seq', text=s, x=mic(scorer.score_sequence(ids, cls, mem))))
        scorer.num_words = scorer.num_unks = 0
        for x in lines + [[]]:
            s = list(x)
            if s and r.random() < 0.3:
                s = ['<s>'] + s
            if s and r.random() < 0.3:
                s = s + ['</s>']
            total = scorer.score_line(' '.join(s) + '\n', v)
            ev.append(dict(a='line', line=s, none=total is None, x=0 if total is None else mic(total),
                           words=int(scorer.num_words), unks=int(scorer.num_unks)))
        it = LinearBatchIterator([io.StringIO('\n'.join(' '.join(x) for x in lines) + '\n')], v,
                                 batch_size=r.randint(1, 4) if not long else r.choice([50, 100, 200]), map_oos_to_unk=False)
        try:
            ppl = scorer.compute_perplexity(it)
            ev.append(dict(a='ppl', text=text, none=False, x=mic(math.log(ppl))))
        except ValueError:
            ev.append(dict(a='ppl', text=text, none=True, x=0))
    except Exception as e:                                   # noqa
        ev.append(error_event(e))
    return case


def real_network(r, nr, v):
    """A real network and a function giving its class probabilities."""
    lines = nets.random_description(r, depth=1, types=['fc', 'lstm', 'gru'])
    net = nets.make(lines, v)
    nets.perturb(net, nr)
    fn = nets.compile_probs(net)

    def probs(w, cls, m, part):
        w = w.copy()
        w[w >= v.num_shortlist_words()] = v.word_to_id['<unk>']
        out = fn(w[:-1], cls[:-1], m[:-1])[0]
        return [[mic(out[i, n, cls[i + 1, n]]) for i in range(len(s) - 1)] for n, s in enumerate(part)]
    return net, probs


def run(chk):
    from theanolm.scoring import TextScorer
    quiet()
    chk.model_check('TextScoreMC', MC_CFG % chk.n(2, 3))
    r = rng(chk, 'textscore')
    nr = numpy.random.RandomState(chk.seed)
    numpy.random.seed(chk.seed)
    cases = []
    nv, per = chk.n(20, 150), chk.n(8, 20)
    with silence(), numpy.errstate(all='ignore'):
        for k in range(nv):
            v, conf = random_vocabulary(r)
            for short in (False, True):
                for excl in (False, True):
                    scorer = TextScorer(StubNetwork(v), use_shortlist=short, exclude_unk=excl)
                    for _ in range(per):
                        cases.append(run_case(r, v, conf, scorer, short, excl))
                    if k % 4 == 0:
                        cases.append(run_case(r, v, conf, scorer, short, excl, long=True))
        for k in range(chk.n(4, 40)):
            v, conf = random_vocabulary(r)
            net, probs = real_network(r, nr, v)
            short, excl = r.choice([(False, False), (True, False), (False, True), (True, True)])
            scorer = TextScorer(net, use_shortlist=short, exclude_unk=excl)
            for _ in range(per):
                cases.append(run_case(r, v, conf, scorer, short, excl, probs))
    chk.random_scenarios = len(cases)
    chk.validate('TextScoreTrace', cases)
    chk.assumptions += ['every out-of-shortlist word of the vocabulary occurs in the training data']
