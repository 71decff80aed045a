"""P13, P14: lattice decoding against LatticeDecode.tla."""
import io
import math
import multiprocessing
import random

import numpy

from vlib.tracing import quiet, silence, rng, error_event
from drivers import nets

MC_CFG = '''SPECIFICATION Spec
CONSTANTS N = 4
 MaxLinks = %d
 Words = {"a", "b"}
 Orders = %s
 Maxes <- %s
 Beams <- %s
 LinkScore <- MCLinkScore
 EndScore <- MCEndScore
 EndWord <- MCEndWord
INVARIANTS RealPaths Exhaustive Found DropWorse NodeLimit OrderOk
CHECK_DEADLOCK FALSE
'''
TRACE_CFG = '''INIT TraceInit
NEXT TraceNext
CONSTANTS LinkScore <- TraceLinkScore
 EndScore <- TraceEndScore
 EndWord <- TraceEndWord
 LogDrops = FALSE
CHECK_DEADLOCK FALSE
'''
POOL = ['a', 'b', 'c', 'd', 'e', 'f', 'g']
# Words outside the vocabulary, some of which look like word IDs or other words combined.
ODD = [[], [], ['zz'], ['<unk>'], ['1', '2'], ['0', '3'], ['4', '5'], ['ab'], ['b_c', 'a_b']]
UNIT = 100000


def unit(x):
    return int(round(float(x) * UNIT)) if numpy.isfinite(x) else -2000000000


class StubNetwork:
    """A recurrent network whose predictions are a function of all preceding
    words; see Hash in LatticeDecodeTrace.tla."""

    def __init__(self, vocabulary):
        from theano import tensor
        self.vocabulary = vocabulary
        self.input_word_ids = tensor.matrix('input_word_ids', dtype='int64')
        self.input_class_ids = tensor.matrix('input_class_ids', dtype='int64')
        self.target_class_ids = tensor.matrix('target_class_ids', dtype='int64')
        self.mask = tensor.matrix('mask', dtype='int8')
        self.is_training = tensor.scalar('is_training', dtype='int8')
        self.recurrent_state_input = [tensor.tensor3('state0'), tensor.tensor3('state1')]
        h = self.recurrent_state_input[0][:, :, 0]
        new = (3 * h + self.input_word_ids + 2 * self.input_class_ids + 1) % 101
        self.recurrent_state_output = [tensor.stack([new, new + 1], axis=2),
                                       self.recurrent_state_input[1] + 1]
        self.recurrent_state_size = [2, 1]
        self._probs = tensor.exp(-(20.0 + (7 * new + 13 * self.target_class_ids) % 97) / 40.0)

    def target_probs(self):
        return self._probs


def vocabulary(r):
    from theanolm import Vocabulary
    pool = POOL[:]
    r.shuffle(pool)
    n = r.randint(1, 5)
    short, rest = pool[:n], pool[n:]
    oos = rest[:r.randint(0, 2)]
    counted = r.random() < 0.8
    labels = r.choice([1, 2, 3])
    lines = [dict(w=w, label=str(i % labels)) for i, w in enumerate(short)]
    r.shuffle(lines)
    ids = {lab: i for i, lab in enumerate(sorted({x['label'] for x in lines}))}
    text = ''.join('%s %d\n' % (x['w'], ids[x['label']]) for x in lines)
    v = Vocabulary.from_file(io.StringIO(text), 'classes', oos_words=oos)
    counts = {}
    if counted:
        counts = {w: r.randint(1, 4) for w in short + oos}
        counts.update({'<s>': 3, '</s>': 3, '<unk>': r.choice([0, 2])})
        v.compute_probs(dict(counts))
    conf = dict(lines=lines, oos=oos, counted=counted, counts=counts or {'none': 0},
                words=[str(w) for w in v.id_to_word], cls=[int(x) for x in v.word_id_to_class_id],
                ln=[unit(math.log(i)) for i in range(1, 41)])
    return v, conf


def score(r, top=6.0):
    return r.randint(-int(top * UNIT), -1)


def number(r):
    return 0 if r.random() < 0.2 else r.randint(-UNIT, UNIT)


def random_lattice(r, words, kaldi, size):
    """Nodes 1..n; in a topological order, but for the numbering."""
    n = r.randint(2, size)
    pairs = [(i, i + 1) for i in range(1, n)]                # everything is on a path
    for _ in range(r.randint(0, size)):
        i = r.randint(1, n - 1)
        pairs.append((i, r.randint(i + 1, n)))
    if r.random() < 0.5:
        # Skip some of the chain, keeping every node reachable.
        for p in list(pairs[:n - 1]):
            if r.random() < 0.25 and any(q != p and q[1] == p[1] for q in pairs) and \
                    any(q != p and q[0] == p[0] for q in pairs):
                pairs.remove(p)
    r.shuffle(pairs)
    links = []
    for s, e in pairs:
        w = r.choice(words) if r.random() < 0.8 else ''
        nm = not kaldi and r.random() < 0.1
        links.append(dict(s=s, e=e, w=w, a=score(r) if kaldi or r.random() < 0.9 else 0,
                          m=0 if nm else score(r), nm=nm))
    finals = [n]
    # Times grow along the links.
    timed = not kaldi and r.random() < 0.6
    time = [-1] * n
    if timed:
        time = sorted(r.sample(range(0, 10 * n), n)) if r.random() < 0.8 else \
            sorted(r.randint(0, 3 * n) for _ in range(n))
    if kaldi:
        extra = [x for x in range(1, n) if r.random() < 0.3]
        for x in sorted({n} | set(extra)):
            links.append(dict(s=x, e=n + 1, w='', a=score(r), m=score(r), nm=False))
        n, finals, time = n + 1, [n + 1], time + [-1]
    # Node numbers are arbitrary.
    order = list(range(1, n + 1))
    if not kaldi:
        r.shuffle(order)
    else:
        inner = order[1:-1]
        r.shuffle(inner)
        order = [1] + inner + [n]
    num = {i + 1: order[i] for i in range(n)}
    links = [dict(k, s=num[k['s']], e=num[k['e']]) for k in links]
    time = [time[i - 1] for _, i in sorted((num[i], i) for i in range(1, n + 1))]
    return dict(n=n, links=links, init=num[1], finals=[num[f] for f in finals], time=time,
                hasscale=not kaldi and r.random() < 0.4, scale=r.choice([0, 2, 2]), haswip=False, wip=0)


def paths(lat):
    """Number of paths, or a large number."""
    out = {}
    for k in lat['links']:
        out.setdefault(k['s'], []).append(k['e'])
    memo = {}

    def count(x):
        if x not in memo:
            memo[x] = (1 if x in lat['finals'] else 0) + sum(count(y) for y in out.get(x, []))
        return memo[x]
    return count(lat['init'])


def dec(x):
    return '%s%d.%05d' % ('-' if x < 0 else '', abs(x) // UNIT, abs(x) % UNIT)


def slf_text(lat, r):
    lines = ['VERSION=1.0', 'UTTERANCE=utt']
    if lat['hasscale']:
        lines.append('lmscale=%d' % lat['scale'])
    if lat['haswip']:
        lines.append('wdpenalty=%s' % dec(lat['wip']))
    lines += ['start=%d' % (lat['init'] - 1), 'N=%d L=%d' % (lat['n'], len(lat['links']))]
    for i in range(lat['n']):
        lines.append('I=%d' % i + ('' if lat['time'][i] < 0 else ' t=%s' % (lat['time'][i] / 4.0)))
    for i, k in enumerate(lat['links']):
        f = 'J=%d S=%d E=%d' % (i, k['s'] - 1, k['e'] - 1)
        f += ' W=%s' % (k['w'] or '!NULL')
        if k['a'] or r.random() < 0.5:
            f += ' a=%s' % dec(k['a'])
        if not k['nm']:
            f += ' l=%s' % dec(k['m'])
        lines.append(f)
    return '\n'.join(lines) + '\n'


def kaldi_lines(lat, word_ids, r):
    body = {}
    for k in lat['links']:
        weight = '%s,%s,1_2' % (dec(-k['m']), dec(-k['a']))
        if k['e'] in lat['finals']:
            line = '%d %s' % (k['s'] - 1, weight)
        else:
            line = '%d %d %d %s' % (k['s'] - 1, k['e'] - 1, word_ids[k['w'] or '<eps>'], weight)
        body.setdefault(k['s'], []).append(line)
    first = body.pop(lat['init'])
    rest = list(body.values())
    r.shuffle(rest)
    return ['utt'] + first + [x for g in rest for x in g]


def make_lattice(lat, kaldi, r):
    from theanolm.scoring.slflattice import SLFLattice
    from theanolm.scoring.kaldilattice import KaldiLattice
    if kaldi:
        names = ['<eps>'] + sorted({k['w'] for k in lat['links'] if k['w']})
        return KaldiLattice(kaldi_lines(lat, {w: i for i, w in enumerate(names)}, r), names)
    return SLFLattice(io.StringIO(slf_text(lat, r)))


def options(r, prop):
    o = dict(weight=r.randint(0, 4), hasscale=r.random() < 0.75, scale=r.choice([0, 1, 1, 2, 2, 3, 3]),
             haswip=r.random() < 0.5, wip=number(r), order=0, max=-1, beam=-1, extra=0, minbeam=0, minmax=0)
    if prop == 'P14':
        while o['order'] == 0 and o['max'] == -1 and o['beam'] == -1 and r.random() < 0.95:
            o['order'] = r.choice([0, 0, 1, 2, 3])
            o['max'] = r.choice([-1, -1, 1, 2, 3, 5, 100])
            o['beam'] = r.choice([-1, -1, 0, 1, 2, 4, 8, 1000]) * (1 if r.random() < 0.1 else UNIT)
            o['beam'] = -1 if o['beam'] < 0 else o['beam']
        if r.random() < 0.25:
            o['extra'] = r.choice([1, 2, 3, 5])
            o['minbeam'] = r.choice([0, UNIT, 3 * UNIT])
            o['minmax'] = r.choice([0, 1, 2, 4])
    return o


def lin(nn, lat, weight):
    w = weight / 4.0
    parts = []
    if w > 0:
        parts.append(math.log(w) + nn)
    if w < 1:
        parts.append(math.log(1 - w) + lat)
    m = max(parts)
    return m + math.log(sum(math.exp(p - m) for p in parts)) if m > -1e300 else m


def decode_event(decoder, v, lat, kaldi, r, weight):
    lattice = make_lattice(lat, kaldi, r)
    toks, _ = decoder.decode(lattice)
    return dict(a='decode', lat=lat, toks=[dict(
        h=[str(w) for w in t.history_words(v)], a=unit(t.ac_logprob), m=unit(t.lat_lm_logprob),
        n=unit(t.nn_lm_logprob), g=unit(t.graph_logprob), t=unit(t.total_logprob),
        lin=unit(lin(float(t.nn_lm_logprob), float(t.lat_lm_logprob), weight))) for t in toks])


def sequences(lat):
    """Word sequences of the paths, with a table entry needed for each prefix."""
    out = {}
    for k in lat['links']:
        out.setdefault(k['s'], []).append(k)
    res = set()

    def walk(x, h):
        if x in lat['finals']:
            res.add(h)
        for k in out.get(x, []):
            walk(k['e'], h + ((k['w'],) if k['w'] else ()))
    walk(lat['init'], ())
    return sorted(res)


def real_table(probs, v, lat):
    """Class scores of all prefixes by the mini-batch network."""
    table = {}
    n_short = v.num_shortlist_words()
    unk = v.word_to_id['<unk>']

    def wid(w):
        i = v.word_to_id.get(w, unk)
        return i if i < n_short else unk
    for s in sequences(lat):
        ids = [wid(w) for w in ('<s>',) + s + ('</s>',)]
        x = numpy.array([ids[:-1]], dtype='int64').T
        c = v.word_id_to_class_id[x].astype('int64')
        out = probs(x, c, numpy.ones_like(x, dtype='int8'))[0]
        full = list(s) + ['</s>']
        for i in range(len(full)):
            table[tuple(full[:i + 1])] = unit(math.log(out[i, 0, v.word_id_to_class_id[ids[i + 1]]]))
    return [dict(h=list(h), x=x) for h, x in sorted(table.items())]


def make_decoder(network, case):
    from theanolm.scoring import LatticeDecoder
    o = case['opt']
    return LatticeDecoder(network, {
        'nnlm_weight': o['weight'] / 4.0, 'lm_scale': float(o['scale']) if o['hasscale'] else None,
        'wi_penalty': o['wip'] / UNIT if o['haswip'] else None,
        'unk_penalty': case['penalty']['x'] / UNIT if case['penalty']['has'] else None,
        'use_shortlist': case['short'], 'unk_from_lattice': case['fromlat'],
        'linear_interpolation': case['linear'],
        'max_tokens_per_node': None if o['max'] < 0 else o['max'],
        'beam': None if o['beam'] < 0 else o['beam'] / UNIT,
        'recombination_order': o['order'] or None,
        'prune_extra_limit': o['extra'] or None,
        'abs_min_beam': o['minbeam'] / UNIT, 'abs_min_max_tokens': o['minmax']})


def decoder_case(args):
    seed, prop, lattices, size, real = args
    quiet()
    r = random.Random(seed)
    v, conf = vocabulary(r)
    o = options(r, prop)
    pen = r.random() < 0.4
    case = dict(conf, opt=o, short=r.random() < 0.5, fromlat=r.random() < 0.3, linear=r.random() < 0.25,
                penalty=dict(has=pen, x=score(r) if pen and r.random() < 0.8 else 0), stub=not real, ev=[])
    with silence(), numpy.errstate(all='ignore'):
        try:
            if real:
                numpy.random.seed(r.randrange(2 ** 31))
                lines = nets.random_description(r, types=['lstm', 'gru', 'fc', 'highwaytanh'])
                mini = nets.make(lines, v)
                nets.perturb(mini, numpy.random.RandomState(r.randrange(2 ** 31)), 0.6)
                network = nets.make(lines, v, minibatch=False)
                mine = network.get_variables()
                for p, x in mini.get_variables().items():
                    mine[p].set_value(x.get_value())
                probs = nets.compile_probs(mini)
            else:
                network = StubNetwork(v)
            decoder = make_decoder(network, case)
            words = r.sample(POOL, r.randint(2, 5)) + r.choice(ODD)
            done = 0
            while done < lattices:
                kaldi = r.random() < 0.4
                lat = random_lattice(r, words, kaldi, size)
                if paths(lat) > 60:
                    continue
                if not kaldi and r.random() < 0.3:
                    lat['haswip'], lat['wip'] = True, number(r)
                done += 1
                e = decode_event(decoder, v, lat, kaldi, r, o['weight'])
                if real:
                    e['table'] = real_table(probs, v, lat)
                case['ev'].append(e)
        except Exception as e:                               # noqa
            case['ev'].append(error_event(e))
    return case


def run(chk):
    if chk.prop == 'P13':
        chk.model_check('LatticeDecodeMC', MC_CFG % (chk.n(3, 4), '{0}', 'MCNone', 'MCNone'))
    else:
        chk.model_check('LatticeDecodeMC', MC_CFG % (chk.n(3, 4), chk.n('{0, 1}', '{0, 1, 2}'), 'MCMaxes', 'MCBeams'))
    r = rng(chk, 'decoder' + chk.prop)
    n = chk.n(300, 3000)
    jobs = [(r.randrange(2 ** 48), chk.prop, chk.n(14, 25), chk.n(7, 8), i % 12 == 0) for i in range(n)]
    with multiprocessing.get_context('fork').Pool(8) as pool:
        cases = pool.map(decoder_case, jobs, chunksize=2)
    chk.random_scenarios = sum(len(c['ev']) for c in cases)
    chk.validate('LatticeDecodeTrace', cases, cfg=TRACE_CFG)
