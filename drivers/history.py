"""P11: what the predictions of real networks depend on, against History.tla."""
import multiprocessing
import random

import numpy

from vlib.tracing import quiet, silence, rng, error_event
from drivers import nets

MC_CFG = '''SPECIFICATION Spec
CONSTANTS Words = {"a", "b"}
 MaxLen = %d
 MaxSeqs = 2
 WindowSize = 2
 MaxHyps = %d
INVARIANTS ForwardPrefix BackwardSuffix WindowPrefix StepPrefix
CHECK_DEADLOCK FALSE
'''


def mic(x):
    return max(1, int(round(float(x) * 1e6))) if x > 0 else 0 if x == 0 else -1


def vec(p):
    return [mic(x) if numpy.isfinite(x) else -1 for x in p]


def matrix(r, v, text, words):
    """A mini-batch of the sentences; what pads them is arbitrary."""
    n = max(len(s) for s in text) + r.choice([0, 0, 1, 2])
    w = numpy.array([[r.randrange(words) for _ in text] for _ in range(n)], dtype='int64')
    m = numpy.zeros((n, len(text)), dtype='int8')
    for i, s in enumerate(text):
        w[:len(s), i] = s
        m[:len(s), i] = 1
    c = v.word_id_to_class_id[w].astype('int64')
    for i, s in enumerate(text):
        for t in range(len(s), n):
            c[t, i] = r.randrange(v.num_classes())
    return w, c, m


def network_case(args):
    seed, kind, steps = args
    quiet()
    r = random.Random(seed)
    numpy.random.seed(r.randrange(2 ** 31))
    nr = numpy.random.RandomState(r.randrange(2 ** 31))
    ev = []
    case = dict(ev=ev, net=['none'], classes=0, unk=-1, bidir=kind == 'bidir')
    with silence(), numpy.errstate(all='ignore'):
        try:
            one_network(r, nr, kind, steps, case)
        except Exception as e:                               # noqa
            ev.append(error_event(e))
    return case


def one_network(r, nr, kind, steps, case):
    import theano
    from theanolm.network import RecurrentState
    ev = case['ev']
    v = nets.words_vocabulary(r.randint(1, 8), classes=r.random() < 0.4)
    if kind == 'bidir':
        lines = nets.random_description(r, depth=0)[:-1]
        names = [x.split('name=')[1].split()[0] for x in lines if x.startswith('layer')]
        lines.append('layer type=%s name=b %s size=%d' % (
            r.choice(['blstm', 'bgru']), ' '.join('input=' + n for n in names), r.randint(4, 6)))
        last = 'b'
        if r.random() < 0.5:
            lines.append('layer type=%s name=f input=b size=4' % r.choice(['fc', 'tanh']))
            last = 'f'
        lines.append('layer type=%s name=out input=%s' % (r.choice(['softmax', 'hsoftmax']), last))
    else:
        types = nets.HIDDEN + ['lstm', 'gru']
        if kind == 'glu':
            types = types + ['glu', 'glu', 'glu']
        lines = nets.random_description(r, types=types)
    case['net'] = lines
    excl = 'type=softmax' in lines[-1] and r.random() < 0.4
    case['classes'] = int(v.num_classes())
    if excl:
        case['unk'] = int(v.word_id_to_class_id[v.word_to_id['<unk>']])
    net = nets.make(lines, v, exclude_unk=excl)
    nets.perturb(net, nr, 0.6)
    probs = nets.compile_probs(net)
    targets = theano.function(
        [net.input_word_ids, net.input_class_ids, net.target_class_ids, net.mask], net.target_probs(),
        givens=[(net.is_training, numpy.int8(0))], mode=theano.Mode(linker='py', optimizer=None),
        on_unused_input='ignore')
    words = v.num_shortlist_words()
    pool = []
    for _ in range(3):
        s = [r.randrange(words) for _ in range(r.randint(1, 5))]
        pool.append(s)
        # Sentences that share the beginning, or all but one word.
        pool.append(s[:r.randint(1, len(s))] + [r.randrange(words)])
        x = list(s)
        x[r.randrange(len(x))] = r.randrange(words)
        pool.append(x)

    def batch(text):
        w, c, m = matrix(r, v, text, words)
        keep = w.copy(), c.copy(), m.copy()
        out = probs(w, c, m)[0]
        ev.append(dict(a='batch', text=text,
                       out=[[vec(out[t, n]) for t in range(len(s))] for n, s in enumerate(text)]))
        if out.shape != w.shape + (v.num_classes(),) or any((a != b).any() for a, b in zip(keep, (w, c, m))):
            ev.append(dict(a='error', what='shape'))

    for s in pool[:3]:
        batch([s])
    for _ in range(4):
        batch([r.choice(pool) for _ in range(r.randint(1, 5))])
    for _ in range(2):
        text = [r.choice(pool) for _ in range(r.randint(1, 4))]
        batch(text)
        w, c, m = matrix(r, v, text, words)
        target = numpy.array([[r.randrange(v.num_classes()) for _ in text] for _ in w], dtype='int64')
        out = targets(w, c, target, m)
        ev.append(dict(a='target', text=text,
                       target=[[int(target[t, n]) for t in range(len(s))] for n, s in enumerate(text)],
                       out=[[mic(out[t, n]) for t in range(len(s))] for n, s in enumerate(text)]))
    if kind != 'step':
        return
    single = nets.make(lines, v, minibatch=False, exclude_unk=excl)
    mine = single.get_variables()
    for p, x in net.get_variables().items():
        mine[p].set_value(x.get_value())
    step = nets.compile_probs(single)
    sizes = list(single.recurrent_state_size)
    states = {}                              # hypothesis -> (RecurrentState, sequences)
    hyps = [(0, [])]
    made = 0
    for k in range(steps):
        # Feed words of the sentences, one to each of a few hypotheses.
        n = r.randint(1, 4)
        chosen = [r.choice(hyps) for _ in range(n)] if k else [hyps[0]] * n
        if k and r.random() < 0.7:
            chosen = [r.choice(hyps[-4:]) for _ in range(n)]
        nxt = []
        for h, past in chosen:
            cont = [s[len(past)] for s in pool if len(s) > len(past) and s[:len(past)] == past]
            nxt.append(r.choice(cont) if cont and r.random() < 0.8 else r.randrange(words))
        before = [states[h] if h else RecurrentState(sizes) for h, _ in chosen]
        kept = [[numpy.array(x) for x in b.get()] for b in before]
        state = RecurrentState.combine_sequences(before)
        w = numpy.array([nxt], dtype='int64')
        c = v.word_id_to_class_id[w].astype('int64')
        res = step(w, c, *state.get())
        out, after = res[0], res[1:]
        if any((a != b).any() for x, b0 in zip(kept, before) for a, b in zip(x, b0.get())):
            ev.append(dict(a='error', what='state changed'))
        ev.append({'a': 'step', 'from': [h for h, _ in chosen], 'words': nxt,
                   'out': [vec(out[0, i]) for i in range(n)]})
        for i, (h, past) in enumerate(chosen):
            made += 1
            states[made] = RecurrentState(sizes, 1, [x[:, i:i + 1, :] for x in after])
            hyps.append((made, past + [nxt[i]]))


def run(chk):
    chk.model_check('HistoryMC', MC_CFG % chk.n((3, 4), (4, 5)))
    r = rng(chk, 'history')
    kinds = ['step'] * 4 + ['glu', 'bidir']
    jobs = [(r.randrange(2 ** 48), kinds[i % len(kinds)], chk.n(8, 14)) for i in range(chk.n(240, 2400))]
    with multiprocessing.get_context('fork').Pool(8) as pool:
        cases = pool.map(network_case, jobs, chunksize=3)
    chk.random_scenarios = len(cases)
    chk.validate('HistoryTrace', cases)
    chk.assumptions += ['Theano evaluates its graphs correctly',
                        'a bidirectional layer is not followed by another layer that looks at other time steps']
