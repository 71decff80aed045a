"""P22: networks built from descriptions against Layers.tla."""
import multiprocessing
import random

import numpy

from vlib.tracing import quiet, silence, error_event
from drivers import nets

MC_CFG = '''SPECIFICATION Spec
CONSTANTS Depth = %d
 MaxLen = %d
 Types = {%s}
INVARIANTS SumsToOne NotNegative Causal NextWordUnseen StepsAgree ExcludedGetsNothing DropoutMean Shapes
CHECK_DEADLOCK FALSE
'''
TYPES = ['fc', 'tanh', 'highway', 'highwaytanh', 'add', 'lstm', 'gru', 'blstm', 'bgru', 'glu', 'dropout']
UNIT = 100000
NOTHING = 1390000


def units(x, limit=1.3e6):
    x = numpy.asarray(x, 'float64') * UNIT
    x = numpy.where(numpy.isfinite(x), numpy.clip(x, -limit, limit), NOTHING)
    return numpy.rint(x).astype('int64').tolist()


def element(kind, type, name, inputs=(), size=-1, activation='', filter=-1, rate=-1):
    return dict(kind=kind, type=type, name=name, inputs=list(inputs), size=size,
                activation=activation, filter=filter, rate=rate, well=1)


def describe(r, dropout=False):
    """Elements of a network, with the sizes of their outputs."""
    els, made = [], []
    for k in range(r.choice([1, 1, 2])):
        els.append(element('input', r.choice(['word', 'class']), 'in%d' % k))
    for k in range(len(els)):
        s = r.randint(2, 3)
        els.append(element('layer', 'projection', 'proj%d' % k, ['in%d' % k], s))
        made.append(('proj%d' % k, s))
    where = -1
    depth = r.choice([1, 1, 2, 2, 3])
    types = ['fc', 'tanh', 'highway', 'add'] if dropout else TYPES
    if dropout:
        where = r.randrange(depth)
    for k in range(depth):
        t = 'dropout' if k == where else r.choice(types)
        ins = [made[-1]] + ([r.choice(made)] if t != 'glu' and k != where and r.random() < 0.35 else [])
        if k == 0 and len(made) > 1 and t not in ('glu', 'dropout'):
            ins = list(made)
        r.shuffle(ins)
        total = sum(s for _, s in ins)
        if total > 6:
            ins, total = ins[:1], ins[0][1]
        size = s = -1
        if t in ('highway', 'highwaytanh', 'dropout'):
            s = total
            size = r.choice([-1, -1, s])
        elif t == 'add':
            s = ins[0][1]
            if r.random() < 0.4:
                size = s = r.randint(2, 3)
        else:
            s = total
            if total > 4 or (t in ('blstm', 'bgru') and total < 4) or (t in ('lstm', 'gru') and total < 2) or r.random() < 0.75:
                size = s = (r.randint(4, 5) if t in ('blstm', 'bgru') else r.randint(2, 3) if t in ('lstm', 'gru')
                            else r.randint(1, 3))
        activation = r.choice(['', 'tanh', 'relu', 'leakyrelu']) if r.random() < 0.6 else ''
        if dropout:
            activation = ''
        els.append(element('layer', t, 'h%d' % k, [n for n, _ in ins], size, activation,
                           r.choice([-1, 1, 2, 3, 4]) if t == 'glu' else -1,
                           r.choice([-1, 10000, 25000, 50000, 75000]) if t == 'dropout' else -1))
        made.append(('h%d' % k, s))
    ins = [made[-1][0]] + ([r.choice(made)[0]] if not dropout and r.random() < 0.3 else [])
    els.append(element('layer', r.choice(['softmax', 'softmax', 'hsoftmax']), 'out', ins,
                       r.choice([-1, -1, -1, 3])))
    return els


def spoil(r, els):
    """Makes the description one that no network can be built from."""
    layers = [e for e in els if e['kind'] == 'layer']
    e = r.choice(layers)
    what = r.choice(['type', 'name', 'inputs', 'unknown', 'kind', 'activation', 'well', 'later', 'fit', 'noinput',
                     'nolayer', 'badtype', 'inputtype', 'inputname'])
    if what == 'type':
        e['type'] = ''
    elif what == 'name':
        e['name'] = ''
    elif what == 'inputs':
        e['inputs'] = []
    elif what == 'unknown':
        e['inputs'] = e['inputs'] + ['nobody']
    elif what == 'kind':
        e['kind'] = 'layers'
    elif what == 'activation':
        e['activation'] = 'sigmoid'
    elif what == 'well':
        e['well'] = 0
    elif what == 'later':
        e['inputs'] = [e['name']]
    elif what == 'badtype':
        e['type'] = 'rnn'
    elif what == 'noinput':
        els[:] = layers
    elif what == 'nolayer':
        els[:] = [x for x in els if x['kind'] == 'input']
    elif what == 'inputtype':
        els[0]['type'] = r.choice(['words', ''])
    elif what == 'inputname':
        els[0]['name'] = ''
    else:
        e = r.choice(layers[:-1])
        e['type'], e['size'] = r.choice(['highway', 'dropout', 'highwaytanh']), 7


def text(r, els):
    """The elements as a description file."""
    lines = []
    for e in els:
        fields = [('type', e['type']), ('name', e['name'])]
        fields += [('input', n) for n in e['inputs']]
        if e['size'] != -1:
            fields.append(('size', e['size']))
        if e['activation']:
            fields.append(('activation', e['activation']))
        if e['filter'] != -1:
            fields.append(('filter_size', e['filter']))
        if e['rate'] != -1:
            fields.append(('dropout_rate', e['rate'] / UNIT))
        fields = ['%s=%s' % x for x in fields if x[1] != '']
        if r.random() < 0.5:                                 # the order of the inputs is kept
            ins = [x for x in fields if x.startswith('input=')]
            r.shuffle(fields)
            fields = [ins.pop(0) if x.startswith('input=') else x for x in fields]
        if not e['well']:
            fields.insert(r.randint(0, len(fields)), 'fast')
        lines.append(r.choice([' ', '  ', '\t']).join([e['kind']] + fields))
        if r.random() < 0.1:
            lines.append(r.choice(['', '# comment', '   ', '#layer type=tanh name=x input=y']))
    return '\n'.join(lines) + '\n'


def build(vocab, source, **kw):
    from theanolm.network import Network, Architecture
    minibatch = kw.pop('minibatch', True)
    return Network(Architecture.from_description(nets.description(source)), vocab,
                   mode=Network.Mode(minibatch=minibatch), **kw)


LINEAR = ('relu', 'leakyrelu')


def fill(r, els, net):
    """Parameters that keep all the values inside the specification's range."""
    bound = {}
    values = net.get_variables()
    new = {}

    def put(path, n, high):
        if path in values:
            x = values[path].get_value()
            a = min(1.3, 8.0 / (n * high))
            new[path] = numpy.array([round(r.uniform(-a, a), 4) for _ in range(x.size)]).reshape(x.shape)

    for e in els:
        base = 'layers/' + e['name'] + '/'
        if e['kind'] == 'input':
            bound[e['name']] = 1.0
            continue
        high = max(bound[x] for x in e['inputs'])
        mine = [p for p in values if p.startswith(base)]
        total = 1
        for p in mine:
            shape = values[p].get_value().shape
            if p.endswith('step_input/W'):
                put(p, shape[0], 8.0 if e['activation'] in LINEAR else 1.0)
            elif p.endswith('/b'):
                put(p, 1, 8.0)
            elif e['type'] == 'projection':
                put(p, 1, 1.0)
            else:
                n = shape[0] * (shape[1] if e['type'] == 'glu' else 1)
                if e['type'] == 'hsoftmax' and len(shape) == 3:
                    n = shape[1]
                total = max(total, n)
                put(p, n, high)
        if e['type'] == 'projection':
            bound[e['name']] = 1.3
        elif e['type'] in ('fc', 'tanh'):
            bound[e['name']] = 9.0 if e['activation'] in LINEAR else 1.0
        elif e['type'] in ('highway', 'highwaytanh'):
            bound[e['name']] = max(high, 9.0 if e['activation'] in LINEAR else 1.0)
        elif e['type'] == 'add':
            bound[e['name']] = min(13.0, len(e['inputs']) * (8.0 if mine else high))
        elif e['type'] == 'glu':
            bound[e['name']] = 9.0
        elif e['type'] == 'dropout':
            bound[e['name']] = high
        else:
            bound[e['name']] = 8.0 if e['activation'] in LINEAR else 1.0
    for p, x in new.items():
        values[p].set_value(x.astype(values[p].get_value().dtype))
    return new


def compile_run(net):
    import theano
    ins = [net.input_word_ids, net.input_class_ids, net.target_class_ids, net.is_training]
    outs = [net.output_probs(), net.target_probs()]
    if net.mode.minibatch:
        ins.append(net.mask)
    else:
        ins += net.recurrent_state_input
        outs += net.recurrent_state_output
    return theano.function(ins, outs, mode=theano.Mode(linker='py', optimizer=None), on_unused_input='ignore')


def setting(r):
    v = nets.words_vocabulary(r.randint(1, 6), classes=r.random() < 0.4)
    skip = v.word_id_to_class_id[v.word_to_id['<unk>']] if r.random() < 0.3 else -1
    return v, int(skip)


def case_of(v, skip, els):
    return dict(D=dict(el=els, words=v.num_shortlist_words(), classes=v.num_classes()), skip=skip + 1,
                prior=[], par=[], ev=[])


def batch(v, r, lengths, steps):
    n = v.num_shortlist_words()
    w = numpy.array([[r.randrange(n) for _ in lengths] for _ in range(steps)], 'int64')
    m = numpy.array([[int(t < k) for k in lengths] for t in range(steps)], 'int8')
    c = v.word_id_to_class_id[w].astype('int64')
    return w, c, m


def layers_case(args):
    seed, kind = args
    r = random.Random(seed)
    numpy.random.seed(r.randrange(2 ** 31))
    nets.theano_convolution()
    v, skip = setting(r)
    els = describe(r, dropout=kind == 'train')
    if kind == 'bad':
        spoil(r, els)
    case = case_of(v, skip, els)
    if kind == 'bad':
        # Networks are built with the inputs first.
        case['D']['el'] = [e for e in els if e['kind'] == 'input'] + [e for e in els if e['kind'] != 'input']
    try:
        with silence():
            source = text(r, els)
            prior = None
            if r.random() < 0.4:
                prior = numpy.array([r.randint(0 if r.random() < 0.3 else 1, 6) for _ in range(v.num_classes())], 'float64')
                prior = prior / prior.sum() if prior.sum() else None
            kw = {} if prior is None else dict(class_prior_probs=prior)
            case['prior'] = [] if prior is None else units(prior)
            try:
                net = build(v, source, exclude_unk=skip >= 0, **kw)
            except Exception as e:                           # noqa
                case['ev'].append(dict(a='refused', **{'class': type(e).__name__, 'what': str(e)[:100]}))
                return case
            created = []
            for p, x in sorted(net.get_variables().items()):
                x = x.get_value()
                created.append(dict(path=p, dims=list(x.shape), bias=p.endswith('/b'),
                                    v=numpy.ravel(units(x, 2.4e6)).tolist()))
            case['ev'].append(dict(a='new', par=created))
            if kind == 'bad':
                return case
            values = fill(r, els, net)
            case['par'] = [dict(path=p, dims=list(x.shape), v=numpy.ravel(units(x)).tolist())
                           for p, x in sorted(values.items())]
            run = compile_run(net)
            if kind == 'train':
                train(r, v, run, case)
                return case
            longest = r.randint(2, 5)
            lengths = [r.randint(1, longest) for _ in range(r.randint(1, 3))]
            w, c, m = batch(v, r, lengths, longest + r.choice([0, 0, 1]))
            target = numpy.array([[r.randrange(v.num_classes()) for _ in lengths] for _ in range(len(w))], 'int64')
            out, tp = run(w, c, target, numpy.int8(0), m)
            for i, k in enumerate(lengths):
                case['ev'].append(dict(a='run', word=(w[:k, i] + 1).tolist(), want=(target[:k, i] + 1).tolist(),
                                       out=units(out[:k, i]), target=units(tp[:k, i]), tol=60,
                                       **{'class': (c[:k, i] + 1).tolist()}))
            if not any(e['type'] in ('glu', 'blstm', 'bgru') for e in els) and r.random() < 0.6:
                steps(r, v, source, skip, values, case)
    except BaseException as e:                               # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        case['ev'].append(error_event(e))
    return case


def steps(r, v, source, skip, values, case):
    """Time step by time step, two sentences in parallel."""
    from theanolm.network import RecurrentState
    net = build(v, source, exclude_unk=skip >= 0, minibatch=False)
    for p, x in net.get_variables().items():
        x.set_value(values[p].astype(x.get_value().dtype))
    run = compile_run(net)
    state = RecurrentState(net.recurrent_state_size, num_sequences=2)
    w, c, _ = batch(v, r, [4, 4], 4)
    target = numpy.array([[r.randrange(v.num_classes()) for _ in range(2)] for _ in range(4)], 'int64')
    outs, tps = [], []
    for t in range(4):
        res = run(w[t:t + 1], c[t:t + 1], target[t:t + 1], numpy.int8(0), *state.get())
        outs.append(res[0][0])
        tps.append(res[1][0])
        state = RecurrentState(net.recurrent_state_size, 2, list(res[2:]))
    outs, tps = numpy.array(outs), numpy.array(tps)
    for i in range(2):
        case['ev'].append(dict(a='run', word=(w[:, i] + 1).tolist(), want=(target[:, i] + 1).tolist(),
                               out=units(outs[:, i]), target=units(tps[:, i]), tol=60,
                               **{'class': (c[:, i] + 1).tolist()}))


def train(r, v, run, case):
    """One word at many places of a mini-batch."""
    T, N = 8, 30
    word = r.randrange(v.num_shortlist_words())
    w = numpy.full((T, N), word, 'int64')
    c = v.word_id_to_class_id[w].astype('int64')
    out, _ = run(w, c, c, numpy.int8(1), numpy.ones((T, N), 'int8'))
    case['ev'].append(dict(a='train', word=[word + 1], out=units(out.reshape(T * N, -1)), tol=60,
                           **{'class': [int(c[0, 0]) + 1]}))


def run(chk):
    quiet()
    every = ', '.join('"%s"' % x for x in ['fc', 'highway', 'add', 'lstm', 'gru', 'blstm', 'bgru', 'glu', 'dropout'])
    chk.model_check('LayersMC', MC_CFG % chk.n((2, 2, every), (2, 3, every)), vacuity=False)
    if chk.thorough:
        chk.model_check('LayersMC', MC_CFG % (3, 2, every), vacuity=False)
    jobs = []
    for i in range(chk.n(420, 3000)):
        kind = 'bad' if i % 6 == 0 else 'train' if i % 6 == 3 else 'run'
        jobs.append(('%d/layers/%d' % (chk.seed, i), kind))
    with multiprocessing.get_context('fork').Pool(8) as pool:
        cases = pool.map(layers_case, jobs, chunksize=1)
    chk.random_scenarios = sum(len(c['ev']) for c in cases)
    chk.validate('LayersTrace', cases)
