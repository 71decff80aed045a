"""P09: architectures, networks and model files against ModelFile.tla."""
import os

import h5py
import numpy

from vlib.tracing import quiet, silence, rng, error_event
from drivers import nets

MC_CFG = '''SPECIFICATION Spec
CONSTANTS Names = {"x", "y"}
 OptNames = {"size"}
 OptValues = {"1", "2"}
 Paths = {1, 2}
 Layers = %d
INVARIANTS RoundTrip
PROPERTIES Exact SelfLoads
CHECK_DEADLOCK FALSE
'''


def text(v):
    if isinstance(v, bytes):
        v = v.decode()
    return str(v)


def observe(arch):
    """Architecture as strings. Lists other than inputs and devices do not
    occur in layers; derived values of inputs are ignored by the comparison."""
    def layer(d):
        return dict(opts={k: text(v) for k, v in d.items() if k not in ('inputs', 'devices')},
                    inputs=[text(x) for x in d.get('inputs', [])],
                    devices=[text(x) for x in d.get('devices', [])])
    return dict(inputs=[{k: text(v) for k, v in d.items() if not isinstance(v, list)}
                        for d in arch.inputs],
                layers=[layer(d) for d in arch.layers], output=text(arch.output_layer))


def parse(lines):
    res = []
    for s in lines:
        f = s.split()
        if not f or f[0].startswith('#'):
            res.append(dict(kind='', fields=[]))
            continue
        fields = []
        for x in f[1:]:
            k, eq, v = x.partition('=')
            if k == 'size' and f[0] == 'layer' and eq:
                v = str(int(v))
            fields.append(dict(k=k, v=v, eq=bool(eq)))
        res.append(dict(kind=f[0], fields=fields))
    return res


class Session:
    def __init__(self, path):
        self.ev = []
        self.slots = {}
        self.path = path
        self.n = 0

    def describe(self, slot, lines):
        from theanolm.network import Architecture
        from theanolm.backend import InputError
        try:
            arch = Architecture.from_description(nets.description('\n'.join(lines) + '\n'))
        except InputError:
            self.ev.append(dict(a='describe', slot=slot, lines=parse(lines), refused=True))
            return False
        self.slots[slot] = lines
        self.ev.append(dict(a='describe', slot=slot, lines=parse(lines), refused=False,
                            arch=observe(arch)))
        return arch

    def arch(self, slot):
        from theanolm.network import Architecture
        return Architecture.from_description(nets.description('\n'.join(self.slots[slot]) + '\n'))

    def file(self, new):
        self.n += new
        return h5py.File('%s-%d' % (self.path, self.n), 'a', driver='core', backing_store=False)


def refuses(f, *args):
    from theanolm.backend import IncompatibleStateError
    try:
        f(*args)
    except IncompatibleStateError:
        return True
    return False


OPTS = ['activation=relu', 'activation=tanh', 'dropout_rate=0.5', 'x=y=z', 'device=cuda0',
        'device=cuda1', 'size=07', 'size=12', 'filter_size=3', 'ä=ö']
NAMES = ['a', 'b', 'c', 'long/name', 'd']


def wild_lines(r):
    """Descriptions that need not make sense as a network."""
    lines = []
    for _ in range(r.choice([0, 1, 1, 1, 2, 3, 12]) if r.random() < 0.9 else 11):
        f = ['type=' + r.choice(['word', 'class']), 'name=' + r.choice(NAMES)] + \
            r.sample(['x=1', 'y=2'], r.choice([0, 0, 1]))
        if r.random() < 0.06:
            f.pop(r.randrange(len(f)))
        lines.append('input ' + ' '.join(f))
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5, 12])):
        f = ['type=' + r.choice(nets.HIDDEN), 'name=' + r.choice(NAMES)] + \
            ['input=' + r.choice(NAMES) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 12]) if r.random() < 0.3
                                                         else r.choice([1, 2, 3]))] + \
            r.sample(OPTS, r.choice([0, 1, 1, 2, 4]))
        r.shuffle(f)
        if r.random() < 0.03:
            f.pop(r.randrange(len(f)))
        if r.random() < 0.02:
            f.append('loose')
        lines.append('layer ' + ' '.join(f))
    if r.random() < 0.05:
        lines.insert(r.randrange(len(lines) + 1), 'unknown type=x name=y')
    if r.random() < 0.2:
        lines.insert(r.randrange(len(lines) + 1), r.choice(['', '   ', '# type', '#x', '#layer a']))
    if r.random() < 0.15:
        r.shuffle(lines)
    return lines


def mutate(r, lines):
    """A description that differs in one place (or not at all)."""
    lines = list(lines)
    i = r.randrange(len(lines))
    f = lines[i].split()
    op = r.choice(['drop', 'option', 'value', 'swap', 'line', 'none', 'again', 'add'])
    if op == 'line' and len(lines) > 2:
        del lines[i]
    elif op == 'again':
        lines.insert(i, lines[i])
    elif op == 'drop' and len(f) > 2:
        f.pop(r.randrange(1, len(f)))
        lines[i] = ' '.join(f)
    elif op == 'option':
        lines[i] += ' ' + r.choice(OPTS)
    elif op == 'add' and f and f[0] == 'layer':
        lines[i] += ' input=' + r.choice(NAMES)
    elif op == 'value' and len(f) > 1:
        j = r.randrange(1, len(f))
        k, eq, v = f[j].partition('=')
        f[j] = '%s=%s' % (k, str(int(v) + 1) if v.isdigit() else v + 'x')
        lines[i] = ' '.join(f)
    elif op == 'swap' and len(f) > 2:
        a, b = r.sample(range(1, len(f)), 2)
        f[a], f[b] = f[b], f[a]
        lines[i] = ' '.join(f)
    return lines


def plain_case(r, path):
    from theanolm.network import Architecture
    s = Session(path)
    try:
        if not s.describe('a', wild_lines(r)):
            return s.ev
        f = s.file(True)
        for _ in range(r.choice([1, 1, 2])):
            s.arch('a').get_state(f)
        s.ev.append(dict(a='save', slot='a'))
        back = Architecture.from_state(f)
        s.ev.append(dict(a='restore', arch=observe(back)))
        s.ev.append(dict(a='check', slot='a', refused=refuses(back.check_state, f)))
        for k in range(r.randint(1, 4)):
            lines = mutate(r, s.slots['a'])
            if r.random() < 0.3:
                lines = mutate(r, lines) if lines else lines
            if s.describe('b%d' % k, lines):
                s.ev.append(dict(a='check', slot='b%d' % k,
                                 refused=refuses(s.arch('b%d' % k).check_state, f)))
        g = s.file(True)
        back.get_state(g)
        s.ev.append(dict(a='restore', arch=observe(Architecture.from_state(g))))
    except Exception as e:                                   # noqa
        s.ev.append(error_event(e))
    return s.ev


def net_case(r, nr, path, lines, vocab):
    """A network is built, changed, saved (also over an old file) and loaded."""
    from theanolm.network import Network
    s = Session(path)
    fname = path + '.h5'
    try:
        s.describe('a', lines)
        net = nets.make(lines, vocab)
        nets.perturb(net, nr)
        fn = nets.compile_probs(net)
        s.ev.append(dict(a='net', slot='a', arch=observe(net.architecture),
                         par=nets.digests(net), out=nets.output_digest(fn, vocab)))
        with h5py.File(fname, 'w') as f:
            vocab.get_state(f)
            for k in range(r.choice([1, 2])):
                net.get_state(f)
                s.ev.append(dict(a='store'))
                nets.perturb(net, nr)
                s.ev.append(dict(a='train', par=nets.digests(net), out=nets.output_digest(fn, vocab)))
            if r.random() < 0.7:
                net.get_state(f)
                s.ev.append(dict(a='store'))
        back = Network.from_file(fname)
        s.ev.append(dict(a='load', refused=False, arch=observe(back.architecture),
                         par=nets.digests(back),
                         out=nets.output_digest(nets.compile_probs(back), vocab)))
        with h5py.File(fname, 'r') as f:
            ref = refuses(net.set_state, f)
        s.ev.append(dict(a='into', slot='a', refused=ref, par=nets.digests(net),
                         out=nets.output_digest(fn, vocab)))
        # other architectures
        for k in range(3):
            other = buildable_mutation(r, lines, 'type' if k == 0 else None)
            slot = 'b%d' % k
            if other is None or not s.describe(slot, other):
                continue
            try:
                second = nets.make(other, vocab)
            except Exception:                                # noqa
                continue                                     # cannot be built
            with h5py.File(fname, 'r') as f:
                ref = refuses(second.set_state, f)
            e = dict(a='into', slot=slot, refused=ref, par=nets.digests(second), out='')
            if not ref:
                e['out'] = nets.output_digest(nets.compile_probs(second), vocab)
            s.ev.append(e)
        # a parameter is lost
        p = r.choice(sorted(net.get_variables()))
        with h5py.File(fname, 'a') as f:
            del f[p]
        s.ev.append(dict(a='lose', path=p))
        with h5py.File(fname, 'r') as f:
            ref = refuses(net.set_state, f)
        s.ev.append(dict(a='into', slot='a', refused=ref, par=nets.digests(net), out=''))
        s.ev.append(dict(a='load', refused=refuses(Network.from_file, fname), out='',
                         arch=observe(net.architecture), par={}))
    except Exception as e:                                   # noqa
        s.ev.append(error_event(e))
    finally:
        if os.path.exists(fname):
            os.remove(fname)
    return s.ev


def buildable_mutation(r, lines, op=None):
    lines = list(lines)
    layers = [i for i, x in enumerate(lines) if x.startswith('layer')]
    op = op or r.choice(['rate', 'size', 'type', 'activation', 'extra', 'order', 'inputs', 'output', 'same', 'cut'])
    i = r.choice(layers)
    glu = [j for j in layers if 'type=glu' in lines[j]]
    if op == 'type' and glu:
        i = glu[0]                  # parameters with another number of dimensions
    f = lines[i].split()
    if op == 'size':
        for j, x in enumerate(f):
            if x.startswith('size='):
                f[j] = 'size=%d' % (int(x[5:]) + 1)
    elif op == 'type':
        swaps = {'type=fc': 'type=tanh', 'type=tanh': 'type=fc', 'type=highway': 'type=highwaytanh',
                 'type=lstm': 'type=gru', 'type=gru': 'type=lstm', 'type=softmax': 'type=hsoftmax',
                 'type=hsoftmax': 'type=softmax', 'type=highwaytanh': 'type=highway',
                 'type=glu': 'type=fc', 'type=blstm': 'type=bgru', 'type=bgru': 'type=blstm'}
        f = [swaps.get(x, x) for x in f]
    elif op == 'activation':
        f = [x for x in f if not x.startswith('activation')] + ['activation=' + r.choice(['relu', 'leakyrelu', 'tanh'])]
    elif op == 'rate':
        f = [x for x in f if not x.startswith('dropout_rate')] + ['dropout_rate=0.1']
    elif op == 'order':
        ins = [j for j, x in enumerate(f) if x.startswith('input=')]
        if len(ins) > 1:
            f[ins[0]], f[ins[1]] = f[ins[1]], f[ins[0]]
    elif op == 'inputs':
        k = r.choice([j for j, x in enumerate(lines) if x.startswith('input')])
        x = lines[k]
        lines[k] = x.replace('word', 'class') if 'word' in x else x.replace('class', 'word')
    elif op == 'extra':
        lines.insert(layers[-1], 'layer type=dropout name=extra input=' +
                     lines[layers[0]].split('name=')[1].split()[0])
        return lines
    elif op == 'output':
        lines.append('layer type=softmax name=out2 input=' + lines[layers[0]].split('name=')[1].split()[0])
        return lines
    elif op == 'cut':
        used = ' '.join(lines)
        unused = [j for j in layers[:-1] if 'input=%s' % lines[j].split('name=')[1].split()[0] not in used]
        if not unused:
            return None
        del lines[unused[0]]
        return lines
    lines[i] = ' '.join(f)
    return lines


def run(chk):
    quiet()
    chk.model_check('ModelFileMC', MC_CFG % chk.n(1, 2))
    r = rng(chk, 'modelfile')
    nr = numpy.random.RandomState(chk.seed)
    numpy.random.seed(chk.seed)
    cases = []
    path = os.path.join(chk.scratch, 'm')
    n1, n2 = chk.n(1500, 8000), chk.n(26, 220)
    with silence(), numpy.errstate(all='ignore'):
        for i in range(n1):
            cases.append(dict(ev=plain_case(r, path)))
        every = [['fc'], ['tanh'], ['lstm'], ['gru'], ['highway'], ['highwaytanh'], ['glu'],
                 ['dropout'], ['add'], ['blstm'], ['bgru']]
        for i in range(n2):
            types = every[i % len(every)] if i < 2 * len(every) else None
            lines = nets.random_description(r, depth=1 if i < len(every) else None, types=types)
            if i % 13 == 12:
                lines = many_inputs(r)
            v = nets.words_vocabulary(r.choice([3, 5, 6]), classes=r.random() < 0.5)
            cases.append(dict(ev=net_case(r, nr, '%s%d' % (path, i), lines, v)))
    chk.random_scenarios = n1 + n2
    chk.validate('ModelFileTrace', cases)
    chk.assumptions += ['inputs are compared by the options that were described',
                        'a file may name more devices than the network uses']


def many_inputs(r):
    """More than ten layers feeding one."""
    n = r.randint(11, 13)
    lines = ['input type=%s name=i%d' % (r.choice(['word', 'class']), k) for k in range(n)]
    order = list(range(n))
    r.shuffle(order)
    lines += ['layer type=projection name=p%d input=i%d size=%d' % (k, k, r.randint(1, 3)) for k in order]
    r.shuffle(order)
    lines.append('layer type=fc name=h0 size=3 ' + ' '.join('input=p%d' % k for k in order))
    lines.append('layer type=softmax name=out input=h0')
    return lines
