"""P03-P06: the training process against Trainer.tla.

The real trainer, stoppers, iterators and model files are driven with scripted
validation perplexities.  The network and optimizer are stand-ins that only
carry an identity of their parameters, or (family 'real') the real network and
optimizers, or (family 'command') the whole 'theanolm train' command in a
process of its own that gets killed.
"""
import hashlib, io, json, os, shutil, subprocess, sys

import h5py
import numpy

from vlib.common import MachineryError, REPO, VERIF
from vlib.tracing import quiet, silence, rng, error_event

PROPERTIES = ('FileIsCandidate BestInFile PatienceBound MaxEpochs UpdateInRange '
              'MinEpochs AnnealBound FinishedStays')
MC_CFG = '''SPECIFICATION Spec
CONSTANTS Ppls = {%(ppls)s}
 Upes = {%(upes)s}
 Spvs = {1,2,3}
 Freqs = {1,2}
 Crits = {"epoch","noimp","anneal"}
 MaxUpdates = %(max)d
 Crashes = %(crashes)d
CONSTRAINT Bound
VIEW View
INVARIANTS ''' + PROPERTIES + '''
PROPERTIES Monotone NeverLost HalvedOnlyInRollback ResumeExact
CHECK_DEADLOCK FALSE
'''
GEN_CFG = '''INIT GenInit
NEXT GenNext
CONSTANTS Ppls = {1001, 1100, 1250}
 Upes = {2,3,4,6}
 Spvs = {1,2,3,5}
 Freqs = {1,2,3}
 Crits = {"epoch","noimp","anneal"}
 MaxUpdates = 22
 Crashes = 2
CHECK_DEADLOCK FALSE
'''
TRACE_CFG = 'INIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n'
CRITERIA = {'epoch': 'epoch-count', 'noimp': 'no-improvement', 'anneal': 'annealing-count'}
NWORDS = 90
LR0 = 0.5


class Kill(BaseException):
    pass


class FakeNetwork:
    """Carries only the identity of its parameters."""
    def __init__(self):
        self.w = 0

    def get_state(self, state):
        g = state.require_group('layers')
        if 'w' in g:
            g['w'][...] = self.w
        else:
            g.create_dataset('w', data=self.w)
        state.attrs['netw'] = self.w

    def set_state(self, state):
        self.w = int(state['layers/w'][()])
        if int(state.attrs['netw']) != self.w:
            self.w = -1


class FakeOptimizer:
    def __init__(self, network):
        self.network = network
        self.v = 0
        self.learning_rate = LR0

    def get_state(self, state):
        g = state.require_group('optimizer')
        g.attrs['learning_rate'] = self.learning_rate
        g.attrs['v'] = self.v

    def set_state(self, state):
        self.learning_rate = float(state['optimizer'].attrs['learning_rate'])
        self.v = int(state['optimizer'].attrs['v'])

    def update_minibatch(self, word_ids, class_ids, file_ids, mask):
        FakeOptimizer.total += 1
        self.network.w = self.v = FakeOptimizer.total


def digest(group):
    """Digest of all datasets and attributes of an HDF5 group, except those
    whose value is followed separately."""
    h = hashlib.sha1()

    def visit(name, obj):
        h.update(name.encode())
        for k in sorted(obj.attrs):
            if k != 'learning_rate':
                h.update(k.encode() + repr(numpy.asarray(obj.attrs[k]).tolist()).encode())
        if isinstance(obj, h5py.Dataset):
            h.update(numpy.asarray(obj[()]).tobytes())

    names = []
    group.visititems(lambda n, o: names.append(n))
    visit('', group)
    for n in sorted(names):
        visit(n, group[n])
    return h.hexdigest()


def params_digest(state):
    return '%s/%s' % (digest(state['layers']) if 'layers' in state else '-',
                      digest(state['optimizer']) if 'optimizer' in state else '-')


def memory_file():
    memory_file.n += 1
    return h5py.File('mem%d' % memory_file.n, 'w', driver='core', backing_store=False)


memory_file.n = 0


def forget_open_files():
    """A killed process leaves no file open."""
    from h5py import h5f, h5i
    for kind in (h5f.OBJ_GROUP, h5f.OBJ_DATASET, h5f.OBJ_FILE):
        for oid in h5f.get_obj_ids(h5f.OBJ_ALL, kind):
            while oid.valid:
                h5i.dec_ref(oid)


def halvings(lr, lr0=LR0):
    for i in range(400):
        if abs(float(lr) * 2 ** i - lr0) < 1e-9 * lr0:
            return i
    return -1


def int2(x):
    """Twice a cost, which has to be an integer."""
    y = float(x) * 2
    return int(round(y)) if abs(y - round(y)) < 1e-6 else -1


class Recorder:
    """Records what the trainer holds and what is on disk."""

    def __init__(self, path, trainer, network, optimizer, real):
        self.path, self.trainer = path, trainer
        self.network, self.optimizer, self.real = network, optimizer, real
        self.cache = (None, None)
        self.again = None

    def params(self):
        if not self.real:
            return self.network.w, self.optimizer.v
        f = memory_file()
        self.network.get_state(f)
        self.optimizer.get_state(f)
        d = params_digest(f)
        f.close()
        # The same written over an earlier state of the process.
        if self.again is None:
            self.again = memory_file()
        g = self.again
        self.network.get_state(g)
        self.optimizer.get_state(g)
        if params_digest(g) != d or \
                g['optimizer'].attrs['learning_rate'] != self.optimizer.learning_rate:
            return d, 'not what was saved'
        return d, d

    def file(self):
        data = open(self.path, 'rb').read()
        key = hashlib.sha1(data).hexdigest()
        if self.cache[0] != key:
            self.cache = (key, self.parse(data))
        return self.cache[1]

    def parse(self, data):
        f = h5py.File(io.BytesIO(data), 'r')
        try:
            if 'trainer' not in f:
                return []
            tr = f['trainer']
            if self.real:
                w = v = params_digest(f)
            else:
                w = int(f['layers/w'][()])
                if int(f.attrs['netw']) != w:
                    w = -1
                v = int(f['optimizer'].attrs['v'])
            return [dict(epoch=int(tr.attrs['epoch_number']),
                         upd=int(tr.attrs['update_number']), w=w, v=v,
                         halv=halvings(f['optimizer'].attrs['learning_rate']),
                         costs=[int2(x) for x in tr['cost_history'][()]])]
        finally:
            f.close()

    def held(self, **kw):
        tr = self.trainer
        w, v = self.params()
        n = int(tr.num_validations())
        cand = tr.candidate_cost()
        ev = dict(w=w, v=v, lr=halvings(self.optimizer.learning_rate), nval=n,
                  cand=0 if cand is None else int2(cand),
                  since=int(tr.validations_since_candidate()) if n and cand is not None else 0,
                  file=self.file())
        ev.update(kw)
        return ev

    def place(self):
        return dict(epoch=int(self.trainer.epoch_number),
                    upd=int(self.trainer.update_number))


# ---------------------------------------------------------------------------

def make_data(cfg, r, scratch, name):
    """Training files whose pieces are identified by their words.  Returns the
    paths and the piece of each word."""
    maxlen = cfg['maxlen']
    n, pieces, lines, used = cfg['n'], 0, [], 0
    piece_of = {}
    while pieces < n:
        k = r.choice([1, 1, 2, 3]) if not maxlen else r.choice([1, 2, 3, 5, 6])
        while True:
            words = ['w%d' % (used + i) for i in range(k)]
            sent = ['<s>'] + words + ['</s>']
            cut = [sent[i:i + (maxlen or 99)] for i in range(0, len(sent), maxlen or 99)]
            cut = [c for c in cut if len(c) >= 2]
            if pieces + len(cut) <= n:
                break
            k -= 1
        for c in cut:
            pieces += 1
            for w in c:
                if w[0] == 'w':
                    piece_of[w] = pieces
        used += k
        lines.append(' '.join(words))
        if used > NWORDS:
            raise MachineryError('too many words in training data')
    nf = r.choice([1, 1, 2, 3]) if len(lines) > 3 else 1
    paths = []
    for i in range(nf):
        p = os.path.join(scratch, '%s-%d.txt' % (name, i))
        part = lines[i::nf]
        with open(p, 'w') as f:
            f.write('\n'.join(part) + r.choice(['\n', '']))
        paths.append(p)
    return paths, piece_of


def batch_pieces(word_ids, mask, words, piece_of):
    out = []
    for j in range(mask.shape[1]):
        ids = {piece_of.get(words[int(word_ids[i, j])], 0)
               for i in range(mask.shape[0]) if mask[i, j]} - {0}
        out.append(ids.pop() if len(ids) == 1 else 0)
    return out


def options(cfg):
    return dict(batch_size=cfg['b'], sequence_length=cfg['maxlen'] or None,
                validation_frequency=cfg['freq'], patience=cfg['patience'],
                stopping_criterion=CRITERIA[cfg['crit']], max_epochs=cfg['maxep'],
                min_epochs=cfg['minep'], max_annealing_count=cfg['maxann'])


ARCHS = ['''input type=class name=i
layer type=projection name=p input=i size=3
layer type=%s name=h input=p size=3
layer type=softmax name=o input=h
''' % t for t in ('tanh', 'lstm', 'gru')]


class Harness:
    def __init__(self, scratch):
        from theanolm import Vocabulary
        self.scratch = scratch
        with silence():
            counts = {'w%d' % i: 1 + i % 3 for i in range(NWORDS)}
            self.vocab = Vocabulary.from_word_counts(counts)
        self.words = list(self.vocab.id_to_word)
        self.count = 0

    def real_parts(self, trainer, method, arch, seed):
        from theanolm import Network, Architecture
        from theanolm.training import CrossEntropyCost, create_optimizer
        numpy.random.seed(seed)
        network = Network(Architecture.from_description(ARCHS[arch].splitlines(True)),
                          self.vocab, trainer.class_prior_probs)
        opt = dict(method=method, epsilon=1e-5, gradient_decay_rate=0.9,
                   sqr_gradient_decay_rate=0.99, learning_rate=LR0,
                   weights=numpy.ones(3, dtype='float64').astype(network_dtype()),
                   momentum=0.9, max_gradient_norm=5, num_noise_samples=5,
                   noise_sharing=None)
        cost = CrossEntropyCost(network, None, None, None, 1e-5)
        return network, create_optimizer(opt, network, cost)

    def run(self, scn, r):
        from theanolm.training import Trainer
        from theanolm.backend import TextFileType
        cfg = dict(scn['cfg'])
        real = scn.get('real')
        cfg['real'] = bool(real)
        self.count += 1
        name = 'run%d' % self.count
        paths, piece_of = make_data(cfg, r, self.scratch, name)
        ev = []
        case = dict(cfg=cfg, ev=ev, ppls=scn['ppls'], kills=scn['kills'],
                    real=real or {}, tail=scn['tail'])
        path = os.path.join(self.scratch, name + '.h5')
        state = h5py.File(path, 'a', driver='core')
        state.flush()
        kills = list(scn['kills'])
        FakeOptimizer.total = 0
        totals = [0]
        ppls = list(scn['ppls'])
        calls = [0]
        process = 0
        seed = r.randrange(2 ** 31)
        numpy.random.seed(r.randrange(2 ** 31))
        handles, leftover = [], [path]
        finished = 0
        try:
            with silence():
                while process < 12:
                    process += 1
                    files = [TextFileType('r')(p) for p in paths]
                    handles.extend(files)
                    trainer = Trainer(options(cfg), self.vocab, files,
                                      [1.0] * r.randint(0, len(files)))
                    if real:
                        keep = numpy.random.get_state()
                        network, optimizer = self.real_parts(
                            trainer, real['method'], real['arch'], seed)
                        numpy.random.set_state(keep)
                    else:
                        network = FakeNetwork()
                        optimizer = FakeOptimizer(network)
                    if r.random() < 0.3:
                        trainer.set_logging(1)
                    rec = Recorder(path, trainer, network, optimizer, real)
                    order = r.random() < 0.5

                    def measure(*args):
                        if kills and kills[0][1] == 'scorer' and kills[0][0] <= totals[0]:
                            kills.pop(0)
                            if ev[-1]['a'] == 'update':
                                ev.pop()
                            raise Kill()
                        if calls[0] < len(ppls):
                            p = ppls[calls[0]]
                        else:
                            p = scn['tail'][calls[0] % len(scn['tail'])]
                        calls[0] += 1
                        if ev[-1]['a'] == 'update':
                            ev[-1]['ppl'] = p
                        return float(p)

                    scorer = type('Scorer', (), {})()
                    scorer.compute_perplexity = measure

                    def validation():
                        if cfg['valid']:
                            if cfg['spv'] == 7 and order:
                                trainer.set_validation(object(), scorer)
                            else:
                                trainer.set_validation(object(), scorer, cfg['spv'])

                    update = optimizer.update_minibatch

                    def hook(word_ids, class_ids, file_ids, mask):
                        if totals[0] >= cfg['stopafter'] or (
                                kills and kills[0][1] == 'update'
                                and kills[0][0] <= totals[0]):
                            if totals[0] < cfg['stopafter']:
                                kills.pop(0)
                            raise Kill()
                        S = batch_pieces(word_ids, mask, self.words, piece_of)
                        e = rec.held(a='update', S=S, ppl=0)
                        totals[0] += 1
                        update(word_ids, class_ids, file_ids, mask)
                        e['w2'] = rec.params()[0]
                        ev.append(e)

                    optimizer.update_minibatch = hook
                    if order:
                        validation()
                    trainer.initialize(network, state, optimizer)
                    if not order:
                        validation()
                    if process == 1:
                        cfg['w0'] = rec.params()[0]
                    else:
                        ev.append(rec.held(a='resume', **rec.place()))
                    try:
                        trainer.train()
                        ev.append(rec.held(a='end', **rec.place()))
                        finished += 1
                    except Kill:
                        if totals[0] >= cfg['stopafter']:
                            break
                    # What a new process finds is what is on disk now.
                    new = os.path.join(self.scratch, '%s-%d.h5' % (name, process))
                    shutil.copyfile(path, new)
                    leftover.append(new)
                    if process == 1 or finished:
                        self.tamper(scn, new, trainer, network, optimizer, ev, r)
                    state.close()
                    forget_open_files()
                    if finished > scn.get('restarts', 0):
                        break
                    state = h5py.File(new, 'a', driver='core')
                    path = new
        except Exception as e:                            # noqa
            ev.append(error_event(e))
        finally:
            for h in handles:
                h.close()
            try:
                state.close()
            except Exception:                             # noqa
                pass
            forget_open_files()
            for p in paths + leftover:
                if os.path.exists(p):
                    os.remove(p)
        cfg.setdefault('w0', 0)
        case['cfg'] = cfg
        number(case)
        return case

    def tamper(self, scn, path, trainer, network, optimizer, ev, r):
        """Presents copies of the file with something removed to a trainer."""
        if not scn.get('tamper'):
            return
        f = h5py.File(path, 'r')
        removable = []
        if 'trainer' in f:
            removable += [('trainer', 'epoch_number'), ('trainer', 'update_number'),
                          ('optimizer', ''), ('optimizer', 'learning_rate'),
                          ('layers', '')]
            groups = [g for g in f if g not in ('trainer', 'vocabulary', 'architecture')]
            for g in groups:
                if isinstance(f[g], h5py.Group):
                    f[g].visititems(lambda n, o, g=g: removable.append((g + '/' + n, ''))
                                    if isinstance(o, h5py.Dataset) else None)
                if g not in ('layers', 'optimizer'):
                    removable.append((g, ''))
        f.close()
        for group, attr in removable:
            copy = path + '.t'
            shutil.copyfile(path, copy)
            f = h5py.File(copy, 'a', driver='core')
            if attr:
                if attr not in f[group].attrs:
                    f.close()
                    continue
                del f[group].attrs[attr]
            elif group in f:
                del f[group]
            f.flush()
            try:
                trainer.initialize(network, f, optimizer)
                rejected = False
            except Exception:                             # noqa
                rejected = True
            f.close()
            os.remove(copy)
            ev.append(dict(a='tamper', what=group + ':' + attr, rejected=rejected))


def network_dtype():
    import theano
    return theano.config.floatX


def number(case):
    """Replaces digests by numbers."""
    ids = {}

    def num(x):
        return x if isinstance(x, int) else ids.setdefault(x, len(ids) + 1)

    case['cfg']['w0'] = num(case['cfg']['w0'])
    for e in case['ev']:
        for k in ('w', 'v', 'w2'):
            if k in e:
                e[k] = num(e[k])
        for f in e.get('file', []):
            if not isinstance(f['w'], int):
                e['file'] = [dict(f, w=num(f['w']), v=num(f['v']))]


# ---------------------------------------------------------------------------

def from_spec(s, r):
    k = s['k']
    cfg = dict(k, maxlen=0, stopafter=40)
    kills = [[x, r.choice(['update', 'update', 'scorer'])] for x in s['h']['kills']]
    return dict(cfg=cfg, ppls=s['h']['ppls'], kills=kills,
                tail=[r.randint(1001, 1400) for _ in range(7)],
                restarts=r.choice([0, 0, 1]))


def random_scenario(r, prop):
    n = r.randint(1, 24)
    b = r.choice([1, 1, 2, 3, 4])
    upe = -(-n // b)
    valid = r.random() < (0.9 if prop != 'P05' else 0.7)
    freq = r.randint(1, min(upe, 4)) if valid else 1
    spv = r.choice([1, 2, 3, 3, 4, 5, 7]) if valid else 1
    if r.random() < 0.75:
        spv = min(spv, max(1, upe // freq))
    crit = r.choice(['epoch', 'noimp', 'anneal'])
    if prop == 'P06':
        patience = r.choice([-1, 0, 0, 0, 1, 2])
    elif prop == 'P04':
        patience = r.choice([0, 0, 1, 1, 2, 3])
    else:
        patience = r.choice([-1, 0, 1, 2, 3]) if valid else -1
    style = r.random()
    m = r.randint(0, 40)
    if style < 0.35:
        ppls = [r.randint(1001, 1400) for _ in range(m)]
    elif style < 0.6:           # slowly improving, within and around 0.1 %
        x, ppls = 1390, []
        for _ in range(m):
            x = max(1001, x - r.choice([-1, 0, 1, 1, 2, 2, 3, 20]))
            ppls.append(x)
    else:                       # runs of improvement and of failure
        x, ppls = 1380, []
        while len(ppls) < m:
            d = r.choice([-9, -30, 9, 30, 1])
            for _ in range(r.randint(1, 7)):
                x = min(1399, max(1001, x + d))
                ppls.append(x)
    kills = []
    if prop == 'P05' or r.random() < 0.25:
        at = 0
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            at += r.randint(0 if not at else 1, 12)
            kills.append([at, r.choice(['update', 'update', 'scorer']) if valid else 'update'])
    maxep = r.choice([1, 2, 3, 4])
    cfg = dict(n=n, b=b, upe=upe, valid=valid, freq=freq, spv=spv, patience=patience,
               crit=crit, minep=r.choice([0, 1, 1, 2, 3]), maxep=maxep,
               maxann=r.choice([0, 0, 1, 2, 3]), maxlen=0,
               stopafter=r.choice([30, 50, 70]))
    if r.random() < 0.3:
        cfg['maxlen'] = r.choice([2, 3, 4])
    return dict(cfg=cfg, ppls=ppls, kills=kills,
                tail=[r.randint(1001, 1400) for _ in range(r.randint(1, 7))],
                restarts=r.choice([0, 1, 2]) if prop in ('P05', 'P06') else 0,
                tamper=(prop == 'P05' and r.random() < 0.15))


METHODS = ['sgd', 'nesterov', 'adagrad', 'adadelta', 'rmsprop-sgd',
           'rmsprop-nesterov', 'adam']


def real_scenario(r, prop, method, arch):
    s = random_scenario(r, prop)
    upe = r.choice([4, 5, 6])
    s['cfg'].update(n=upe * 2, b=2, upe=upe, valid=True, freq=r.choice([1, 2]), spv=2,
                    patience=r.choice([0, 1]), crit='epoch', maxep=3, stopafter=20, maxlen=0)
    s['kills'] = [[r.randint(4, 8), 'update'], [r.randint(11, 16), 'update']]
    # An early best state, so that rollbacks and restarts repeat updates.
    s['ppls'] = [1390, 1380] + [r.randint(1300, 1370) for _ in range(2)] + \
                [r.randint(1300, 1399) for _ in range(10)]
    if r.random() < 0.7:
        # Failures, and improvements after them: states are saved again when
        # the learning rate has changed.
        s['ppls'], x = [1390, 1385, 1380, 1375], 1375
        for _ in range(5):
            s['ppls'] += [1399, 1399]
            for _ in range(2):
                x -= r.randint(20, 40)
                s['ppls'].append(x)
        s['cfg'].update(freq=2, patience=0, stopafter=28, maxep=4)
        s['kills'] = [[r.randint(8, 12), 'update'], [r.randint(15, 22), 'update']]
    s['restarts'] = 0
    s['tamper'] = (prop == 'P05')
    s['real'] = dict(method=method, arch=arch)
    return s


# -- the whole command -------------------------------------------------------

def command_case(scratch, cfg, seed, kills, ppls, tail, method, r, name):
    """Runs 'theanolm train' in processes that get killed; returns the case."""
    paths, piece_of = make_data(cfg, r, scratch, name)
    arch = os.path.join(scratch, name + '.arch')
    with open(arch, 'w') as f:
        f.write(ARCHS[0])
    model = os.path.join(scratch, name + '.h5')
    valid = os.path.join(scratch, name + '-valid.txt')
    with open(valid, 'w') as f:
        f.write('w1 w2\nw3\n')
    ev, calls, total, finished = [], 0, 0, 0
    w0 = None
    cfg = dict(cfg, real=True)
    for process in range(8):
        spec = dict(paths=paths, arch=arch, model=model, valid=valid if cfg['valid'] else '',
                    cfg=cfg, seed=seed, method=method, piece_of=piece_of,
                    kills=[k for k in kills], ppls=ppls, tail=tail, calls=calls,
                    total=total, out=model + '.ev')
        with open(model + '.json', 'w') as f:
            json.dump(spec, f)
        if os.path.exists(spec['out']):
            os.remove(spec['out'])
        p = subprocess.run([sys.executable, '-m', 'drivers.train_child', model + '.json'],
                           cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=300)
        done = False
        if os.path.exists(spec['out']):
            for line in open(spec['out']):
                e = json.loads(line)
                if e['a'] == 'start':
                    if w0 is None:
                        w0 = e['w']
                    if process:
                        e['a'] = 'resume'
                        ev.append(e)
                elif e['a'] == 'ppl':
                    calls += 1
                    if ev and ev[-1]['a'] == 'update':
                        ev[-1]['ppl'] = e['ppl']
                else:
                    ev.append(e)
                    total += e['a'] == 'update'
                    done = done or e['a'] == 'end'
        if p.returncode == 9:
            if total >= cfg['stopafter']:
                break
            kills = [k for k in kills if k[0] > total]
        elif p.returncode == 0 and done:
            finished += 1
            if finished == 2:
                break
        else:
            ev.append(dict(a='error', what='exit %d: %s' % (
                p.returncode, p.stdout.decode('utf-8', 'replace')[-400:]), where='train command'))
            break
    cfg['w0'] = w0 if w0 is not None else 0
    case = dict(cfg=cfg, ev=ev, ppls=ppls, kills=kills, tail=tail,
                real=dict(method=method, arch=0))
    number(case)
    return case


def command_scenarios(chk, r, count):
    out = []
    for i in range(count):
        valid = i % 4 != 1
        b = r.choice([1, 2, 3])
        upe = r.randint(8, 12) if valid else r.randint(2, 4)
        cfg = dict(n=b * upe - r.randint(0, b - 1), b=b, upe=upe, valid=valid, freq=1,
                   spv=7 if valid else 1, patience=r.choice([-1, 0, 1]) if valid else -1,
                   crit=r.choice(['epoch', 'noimp', 'anneal']), minep=1, maxep=2,
                   maxann=r.choice([0, 1]), maxlen=0, stopafter=40)
        kills = [[r.choice([0, 1, 2, 5]), 'update'], [r.randint(6, 14), 'update']]
        ppls = [r.randint(1001, 1400) for _ in range(30)]
        # Adam is the only one that has a scalar among its parameters.
        out.append((cfg, kills, ppls, 'adam' if i == 1 else METHODS[i % len(METHODS)]))
    return out


def run(chk):
    quiet()
    chk.model_check('TrainerMC', MC_CFG % (
        dict(ppls='1001, 1100, 1250', upes='2, 3, 4', max=10, crashes=2) if chk.thorough else
        dict(ppls='1001, 1100', upes='2, 3', max=8, crashes=1)))
    r = rng(chk, 'trainer')
    gen = chk.scenarios('TrainerGen', GEN_CFG, simulate=chk.n(400, 4000), depth=80)
    chk.spec_scenarios = len(gen)
    scns = [from_spec(s, r) for s in gen]
    nrand = chk.n(400, 5000)
    scns += [random_scenario(r, chk.prop) for _ in range(nrand)]
    chk.random_scenarios = nrand
    reals = []
    if chk.prop in ('P03', 'P04', 'P05'):
        for i, m in enumerate(METHODS * chk.n(1, 4)):
            reals.append(real_scenario(r, chk.prop, m, (i + chk.seed) % 3))
    h = Harness(chk.scratch)
    cases = [h.run(s, r) for s in scns + reals]
    if chk.prop in ('P05', 'P06'):
        from concurrent.futures import ThreadPoolExecutor
        jobs = command_scenarios(chk, r, chk.n(8, 32))
        with ThreadPoolExecutor(8) as pool:
            futures = [pool.submit(command_case, chk.scratch, cfg, r.randrange(10 ** 6),
                                   kills, ppls, [1200, 1100, 1390], m, rng(chk, 'cmd%d' % i),
                                   'cmd%d' % i)
                       for i, (cfg, kills, ppls, m) in enumerate(jobs)]
            cmd = [f.result() for f in futures]
        cases += cmd
        chk.extra['command_runs'] = len(cmd)
    chk.validate('TrainerTrace', cases, TRACE_CFG)
    count = lambda f: sum(f(e) for c in cases for e in c['ev'])
    chk.extra.update(
        updates=count(lambda e: e['a'] == 'update'),
        restarts=count(lambda e: e['a'] == 'resume'),
        finished=count(lambda e: e['a'] == 'end'),
        tampered=count(lambda e: e['a'] == 'tamper'),
        rollbacks=sum(max([e.get('lr', 0) for e in c['ev']] or [0]) for c in cases),
        saved_states=sum(len({json.dumps(e['file']) for e in c['ev'] if 'file' in e})
                         for c in cases))
    chk.assumptions += [
        'the process dies between file system writes, not in the middle of one',
        'perplexities are integers, so that medians are exact']
