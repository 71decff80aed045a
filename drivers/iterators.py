"""P01, P02: the mini-batch readers against BatchIter.tla."""
import gzip, mmap, os

import h5py
import numpy

from vlib.tracing import quiet, silence, rng, error_event

VOCAB = ['a', 'b', 'c', 'd', 'e', 'ä', 'f', 'g']
OOS = ['o', 'p']
ALL = VOCAB + OOS + ['x', 'y', 'ŷ']          # x, y, ŷ are unknown words

MC_CFG = '''SPECIFICATION Spec
CONSTANT Cfgs <- MCCfgs
CONSTRAINT Bound
INVARIANTS EpochComplete LinearOrder NoRepeats SampleBound NoStall
CHECK_DEADLOCK FALSE
'''


class Harness:
    def __init__(self, scratch):
        from theanolm import Vocabulary
        self.scratch = scratch
        self.counter = 0
        with silence():
            self.vocab = Vocabulary.from_file(
                [w + '\n' for w in VOCAB], 'words', oos_words=OOS)
        self.ids = {w: int(i) for w, i in self.vocab.word_to_id.items()}
        self.nshort = int(self.vocab.num_shortlist_words())

    def write(self, lines, r, name_suffix, gz=False):
        self.counter += 1
        path = os.path.join(self.scratch, 'text%d%s' % (self.counter, name_suffix))
        out = []
        for line in lines:
            if not line:
                out.append(r.choice(['', '', ' ', '\t ']))
            else:
                sep = r.choice([' ', ' ', '  ', '\t'])
                out.append(r.choice(['', '', ' ']) + sep.join(line)
                           + r.choice(['', '', ' ']))
        text = '\n'.join(out)
        if out and (not lines[-1] or r.random() < 0.7):
            text += '\n'
        data = text.encode('utf-8')
        if gz:
            with gzip.open(path, 'wb') as f:
                f.write(data)
        else:
            with open(path, 'wb') as f:
                f.write(data)
        return path

    def run(self, scn, r):
        """Replays one scenario; returns the recorded case."""
        from theanolm.parsing import (LinearBatchIterator, ScoringBatchIterator,
                                      ShufflingBatchIterator)
        from theanolm.backend import TextFileType
        kind = scn['kind']
        s = scn['set']
        source = scn.get('source', 'file')
        paths = [self.write(lines, r, '.gz' if source == 'gz' else '.txt',
                            source == 'gz') for lines in scn['files']]
        handles = []
        maxlen = s['maxlen'] or None
        common = dict(batch_size=s['batch'], max_sequence_length=maxlen,
                      map_oos_to_unk=s['oosunk'])
        fr = scn['frac']

        def make():
            if kind == 'shuffle':
                files = [TextFileType('r')(p) for p in paths]
                handles.extend(files)
                sampling = [x / 10.0 for x in fr]
                while sampling and sampling[-1] == 1.0 and r.random() < 0.5:
                    sampling.pop()
                return ShufflingBatchIterator(files, sampling, self.vocab, **common)
            files = []
            for p in paths:
                if source == 'mmap':
                    f = open(p, 'rt', encoding='utf-8')
                    handles.append(f)
                    m = mmap.mmap(f.fileno(), 0, prot=mmap.PROT_READ)
                    files.append(m)
                    handles.append(m)
                else:
                    f = TextFileType('r')(p)
                    handles.append(f)
                    files.append(f)
            cls = LinearBatchIterator if kind == 'linear' else ScoringBatchIterator
            if len(files) == 1 and r.random() < 0.5:
                files = files[0]
            return cls(files, self.vocab, **common)

        cfg = dict(files=scn['files'], frac=fr, maxlen=s['maxlen'],
                   shuffle=(kind == 'shuffle'), ids=self.ids, nshort=self.nshort,
                   oosunk=s['oosunk'], batch=s['batch'],
                   hasfid=(kind != 'scoring'), hasws=(kind == 'scoring'))
        ev = []
        case = dict(cfg=cfg, ev=ev, kind=kind, source=source,
                    sched=scn['sched'])
        state = None
        try:
            numpy.random.seed(r.randrange(2 ** 31))
            it = make()

            def step():
                try:
                    batch = next(it)
                except StopIteration:
                    ev.append(dict(a='stop'))
                    return False
                ev.extend(columns(batch, kind))
                ev.append(dict(a='batch'))
                return True

            for op in scn['sched']:
                if op == 'n':
                    step()
                elif op == 'e':
                    for _ in range(400):
                        if not step():
                            break
                elif op == 's':
                    if kind != 'shuffle':
                        continue
                    if state is None or r.random() < 0.5:
                        state = h5py.File('s%d' % self.counter, driver='core',
                                          backing_store=False, mode='w')
                    self.counter += 1
                    it.get_state(state)
                    ev.append(dict(a='save'))
                elif op in 'rR':
                    if kind != 'shuffle' or state is None:
                        continue
                    if op == 'R':
                        it = make()
                    it.set_state(state)
                    ev.append(dict(a='restore'))
                elif op == 'l':
                    # Asking the size of a reader starts its pass over, so it
                    # is asked between passes.
                    if all(x == 10 for x in fr) and \
                       (not ev or ev[-1]['a'] in ('stop', 'len')):
                        ev.append(dict(a='len', n=len(it)))
        except Exception as e:                        # noqa
            ev.append(error_event(e))
        finally:
            for h in handles:
                try:
                    h.close()
                except Exception:                     # noqa
                    pass
            for p in paths:
                os.remove(p)
        return case


def columns(batch, kind):
    ids, second, mask = batch
    cols = []
    for j in range(mask.shape[1]):
        col = dict(a='seq', t=int(mask.shape[0]), w=[int(x) for x in ids[:, j]],
                   m=[int(x) for x in mask[:, j]])
        if kind == 'scoring':
            col['ws'] = list(second[j])
        else:
            col['f'] = [int(x) for x in second[:, j]]
        cols.append(col)
    return cols


def random_scenario(r, kind, nfiles_max=3):
    """First words of the sentences of a file identify the sentence."""
    nfiles = r.randint(1, nfiles_max)
    files, frac = [], []
    for _ in range(nfiles):
        starts = VOCAB[:]
        r.shuffle(starts)
        lines, pool = [], []
        for _ in range(r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9])):
            x = r.random()
            if x < 0.12:
                lines.append([])
            elif pool and (x < 0.25 or not starts):
                lines.append(r.choice(pool))
            elif starts:
                body = [starts.pop()] + [r.choice(ALL) for _ in
                                         range(r.choice([0, 0, 1, 2, 3, 4, 6, 9]))]
                if r.random() < 0.15:
                    body = ['<s>'] + body
                if r.random() < 0.15:
                    body = body + ['</s>']
                pool.append(body)
                lines.append(body)
        lines = lines or [['a']]
        n = len(lines)
        f = 10
        if kind == 'shuffle' and r.random() < 0.4:
            f = r.choice([x for x in (0, 2, 3, 4, 6, 7, 8, 9, 11, 13, 20, 25)
                          if (x * n) % 10 != 5])
        files.append(lines)
        frac.append(f)
    if kind == 'shuffle' and all(
            round(f / 10.0 * len(x)) == 0 for f, x in zip(frac, files)):
        frac = [10] * nfiles
    ops = []
    for _ in range(r.randint(2, 14)):
        ops.append(r.choice('nnnesrReel' if kind == 'shuffle' else 'nneel'))
    ops += ['e', 'e']
    return dict(files=files, frac=frac, kind=kind, sched=ops,
                set=dict(batch=r.choice([1, 2, 3, 4, 7, 16]),
                         maxlen=r.choice([0, 0, 2, 3, 4, 5, 7]),
                         oosunk=r.random() < 0.5))


def run(chk):
    quiet()
    chk.model_check('BatchIterMC', MC_CFG)
    kinds = ['shuffle'] if chk.prop == 'P01' else ['linear', 'scoring']
    scns = []
    r = rng(chk, 'iter')
    gen = chk.scenarios('BatchIterGen', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n')
    r.shuffle(gen)
    if not chk.thorough:
        gen = gen[:300]
    chk.spec_scenarios = len(gen)
    for i, s in enumerate(gen):
        s['kind'] = kinds[i % len(kinds)]
        s['frac'] = [s['set']['fr'] if s['kind'] == 'shuffle' else 10] * len(s['files'])
        scns.append(s)
    nrand = chk.n(400, 6000)
    for i in range(nrand):
        kind = kinds[i % len(kinds)]
        s = random_scenario(r, kind)
        if kind == 'shuffle':
            s['source'] = r.choice(['file', 'file', 'gz'])
        else:
            s['source'] = r.choice(['file', 'mmap', 'gz'])
        scns.append(s)
    chk.random_scenarios += nrand
    # Many files: the file index must not wrap around.
    many = dict(files=[[['a'], ['b', 'c']][:1 + i % 2] for i in range(140)],
                frac=[10] * 140, kind=kinds[0], sched=['e', 'e'],
                set=dict(batch=16, maxlen=0, oosunk=True))
    scns.append(many)
    h = Harness(chk.scratch)
    cases = [h.run(s, r) for s in scns]
    chk.validate('BatchIterTrace', cases, 'INIT TraceInit\nNEXT TraceNext\nCONSTANT Cfgs = {}\nCHECK_DEADLOCK FALSE\n')
    chk.extra['reader_calls'] = sum(e['a'] != 'seq' for c in cases for e in c['ev'])
    chk.assumptions += ['lines are separated by newlines; words contain no whitespace',
                        'sequence limits of at least two words']
