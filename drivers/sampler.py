"""P18: text sampling against TextSampling.tla."""
import argparse
import io
import math
import multiprocessing
import os
import random

import numpy

from vlib.tracing import quiet, silence, error_event
from drivers import nets

MC_CFG = '''SPECIFICATION Spec
CONSTANTS MaxN = %d
 MaxLen = %d
 MaxSeed = %d
INVARIANTS Lengths SeedFirst Follows Alone Written
CHECK_DEADLOCK FALSE
'''


def vocabulary(r):
    """Classes of words with membership probabilities, and the probabilities."""
    from theanolm import Vocabulary
    n = r.randint(1, 6)
    words = ['w%d' % i for i in range(n)]
    form = r.choice(['words', 'classes', 'srilm-classes', 'srilm-classes'])
    member = {w: 1.0 for w in ('<s>', '</s>', '<unk>')}
    if form == 'words':
        text = '\n'.join(words) + '\n'
        member.update({w: 1.0 for w in words})
    else:
        k = r.randint(1, n)
        groups = {}
        for i, w in enumerate(words):
            groups.setdefault(i % k if i < k else r.randrange(k), []).append(w)
        text = ''
        for g, ws in groups.items():
            if form == 'classes':
                shares = [1] * len(ws)
            else:
                shares = [r.choice([1, 2, 4, 12]) for _ in ws]
            for w, s in zip(ws, shares):
                member[w] = s / float(sum(shares))
                text += ('%s %d\n' % (w, g)) if form == 'classes' else 'C%d %.9f %s\n' % (g, member[w], w)
    oos = ['x', 'y'][:r.choice([0, 0, 1, 2])]
    v = Vocabulary.from_file(io.StringIO(text), form, oos_words=oos)
    if form == 'words' and r.random() < 0.5:
        v.compute_probs(dict([(w, r.randint(1, 9)) for w in words + oos] + [('<s>', 2), ('</s>', 2), ('<unk>', 1)]))
    return v, member


class Reference(object):
    """The probabilities of words after the words of one sequence."""

    def __init__(self, lines, v, member, variables):
        self.v, self.member = v, member
        net = nets.make(lines, v, minibatch=True)
        for k, var in net.get_variables().items():
            var.set_value(variables[k])
        self.fn = nets.compile_probs(net)
        self.cache = {}

    def classes(self, words):
        key = tuple(words)
        if key not in self.cache:
            w = numpy.array([[self.v.word_to_id[x]] for x in words], dtype='int64')
            self.cache[key] = numpy.asarray(
                self.fn(w, self.v.word_id_to_class_id[w].astype('int64'), numpy.ones(w.shape, 'int8'))[0],
                'float64')[-1, 0]
        return self.cache[key]

    def prob(self, words, w):
        if w not in self.member:
            return 0.0                                       # not a word of the shortlist
        c = self.v.word_id_to_class_id[self.v.word_to_id[w]]
        return float(self.classes(words)[c]) * self.member[w]

    def logs(self, words, start):
        res = []
        for t in range(start, len(words)):
            p = self.prob(words[:t], words[t])
            res.append(int(100 * max(-30.0, math.log10(p))) if p > 0 else -3000)
        return res


def counted(ref, seqs, seed, known):
    """Frequencies of the first sampled words, together and in neighbours."""
    n, at = len(seqs), len(seed) + 1
    base = ['<s>'] + seed
    first = {w: ref.prob(base, w) for w in known}
    depth = len(seqs[0]) - at
    exp = {(): 1.0}
    for _ in range(depth):
        exp = {k + (w,): p * ref.prob(base + list(k), w) for k, p in exp.items() if p * n > 0.01 for w in known}
    got, pair = {}, {}
    for s in seqs:
        k = tuple(s[at:at + depth])
        got[k] = got.get(k, 0) + 1
    for i in range(0, n - 1, 2):
        k = (seqs[i][at], seqs[i + 1][at])
        pair[k] = pair.get(k, 0) + 1
    keys = sorted(set(exp) | set(got))
    pairs = [(w, u) for w in known for u in known]
    return dict(a='count', n=n, seed=seed, what=[list(k) for k in keys], x=[got.get(k, 0) for k in keys],
                e=[int(round(n * exp.get(k, 0))) for k in keys], px=[pair.get(k, 0) for k in pairs],
                pe=[int(round(n // 2 * first[w] * first[u])) for w, u in pairs])


def words_of(r, known, sharp):
    return [r.choice([w for w in known if w != '</s>'] or known) for _ in range(r.choice([0, 0, 1, 2, 3]))]


def sample_case(job):
    key, scratch, num, kind, draws = job
    quiet()
    r = random.Random(key)
    nr = numpy.random.RandomState(r.randrange(2 ** 31))
    numpy.random.seed(r.randrange(2 ** 31))
    case = dict(words=[], ev=[], kind=kind)
    try:
        with silence(), numpy.errstate(all='ignore'):
            import h5py
            from theanolm import TextSampler
            from theanolm.commands import sample
            v, member = vocabulary(r)
            known = sorted(member)
            case['words'] = known
            lines = nets.random_description(r, depth=r.choice([1, 1, 2]), types=['fc', 'lstm', 'gru', 'gru', 'dropout'],
                                            output='softmax' if kind == 'command' else None)
            case['net'] = lines
            net = nets.make(lines, v, minibatch=False)
            if kind == 'count':
                nets.perturb(net, nr, 1.2)
            else:                                            # several possible words, and impossible ones
                nets.perturb(net, nr, 14.0)
                for k, x in net.get_variables().items():
                    if k.startswith('layers/out/'):
                        x.set_value((40 * nr.randint(-1, 2, x.get_value().shape)).astype(x.dtype))
            values = {k: x.get_value() for k, x in net.get_variables().items()}
            if kind == 'command':
                path = os.path.join(scratch, 'model%d.h5' % num)
                with h5py.File(path, 'w') as f:
                    v.get_state(f)
                    net.get_state(f)
            ref = Reference(lines, v, member, values)
            if kind != 'command':
                sampler = TextSampler(net)
            for _ in range(3 if kind != 'count' else 2):
                seed = words_of(r, known, True)
                if kind == 'count':
                    length = r.choice([2, 3, 4, 4])
                    seqs = sampler.generate(length, draws, ' '.join(seed))
                    ok = [s for s in seqs if len(s) == length + len(seed)]
                    case['ev'].append(dict(a='generate', seed=seed, length=length, number=draws, seqs=seqs[:50],
                                           lp=[]))
                    case['ev'][-1]['number'] = draws if len(seqs) != draws else len(seqs[:50])
                    if len(ok) == draws:
                        case['ev'].append(counted(ref, seqs, seed, known))
                elif kind == 'generate':
                    length, number = r.choice([1, 2, 8, 12, 20]), r.choice([1, 2, 3, 6])
                    text = r.choice([' ', '  ']).join(seed) + r.choice(['', '', ' ', '\n'])
                    if not seed and r.random() < 0.5:
                        seqs = sampler.generate(length, number)
                    else:
                        seqs = sampler.generate(length, number, r.choice(['', ' ']) + text)
                    case['ev'].append(dict(a='generate', seed=seed, length=length, number=number, seqs=seqs,
                                           lp=[ref.logs(s, len(seed) + 1) for s in seqs]))
                else:
                    length, number = r.choice([None, 2, 9]), r.choice([None, 1, 4])
                    runs = []
                    argv = [path, '--output-file', path + '.txt', '--random-seed', str(r.randint(1, 10 ** 6))]
                    if length is not None:
                        argv += ['--sentence-length', str(length)]
                    if number is not None:
                        argv += ['--num-sentences', str(number)]
                    if seed:
                        argv += ['--seed-sequence', ' '.join(seed)]
                    for _ in range(2):
                        p = argparse.ArgumentParser()
                        sample.add_arguments(p)
                        args = p.parse_args(argv)
                        sample.sample(args)
                        args.output_file.close()
                        with open(path + '.txt', encoding='utf-8') as f:
                            runs.append([x.split(' ') for x in f.read().split('\n')[:-1]])
                        numpy.random.seed(r.randrange(2 ** 31))
                    case['ev'].append(dict(a='command', seed=seed, length=30 if length is None else length,
                                           number=10 if number is None else number, lines=runs[0], again=runs[1],
                                           lp=[ref.logs(s, len(seed) + 1) for s in runs[0]]))
    except BaseException as e:                               # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        case['ev'].append(error_event(e))
    return case


def run(chk):
    quiet()
    chk.model_check('TextSamplingMC', MC_CFG % chk.n((2, 4, 2), (3, 5, 2)))
    kinds = ['generate', 'count', 'generate', 'command']
    jobs = [('%d/sampler/%d' % (chk.seed, i), chk.scratch, i, kinds[i % 4], chk.n(12000, 20000))
            for i in range(chk.n(48, 480))]
    with multiprocessing.get_context('fork').Pool(8) as pool:
        cases = pool.map(sample_case, jobs, chunksize=1)
    chk.random_scenarios = sum(len(c['ev']) for c in cases)
    chk.validate('TextSamplingTrace', cases)
