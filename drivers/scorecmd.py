"""P12: subword merging and the outputs of the score command against
Subwords.tla."""
import argparse
import io
import math
import multiprocessing
import os
import random
import re

import numpy

from vlib.tracing import quiet, silence, rng, error_event
from drivers import nets

MC_CFG = '''SPECIFICATION Spec
CONSTANTS MaxUnits = %d
 Markings = {"none", "word-boundary", "prefix-affix"}
INVARIANTS Agree OneLess Covered
CHECK_DEADLOCK FALSE
'''
UNITS = ['a', 'b+', '+c', '+d+', 'e', '<w>', '+', 'f+g', '<unk>', 'ä+', '+ö']


def mic(x):
    return int(round(float(x) * 1e6))


def sc(lp):
    if lp is None:
        return dict(k='none')
    if numpy.isneginf(lp):
        return dict(k='zero')
    if not numpy.isfinite(lp):
        return dict(k='bad')
    return dict(k='v', x=mic(lp))


def flags(units):
    return [dict(plusend=u.endswith('+'), plusstart=u.startswith('+')) for u in units]


def merge_event(units, lps, marking):
    from theanolm.commands.score import _merge_subwords
    keep = list(units), list(lps)
    words, merged = _merge_subwords(units, lps, None if marking == 'none' else marking)
    if (units, lps) != keep:
        return dict(a='error', what='arguments changed')
    return dict(a='merge', units=units, flags=flags(units), marking=marking,
                scores=[sc(x) for x in lps], lps=[sc(x) for x in merged],
                words=[list(w) if isinstance(w, (list, tuple)) else [w] for w in words])


def merge_case(r):
    ev = []
    try:
        for marking in ('none', 'word-boundary', 'prefix-affix'):
            n = r.randint(0, 9)
            units = ['<s>'] + [r.choice(UNITS) for _ in range(n)]
            if r.random() < 0.8 or n == 0:
                units.append('</s>')
            lps = [-r.random() * 5 for _ in units[1:]]
            for i in range(len(lps)):
                x = r.random()
                if x < 0.12 or (units[i + 1] == '<unk>' and x < 0.5):
                    lps[i] = None
                elif x < 0.17:
                    lps[i] = float('-inf')
            ev.append(merge_event(units, lps, marking))
    except Exception as e:                                   # noqa
        ev.append(error_event(e))
    return dict(ev=ev)


# -- the command ----------------------------------------------------------
def make_model(r, nr, path):
    import h5py
    from theanolm import Vocabulary
    units = ['a', 'b+', '+c', '+d+', 'e', '<w>', 'g']
    text = ''.join('%s %d\n' % (u, i % 5) for i, u in enumerate(units))
    oos = ['o', '+p', 'q+']
    v = Vocabulary.from_file(io.StringIO(text), 'classes', oos_words=oos)
    counts = {u: r.choice([0, 1, 2, 5]) for u in units}
    counts.update({u: r.randint(1, 4) for u in oos})
    counts.update({'<s>': 5, '</s>': 5})
    v.compute_probs(counts)
    net = nets.make(nets.random_description(r, depth=r.choice([0, 1]), types=['fc'], output='softmax'), v)
    nets.perturb(net, nr)
    with h5py.File(path, 'w') as f:
        v.get_state(f)
        net.get_state(f)
    return units + ['<s>', '</s>', '<unk>'], oos


LINE = re.compile(r'^log\(p\((.*) \| (.*)\)\) = (\S+)  \[(.*)\]$')
NONE = re.compile(r'^p\((.*) \| (.*)\) is not predicted  \[(.*)\]$')


def number(s):
    return float(s)


def parse_words(out):
    """Sentences of a word score output, and the rest of the lines."""
    sents, rest, cur = [], [], None
    for line in out.split('\n'):
        m = re.match(r'^# Sentence (\d+)$', line)
        if m:
            cur = dict(a='sent', number=int(m.group(1)), lines=[], hasppl=False, lnppl=0)
            sents.append(cur)
            continue
        m, n = LINE.match(line), NONE.match(line)
        if (m or n) and cur is not None:
            g = (m or n).groups()
            cur['lines'].append(dict(w=g[0].split(' '), h=g[1].split(' '),
                                     p=sc(number(g[2])) if m else dict(k='none'),
                                     info=[x.rsplit(':', 1)[1] for x in g[-1].split(' ')]))
            continue
        m = re.match(r'^Sentence perplexity: (\S+)$', line)
        if m and cur is not None:
            cur.update(hasppl=True, lnppl=mic(math.log(number(m.group(1)))))
            continue
        if line:
            cur = None
            rest.append(line)
    return sents, rest


def parse_stats(lines, base):
    e = dict(a='stats', hasppl=False, hasbase=False, ce=0, cebase=0, lnppl=0)
    keys = {'Number of sentences': 'sentences', 'Number of words': 'words',
            'Number of tokens': 'tokens', 'Number of predicted probabilities': 'probs',
            'Number of excluded (OOV) words': 'unks', 'Number of zero probabilities': 'zeros'}
    for line in lines:
        k, _, v = line.rpartition(': ')
        if k in keys:
            e[keys[k]] = int(v)
        elif k == 'Cross entropy (base e)':
            e['ce'] = mic(number(v))
        elif k == 'Cross entropy (base %s)' % base:
            e.update(hasbase=True, cebase=mic(number(v)))
        elif k == 'Perplexity':
            e.update(hasppl=True, lnppl=mic(math.log(number(v))))
        else:
            return dict(a='error', what='unexpected output: ' + line[:100])
    return e


def command_case(job):
    seed, scratch, i, conf = job
    quiet()
    r = random.Random(seed)
    nr = numpy.random.RandomState(r.randrange(2 ** 31))
    numpy.random.seed(r.randrange(2 ** 31))
    kind, marking, shortlist, excl, base = conf
    ev = []
    case = dict(ev=ev, kind=kind, marking=marking, base=1000000 if base is None else mic(math.log(base)),
                short=[], oos=[])
    d = os.path.join(scratch, 'job%d' % i)
    os.makedirs(d)
    model, inp, outp = [os.path.join(d, x) for x in ('model.h5', 'in.txt', 'out.txt')]
    try:
        with silence(), numpy.errstate(all='ignore'):
            short, oos = make_model(r, nr, model)
            case.update(short=short, oos=oos)
            from theanolm import Network
            from theanolm.commands import score
            from theanolm.scoring import TextScorer
            lines = []
            words = ['a', 'b+', '+c', '+d+', 'e', 'g', 'o', '+p', 'q+', 'zz', '<unk>']
            for k in range(r.choice([3, 17, 40])):
                n = r.choice([0, 1, 2, 3, 5, 8])
                line = [r.choice(words) for _ in range(n)]
                if marking == 'word-boundary':
                    line = [x for u in line for x in ([u, '<w>'] if r.random() < 0.6 else [u])]
                    if line and r.random() < 0.6:
                        line = ['<w>'] + line
                if line and r.random() < 0.2:
                    line = ['<s>'] + line
                if line and r.random() < 0.2:
                    line = line + ['</s>']
                lines.append(line)
            with open(inp, 'w', encoding='utf-8') as f:
                f.write('\n'.join(' '.join(x) for x in lines) + '\n')
            parser = argparse.ArgumentParser()
            score.add_arguments(parser)
            argv = [model, inp, '--output', kind, '--output-file', outp, '--log-file', os.path.join(d, 'log')]
            if marking != 'none' and kind != 'utterance-scores':
                argv += ['--subwords', marking]
            if shortlist:
                argv.append('--shortlist')
            if excl:
                argv.append('--exclude-unk')
            if base:
                argv += ['--log-base', str(base)]
            args = parser.parse_args(argv)
            score.score(args)
            args.output_file.close()
            with open(outp, encoding='utf-8') as f:
                out = f.read()
            net = Network.from_file(model, exclude_unk=excl)
            scorer = TextScorer(net, shortlist, excl)
            v = net.vocabulary
            for x in lines:
                if not x:
                    continue
                s = x if x[0] == '<s>' else ['<s>'] + x
                s = s if s[-1] == '</s>' else s + ['</s>']
                ids = numpy.asarray(v.words_to_ids(s)).reshape(-1, 1)
                cls, mem = v.get_class_memberships(ids)
                lps = scorer.score_batch(ids, cls, mem, numpy.ones(ids.shape, 'int8'))[0]
                ev.append(dict(a='unit', units=s, flags=flags(s), scores=[sc(y) for y in lps]))
            if kind == 'utterance-scores':
                for line in out.split('\n'):
                    if line:
                        ev.append(dict(a='utt', x=mic(number(line))))
                ev.append(dict(a='wrote'))
            else:
                sents, rest = parse_words(out)
                ev += sents
                ev.append(parse_stats(rest, base))
    except Exception as e:                                   # noqa
        ev.append(error_event(e))
    return case


def run(chk):
    quiet()
    chk.model_check('SubwordsMC', MC_CFG % chk.n(5, 6))
    r = rng(chk, 'score')
    confs = []
    for marking in ('none', 'word-boundary', 'prefix-affix'):
        for shortlist, excl in ((False, False), (True, False), (False, True), (True, True)):
            confs.append(('word-scores', marking, shortlist, excl, r.choice([None, 2, 10])))
        confs.append(('perplexity', marking, r.random() < 0.5, r.random() < 0.5, r.choice([None, 10])))
    for shortlist, excl in ((False, False), (True, False), (False, True), (True, True)):
        confs.append(('utterance-scores', 'none', shortlist, excl, r.choice([None, 10])))
    confs = confs * chk.n(1, 8)
    jobs = [('%d/%d' % (chk.seed, i), chk.scratch, i, c) for i, c in enumerate(confs)]
    with multiprocessing.get_context('fork').Pool(8) as pool:
        cases = pool.map(command_case, jobs, chunksize=1)
    with silence(), numpy.errstate(all='ignore'):
        for _ in range(chk.n(1500, 15000)):
            cases.append(merge_case(r))
    chk.random_scenarios = len(cases)
    chk.validate('SubwordsTrace', cases)
    chk.assumptions += ['a boundary token that ends no word has no part in word scores',
                        'scores converted to another base are compared within one percent']
