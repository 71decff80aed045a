"""P17: lattice jobs and the decode command against LatticeJobs.tla."""
import argparse
import gzip
import io
import math
import multiprocessing
import os
import random

import numpy

from vlib.tracing import quiet, silence, rng, error_event
from drivers import decoder as d
from drivers import nets
from drivers import rescored

MC_CFG = '''SPECIFICATION Spec
CONSTANTS MaxPaths = %d
 MaxJobs = %d
 MaxLines = %d
INVARIANTS EachOnce Balanced InOrder ReaderRight
CHECK_DEADLOCK FALSE
'''


def write(path, text):
    f = gzip.open(path, 'wt', encoding='utf-8') if path.endswith('.gz') else open(path, 'w', encoding='utf-8')
    with f:
        f.write(text)


def paths_of(lattice):
    out = []

    def walk(node, words):
        if node.final:
            out.append(words)
        for k in node.out_links:
            walk(k.end_node, words + ([k.word] if k.word is not None else []))
    walk(lattice.initial_node, [])
    return out


# -- reading --------------------------------------------------------------
def words_text(r, names):
    """Word IDs of the words; they need not be consecutive."""
    ids = {w: i for i, w in enumerate(names)}
    if r.random() < 0.3:
        ids = {w: i + (3 if i else 0) for w, i in ids.items()}
    items = sorted(ids.items())
    r.shuffle(items)
    return ids, ''.join('%s %d\n' % x for x in items) + ('\n' if r.random() < 0.2 else '')


def job_case(r, scratch, num):
    from theanolm.scoring import LatticeBatch
    kaldi = r.random() < 0.5
    n = r.randint(1, 7)
    jobs = r.randint(1, 9)
    names = ['<eps>'] + ['w%d' % i for i in range(40)]
    ids, vocab = words_text(r, names)
    files, count = [], 0
    d_ = os.path.join(scratch, 'batch%d' % num)
    os.makedirs(d_)
    for i in range(n):
        path = os.path.join(d_, 'lat%d%s' % (i, r.choice(['', '.gz'])))
        if kaldi:
            lines, text = [], ''
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                for _ in range(r.choice([0, 0, 0, 1, 2])):
                    lines.append(dict(k='blank', utt='', w=''))
                    text += r.choice(['\n', '  \n'])
                utt, w = 'utt%d' % count, 'w%d' % (count % 40)
                count += 1
                lines += [dict(k='name', utt=utt, w=w), dict(k='line', utt='', w=''), dict(k='line', utt='', w='')]
                text += '%s%s\n0\t1\t%d\t1.5,2.5,1_2\n1\n' % (utt, r.choice(['', ' ']), ids[w])
                lines.append(dict(k='blank', utt='', w=''))
                text += '\n'
            if lines and r.random() < 0.4:                   # no empty line in the end
                lines.pop()
                text = text[:-1]
                if r.random() < 0.5:
                    text = text[:-1]
            write(path, text)
            files.append(dict(name=path, lines=lines, utt='', w=''))
        else:
            utt, w = 'utt%d' % count, 'w%d' % (count % 40)
            count += 1
            write(path, 'VERSION=1.0\nUTTERANCE=%s\nN=2 L=1\nI=0\nI=1\nJ=0 S=0 E=1 W=%s a=-1 l=-1\n' % (utt, w))
            files.append(dict(name=path, lines=[], utt=utt, w=w))
    order = [f['name'] for f in files]
    r.shuffle(order)
    split = r.choice([0, len(order), r.randint(0, len(order))])
    args, listed = order[:split], order[split:]
    lines = list(args)
    text = ''
    has_list = bool(listed) or r.random() < 0.3
    for p in listed:
        if r.random() < 0.2:
            lines.append('')
            text += r.choice(['\n', '  \n'])
        lines.append(p)
        text += r.choice(['', ' ']) + p + r.choice(['\n', '\n', ' \n'])
    if text and r.random() < 0.3:
        text = text.rstrip('\n')
    case = dict(kaldi=kaldi, files=files, list=lines, jobs=jobs, ev=[], lnbase=1000, output='', nbest=1,
                scale=dict(has=False, x=0), wip=dict(has=False, x=0))
    given = list(args)
    try:
        for job in range(jobs):
            batch = LatticeBatch(given, io.StringIO(text) if has_list else None, 'kaldi' if kaldi else 'slf',
                                 io.StringIO(vocab) if kaldi else None, jobs, job)

            def got():
                res = []
                for x in batch:
                    p = paths_of(x)
                    res.append(dict(utt=str(x.utterance_id), w=p[0][0] if p and p[0] else ''))
                return res
            case['ev'].append(dict(a='job', job=job, got=got(), again=got(), changed=given != args))
    except Exception as e:                                   # noqa
        case['ev'].append(error_event(e))
    return case


# -- the command ----------------------------------------------------------
def make_model(r, nr, path):
    import h5py
    v, conf = d.vocabulary(r)
    net = nets.make(nets.random_description(r, depth=r.choice([0, 1]), types=['fc', 'gru'], output='softmax'), v)
    nets.perturb(net, nr, 0.6)
    with h5py.File(path, 'w') as f:
        v.get_state(f)
        net.get_state(f)


def command_case(job):
    seed, scratch, num, output = job
    quiet()
    r = random.Random(seed)
    nr = numpy.random.RandomState(r.randrange(2 ** 31))
    numpy.random.seed(r.randrange(2 ** 31))
    d_ = os.path.join(scratch, 'cmd%d' % num)
    os.makedirs(d_)
    model, outp = os.path.join(d_, 'model.h5'), os.path.join(d_, 'out.txt')
    kaldi = r.random() < 0.5
    if output in ('slf', 'kaldi'):
        kaldi = output == 'kaldi'
    base = r.choice([None, None, 10, 2])
    # What the command line means.
    nbest = r.choice([1, 1, 2, 3, 100])
    weight = r.randint(0, 4)
    scale = r.choice([None, 2.0, 0.5])
    wip = r.choice([None, -0.5, 1.25])
    unk = r.choice([None, -3.5])
    order = r.choice([None, None, 2])
    maxt = r.choice([None, None, 3])
    beam = r.choice([None, None, 4.0])
    relative = r.choice([None, None, 3]) if maxt or beam else None
    minmax, minbeam = r.choice([None, 1, 2]), r.choice([None, 1.5])
    short, fromlat, linear = r.random() < 0.4, r.random() < 0.25, r.random() < 0.25
    lnb = 1.0 if base is None else math.log(base)
    jobs = r.choice([1, 1, 2, 3])
    case = dict(kaldi=kaldi, files=[], list=[], jobs=jobs, lnbase=int(round(1000 * lnb)), output=output, nbest=nbest,
                scale=dict(has=scale is not None, x=d.unit(scale or 0)),
                wip=dict(has=wip is not None, x=d.unit((wip or 0) * lnb)), ev=[])
    try:
        with silence(), numpy.errstate(all='ignore'):
            make_model(r, nr, model)
            from theanolm import Network
            from theanolm.commands import decode
            from theanolm.scoring import LatticeDecoder
            from theanolm.scoring.slflattice import SLFLattice
            from theanolm.scoring.kaldilattice import KaldiLattice
            words = r.sample(d.POOL, 4) + ['zz']
            names = ['<eps>'] + words
            ids = {w: i for i, w in enumerate(names)}
            lats, files = {}, []
            for i in range(r.randint(1, 4)):
                path = os.path.join(d_, 'l%d%s' % (i, r.choice(['', '.gz'])))
                text, lines, utt = '', [], ''
                for k in range(r.choice([1, 2, 3]) if kaldi else 1):
                    while True:
                        lat = (rescored.determinized if output in ('slf', 'kaldi') else
                               d.random_lattice)(r, words, kaldi, 5)
                        if d.paths(lat) <= 12:
                            break
                    utt = 'utt-%d-%d' % (i, k)
                    if kaldi:
                        body = d.kaldi_lines(lat, ids, r)
                        body[0] = utt
                        text += '\n'.join(body) + '\n\n'
                        lines += [dict(k='name', utt=utt, w='')] + [dict(k='line', utt='', w='')] * (len(body) - 1)
                        lines.append(dict(k='blank', utt='', w=''))
                        lats[utt] = lambda body=body: KaldiLattice(list(body), list(names))
                    else:
                        if r.random() < 0.4:
                            lat['haswip'], lat['wip'] = True, r.randint(-d.UNIT, d.UNIT)
                        text = d.slf_text(lat, r).replace('UTTERANCE=utt', 'UTTERANCE=' + utt)
                        lats[utt] = lambda text=text: SLFLattice(io.StringIO(text))
                write(path, text)
                files.append(dict(name=path, lines=lines, utt='' if kaldi else utt, w=''))
            order_ = [f['name'] for f in files]
            r.shuffle(order_)
            case.update(files=files, list=order_)
            argv = [model, '--output-file', outp, '--output', output, '--lattice-format', 'kaldi' if kaldi else 'slf',
                    '--log-file', os.path.join(d_, 'log'), '--nnlm-weight', str(weight / 4.0)]
            if r.random() < 0.5:
                argv += ['--lattices'] + order_
            else:
                write(os.path.join(d_, 'list'), '\n'.join(order_) + '\n')
                argv += ['--lattice-list', os.path.join(d_, 'list')]
            if kaldi or output == 'kaldi':
                write(os.path.join(d_, 'words.txt'), ''.join('%s %d\n' % x for x in ids.items()))
                argv += ['--kaldi-vocabulary', os.path.join(d_, 'words.txt')]
            for name, value in (('lm-scale', scale), ('wi-penalty', wip), ('unk-penalty', unk), ('log-base', base),
                                ('recombination-order', order), ('max-tokens-per-node', maxt), ('beam', beam),
                                ('prune-relative', relative), ('abs-min-max-tokens', minmax),
                                ('abs-min-beam', minbeam)):
                if value is not None:
                    argv.append('--%s=%s' % (name, value))
            if nbest != 1 or r.random() < 0.5:
                argv.append('--n-best=%d' % nbest)
            for name, value in (('shortlist', short), ('unk-from-lattice', fromlat), ('linear-interpolation', linear)):
                if value:
                    argv.append('--' + name)
            network = Network.from_file(model, mode=Network.Mode(minibatch=False))
            v = network.vocabulary
            direct = LatticeDecoder(network, {
                'nnlm_weight': weight / 4.0, 'lm_scale': scale, 'wi_penalty': None if wip is None else wip * lnb,
                'unk_penalty': unk, 'use_shortlist': short, 'unk_from_lattice': fromlat,
                'linear_interpolation': linear, 'max_tokens_per_node': maxt, 'beam': beam,
                'recombination_order': order, 'prune_extra_limit': relative,
                'abs_min_max_tokens': 30 if minmax is None else minmax,
                'abs_min_beam': 150 if minbeam is None else minbeam})
            for j in range(jobs):
                args = argparse.ArgumentParser()
                decode.add_arguments(args)
                args = args.parse_args(argv + (['--num-jobs', str(jobs), '--job', str(j)] if jobs > 1 else []))
                decode.decode(args)
                args.output_file.close()
                with open(outp, encoding='utf-8') as f:
                    out = f.read()
                mine = [f for p in order_[j::jobs] for f in files if f['name'] == p]
                utts = [x['utt'] for f in mine for x in f['lines'] if x['k'] == 'name'] if kaldi else \
                    [f['utt'] for f in mine]
                found = []
                for utt in utts:
                    lattice = lats[utt]()
                    toks = direct.decode(lattice)[0]
                    found.append(dict(
                        utt=utt, scale=dict(has=lattice.lm_scale is not None, x=d.unit(lattice.lm_scale or 0)),
                        wip=dict(has=lattice.wi_penalty is not None, x=d.unit(lattice.wi_penalty or 0)),
                        toks=[dict(h=[str(w) for w in t.history_words(v)], a=d.unit(t.ac_logprob),
                                   g=d.unit(t.graph_logprob), t=d.unit(t.total_logprob)) for t in toks]))
                if output in ('slf', 'kaldi'):
                    case['ev'].append(rescored_event(j, found, out, output, names))
                else:
                    case['ev'].append(dict(a='decode', job=j, lats=found, lines=[parse(x, output) for x in out.split('\n')[:-1]]))
    except BaseException as e:                               # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        case['ev'].append(error_event(e))
    return case


def parse(line, output):
    if output == 'ref':
        utt, _, w = line.partition(' ')
        return dict(utt=utt, w=w.split(' '))
    if output == 'trn':
        w, _, utt = line.rpartition(' ')
        return dict(utt=utt[1:-1] if utt[:1] + utt[-1:] == '()' else utt, w=w.split(' '))
    f = line.split(' ')
    return dict(utt=f[0], a=d.unit(float(f[1])), g=d.unit(float(f[2])), t=d.unit(float(f[3])), n=int(f[4]), w=f[5:])


def rescored_event(j, found, out, output, names):
    from theanolm.scoring.slflattice import SLFLattice
    from theanolm.scoring.kaldilattice import KaldiLattice
    outs = []
    if output == 'slf':
        parts, cur = [], None
        for line in out.split('\n'):
            if line.startswith('VERSION='):
                cur = []
                parts.append(cur)
            if cur is not None:
                cur.append(line)
        lattices = [SLFLattice(io.StringIO('\n'.join(p) + '\n')) for p in parts]
    else:
        lattices = [KaldiLattice(p.split('\n'), names) for p in out.split('\n\n') if p.strip()]
    for x in lattices:
        outs.append(dict(utt=str(x.utterance_id), paths=[['<s>'] + p + ['</s>'] for p in paths_of(x)],
                         scale=dict(has=x.lm_scale is not None, x=d.unit(x.lm_scale or 0)),
                         wip=dict(has=x.wi_penalty is not None, x=d.unit(x.wi_penalty or 0))))
    return dict(a='rescore', job=j, lats=found, outs=outs)


def run(chk):
    quiet()
    chk.model_check('LatticeJobsMC', MC_CFG % chk.n((6, 7, 8), (9, 10, 12)))
    r = rng(chk, 'latticebatch')
    formats = ['ref', 'trn', 'full', 'full', 'slf', 'kaldi']
    jobs = [('%d/%d' % (chk.seed, i), chk.scratch, i, formats[i % 6]) for i in range(chk.n(48, 360))]
    with multiprocessing.get_context('fork').Pool(8) as pool:
        cases = pool.map(command_case, jobs, chunksize=1)
    with silence():
        for i in range(chk.n(250, 2500)):
            cases.append(job_case(r, chk.scratch, i))
    chk.random_scenarios = sum(len(c['ev']) for c in cases)
    chk.validate('LatticeJobsTrace', cases)
