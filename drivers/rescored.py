"""P16: lattices constructed after decoding, against Rescored.tla."""
import io
import multiprocessing
import random

import numpy

from vlib.tracing import quiet, silence, rng, error_event
from drivers import decoder as d

MC_CFG = '''SPECIFICATION RSpec
CONSTANTS N = %d
 MaxLinks = %d
 Words = {"a", "b"}
 Orders = %s
 Maxes <- %s
 Beams <- %s
 LinkScore <- MCLinkScore
 EndScore <- MCEndScore
 EndWord <- MCEndWord
INVARIANTS Meaning OnePath OriginalWords Returned AllWords NoDeadEnd ExactScores
CHECK_DEADLOCK FALSE
'''
TRACE_CFG = d.TRACE_CFG.replace('NEXT TraceNext', 'NEXT RTraceNext').replace('LogDrops = FALSE', 'LogDrops = TRUE')


def determinized(r, words, kaldi, size):
    """A random lattice with distinct words on the links from each node."""
    while True:
        lat = d.random_lattice(r, words, kaldi, size)
        final = lat['finals'][0]
        out = {}
        for k in lat['links']:
            out.setdefault(k['s'], []).append(k)
        ok = True
        for x, ks in out.items():
            named = [k for k in ks if not (kaldi and k['e'] == final)]
            if len(named) > len(words):
                ok = False
                break
            for k, w in zip(named, r.sample(words, len(named))):
                k['w'] = w
            if not kaldi and r.random() < 0.3:               # a null link to the end
                for k in named:
                    if k['e'] == final:
                        k['w'] = ''
                        break
        if not ok or d.paths(lat) > 40:
            continue
        first = out[lat['init']]
        if len(first) == 1 and sum(k['e'] == first[0]['e'] for k in lat['links']) == 1 and r.random() < 0.5:
            first[0]['w'] = ''
        # Nodes that are not final lead somewhere.
        for k in lat['links']:
            k['tr'] = [r.randint(1, 30) for _ in range(r.choice([0, 1, 2, 3]))] if kaldi else []
        return lat


def kaldi_text(lat, ids, r):
    groups = {}
    for k in lat['links']:
        w = '%s,%s,%s' % (d.dec(-k['m']), d.dec(-k['a']), '_'.join(str(x) for x in k['tr']))
        line = '%d %s' % (k['s'] - 1, w) if k['e'] in lat['finals'] else \
            '%d %d %d %s' % (k['s'] - 1, k['e'] - 1, ids[k['w'] or '<eps>'], w)
        groups.setdefault(k['s'], []).append(line)
    first = groups.pop(lat['init'])
    rest = list(groups.values())
    r.shuffle(rest)
    return ['utt'] + first + [x for g in rest for x in g]


def observe(lattice):
    links = []
    for node in lattice.nodes:
        for k in node.out_links:
            links.append(dict(s=int(k.start_node.id) + 1, e=int(k.end_node.id) + 1, w=k.word or '', nm=False,
                              a=d.unit(k.ac_logprob or 0), m=d.unit(k.lm_logprob or 0),
                              tr=[int(x) for x in k.transitions.split('_')] if k.transitions else []))
    return dict(n=len(lattice.nodes), init=int(lattice.initial_node.id) + 1,
                finals=[i + 1 for i, x in enumerate(lattice.nodes) if x.final], links=links)


def rescore_case(args):
    from theanolm.backend import InputError
    from theanolm.scoring import RescoredLattice
    from theanolm.scoring.slflattice import SLFLattice
    from theanolm.scoring.kaldilattice import KaldiLattice
    seed, lattices, size = args
    quiet()
    r = random.Random(seed)
    v, conf = d.vocabulary(r)
    o = d.options(r, 'P16')
    if r.random() < 0.75:
        o['order'] = r.choice([1, 1, 2, 3])
    if r.random() < 0.3:
        o['max'] = r.choice([1, 2, 3, 5])
    if r.random() < 0.25:
        o['beam'] = r.choice([1, 3, 8]) * d.UNIT
    pen = r.random() < 0.3
    case = dict(conf, opt=o, short=r.random() < 0.5, fromlat=r.random() < 0.2, linear=r.random() < 0.15,
                penalty=dict(has=pen, x=d.score(r) if pen else 0), stub=True, ev=[])
    with silence(), numpy.errstate(all='ignore'):
        try:
            decoder = d.make_decoder(d.StubNetwork(v), case)
            words = r.sample(d.POOL, r.randint(2, 4)) + r.choice([[], [], ['zz'], ['<unk>']])
            for _ in range(lattices):
                kaldi = r.random() < 0.5
                lat = determinized(r, words, kaldi, size)
                names = ['<eps>'] + sorted({k['w'] for k in lat['links'] if k['w']})
                ids = {w: i for i, w in enumerate(names)}
                if kaldi:
                    lattice = KaldiLattice(kaldi_text(lat, ids, r), names)
                else:
                    lattice = SLFLattice(io.StringIO(d.slf_text(lat, r)))
                toks, dropped = decoder.decode(lattice)
                new = RescoredLattice(lattice, toks, dropped, v)
                f = io.StringIO()
                e = dict(a='rescore', lat=lat, kaldi=kaldi, rejected=False, toks=[
                    dict(h=[str(w) for w in t.history_words(v)], a=d.unit(t.ac_logprob),
                         m=d.unit(t.lat_lm_logprob), n=d.unit(t.nn_lm_logprob)) for t in toks])
                try:
                    if kaldi:
                        new.write_kaldi(f, ids)
                        e['out'] = observe(KaldiLattice([x for x in f.getvalue().split('\n') if x.strip()], names))
                    else:
                        new.write_slf(f)
                        e['out'] = observe(SLFLattice(io.StringIO(f.getvalue())))
                except InputError:
                    e['rejected'] = True
                e['text'] = f.getvalue()
                case['ev'].append(e)
        except Exception as e:                               # noqa
            case['ev'].append(error_event(e))
    return case


def run(chk):
    chk.model_check('RescoredMC', MC_CFG % (chk.n((4, 4, '{0, 1, 2}', 'MCMaxes', 'MCBeams'),
                                                  (4, 5, '{0, 1, 2}', 'MCMaxes', 'MCBeams'))))
    chk.model_check('RescoredMC', MC_CFG % (chk.n((5, 5, '{1}', 'MCNone', 'MCNone'),
                                                  (5, 6, '{0, 1, 2}', 'MCNone', 'MCNone'))))
    r = rng(chk, 'rescored')
    jobs = [(r.randrange(2 ** 48), chk.n(14, 25), chk.n(7, 8)) for _ in range(chk.n(240, 2400))]
    with multiprocessing.get_context('fork').Pool(8) as pool:
        cases = pool.map(rescore_case, jobs, chunksize=2)
    chk.random_scenarios = sum(len(c['ev']) for c in cases)
    chk.validate('RescoredTrace', cases, cfg=TRACE_CFG)
