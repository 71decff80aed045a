"""P15: reading, ordering and writing lattices against LatticeIO.tla."""
import io
import math

from vlib.tracing import quiet, silence, rng, error_event

MC_CFG = '''SPECIFICATION Spec
CONSTANTS N = %d
 MaxLinks = %d
 Words = {"a", "b"}
INVARIANTS AllMoved SortRight RoundSlf RoundKaldi
CHECK_DEADLOCK FALSE
'''
PLAIN = ['a', 'b', 'c', "it's", 'x=y', 'ä', 'a,b', '<unk>', 'w(2)', '5', 'I=3']
ODD = ['say "hi"', 'new york', 'back\\slash', 'C#', 'a#b', '"', '\\', "'", '"x', 'tab\tword', 'q\\"']
NULLS = ['!NULL', '!SIL', '#0', '#x']


def mic(x):
    return int(round(float(x) * 100000))


def observe(lattice):
    links = []
    for node in lattice.nodes:
        for k in node.out_links:
            links.append(dict(s=int(k.start_node.id) + 1, e=int(k.end_node.id) + 1,
                              w='' if k.word is None else str(k.word),
                              a=0 if k.ac_logprob is None else mic(k.ac_logprob),
                              m=0 if k.lm_logprob is None else mic(k.lm_logprob),
                              nm=k.lm_logprob is None, tr=k.transitions or ''))
    return dict(rejected=False, n=len(lattice.nodes), init=int(lattice.initial_node.id) + 1,
                finals=[i + 1 for i, x in enumerate(lattice.nodes) if x.final], links=links,
                time=[-1 if x.time is None else int(round(x.time * 100)) for x in lattice.nodes],
                utt=str(lattice.utterance_id),
                scale=0 if lattice.lm_scale is None else int(round(float(lattice.lm_scale) * 1000)),
                wip=0 if lattice.wi_penalty is None else mic(lattice.wi_penalty))


def read(make):
    from theanolm.backend import InputError
    try:
        lattice = make()
        return lattice, observe(lattice)
    except InputError:
        return None, dict(rejected=True)


def quoted(r, w):
    if any(c.isspace() or c in '"\\' for c in w) or w == '' or r.random() < 0.25:
        return '"%s"' % w.replace('\\', '\\\\').replace('"', '\\"')
    return w


def structure(r, size):
    """Pairs of nodes, mostly acyclic and mostly with one way out."""
    n = r.randint(1, size)
    if r.random() < 0.4:
        pairs = [(i, i + 1) for i in range(1, n)]
    else:                                                    # branches
        pairs = [(r.randint(1, i - 1), i) for i in range(2, n + 1)]
        pairs += [(i, r.choice([n, r.randint(i + 1, n)])) for i in range(2, n) if not any(a == i for a, _ in pairs)]
    for _ in range(r.randint(0, size)):
        i = r.randint(1, n)
        j = r.randint(1, n)
        if i != j:
            pairs.append((min(i, j), max(i, j)))
    style = r.random()
    if style < 0.1 and n > 2:                               # a way back
        i = r.randint(2, n)
        pairs.append((i, r.randint(1, i)))
    elif style < 0.2 and n > 1:                              # dead ends and unreachable nodes
        pairs.remove(r.choice(pairs))
    elif style < 0.3 and n > 2:                              # unreachable node that leads in
        n += 1
        pairs.append((n, r.randint(2, n - 1)))
    elif style < 0.35 and n > 2:                             # a cycle beside the paths
        n += 2
        pairs += [(1, n - 1), (n - 1, n), (n, n - 1)]
    return n, pairs


def shuffled(r, n, pairs, fixed=None):
    order = list(range(1, n + 1))
    r.shuffle(order)
    num = {i + 1: order[i] for i in range(n)}
    pairs = [(num[a], num[b]) for a, b in pairs]
    r.shuffle(pairs)
    return num, pairs


def slf_case(r, size):
    n, pairs = structure(r, size)
    num, pairs = shuffled(r, n, pairs)
    linear = r.random() < 0.15
    base, lnbase = r.choice([(None, 1.0), (None, 1.0), ('10', math.log(10)), ('2', math.log(2)),
                             ('2.718281828459045', 1.0), ('1.0003', math.log(1.0003))])
    if linear:
        base = r.choice(['0', '0.0'])
    words = r.sample(PLAIN, 4) + r.sample(ODD, 2)
    style = r.choice(['links', 'links', 'nodes', 'mixed'])

    def word():
        return r.choice(NULLS) if r.random() < 0.25 else r.choice(words)

    def value():
        return 0 if r.random() < 0.1 else r.randint(1, 40) if linear else -r.randint(1, 600)
    start = num[1] if r.random() < 0.6 else 0
    nodes = []
    for i in range(1, n + 1):
        w = 'none'
        if style == 'nodes' and r.random() < 0.95 or style == 'mixed' and r.random() < 0.1:
            w = word()
        nodes.append(dict(i=i, w=w, t=-1))
    if r.random() < 0.5:
        back = {v: k for k, v in num.items()}
        for x in nodes:
            x['t'] = 25 * (back[x['i']] - 1)
        if r.random() < 0.5:                                 # at the same time, or in no order
            for x in nodes:
                x['t'] = 25 * r.randint(0, n)
    links = [dict(s=a, e=b, w=word() if style in ('links', 'mixed') and r.random() < 0.9 else 'none',
                  a=value(), m=value()) for a, b in pairs]
    ends = [num[r.choice([n, n, r.randint(1, n)])]] if r.random() < 0.3 else []
    file = dict(n=n, l=len(links) + (r.choice([1, -1]) if r.random() < 0.03 else 0), start=start, ends=ends,
                nodes=nodes, links=links)
    utt = r.choice(['u1', 'an utterance', 'x"y', 'a\\b', 'C#1', "d'e"])
    lmscale = r.choice([0, 0, 1, 7])
    wip = 0 if r.random() < 0.5 else r.randint(1, 30) if linear else r.choice([-50, -7, 30])

    def num_text(v):
        return repr(1.0 / v) if linear else repr(v / 100.0)
    lines = []
    if r.random() < 0.5:
        lines.append('# A comment with "an odd quote')
    lines.append('VERSION=1.0')
    head = ['%s=%s' % (r.choice(['UTTERANCE', 'U']), quoted(r, utt))]
    if base is not None:
        head.append('base=' + base)
    if lmscale:
        head.append('lmscale=%d' % lmscale)
    if wip:
        head.append('wdpenalty=' + num_text(wip))
    if start:
        head.append('start=%d' % (start - 1))
    head += ['end=%d' % (x - 1) for x in ends]
    r.shuffle(head)
    if r.random() < 0.5:
        lines += head
    else:
        lines.append('  '.join(head))
    if r.random() < 0.2:
        lines.append('')
    counts = ['%s=%d' % (r.choice(['N', 'NODES']), n), '%s=%d' % (r.choice(['L', 'LINKS']), file['l'])]
    r.shuffle(counts)
    lines += counts if r.random() < 0.3 else [r.choice([' ', '\t']).join(counts)]
    body = []
    long_names = r.random() < 0.3
    for x in nodes:
        f = []
        if x['t'] >= 0:
            f.append('%s=%s' % ('time' if long_names else 't', x['t'] / 100.0))
        if x['w'] != 'none':
            f.append('%s=%s' % ('WORD' if long_names else 'W', quoted(r, x['w'])))
        r.shuffle(f)
        body.append(' '.join(['I=%d' % (x['i'] - 1)] + f))
    for k, x in enumerate(links):
        f = ['%s=%d' % ('START' if long_names else 'S', x['s'] - 1), '%s=%d' % ('END' if long_names else 'E', x['e'] - 1)]
        if x['w'] != 'none':
            f.append('%s=%s' % ('WORD' if long_names else 'W', quoted(r, x['w'])))
        if x['a']:
            f.append('%s=%s' % ('acoustic' if long_names else 'a', num_text(x['a'])))
        if x['m']:
            f.append('%s=%s' % ('language' if long_names else 'l', num_text(x['m'])))
        if r.random() < 0.2:
            f.append('v=1')
        r.shuffle(f)
        body.append(r.choice([' ', '\t']).join(['J=%d' % k] + f))
    if r.random() < 0.3:
        r.shuffle(body)
    if r.random() < 0.3:
        body.insert(r.randint(0, len(body)), '# "')
    text = '\n'.join(lines + body) + '\n'
    case = dict(kind='slf', file=file, nulls=NULLS, linear=linear, lnbase=mic(lnbase),
                ln=[mic(math.log(i)) for i in range(1, 41)], utt=utt, lmscale=lmscale, wip=wip, text=text, ev=[])
    from theanolm.scoring.slflattice import SLFLattice
    finish(r, case, lambda: SLFLattice(io.StringIO(text)))
    return case


def kaldi_case(r, size):
    n, pairs = structure(r, size)
    num, pairs = shuffled(r, n, pairs)
    names = ['<eps>'] + r.sample([w for w in PLAIN if '=' not in w], 4)
    rare = r.random() < 0.08
    if rare:
        names.append(r.choice(['#0', '<s>', '</s>']))
    file = []

    def line(a, b):
        tr = r.choice(['', '1_2', '3', '4_5_6'])
        m, ac = r.choice([0, r.randint(-300, 600)]), r.choice([0, r.randint(-300, 600)])
        return {'from': a, 'to': b, 'w': r.choice(names) if b else '', 'a': ac, 'm': m, 'tr': tr}
    groups = {}
    for a, b in pairs:
        groups.setdefault(a, []).append(line(a, b))
    for x in range(1, n + 1):
        if x == num[n] or r.random() < 0.2:
            groups.setdefault(x, []).append(line(x, 0))
    init = num[1]
    first = groups.pop(init, [])
    for g in groups.values():
        r.shuffle(g)
    rest = [x for g in r.sample(sorted(groups.items()), len(groups)) for x in g[1]]
    if r.random() < 0.2:
        r.shuffle(rest)
    file = first + rest
    utt = r.choice(['utt-1', 'u', 'a#b'])
    text = [utt]
    for x in file:
        weight = '%s,%s,%s' % (x['m'] / 100.0, x['a'] / 100.0, x['tr'])
        if not x['tr'] and not x['a']:
            weight = r.choice([weight, '%s' % (x['m'] / 100.0), '%s,' % (x['m'] / 100.0)])
        elif not x['tr'] and r.random() < 0.5:
            weight = weight[:-1]
        if not x['m'] and r.random() < 0.3:
            weight = ',%s,%s' % (x['a'] / 100.0, x['tr'])
        if x['to']:
            text.append('%d %d %d %s' % (x['from'] - 1, x['to'] - 1, names.index(x['w']), weight))
        elif x['tr'] or x['a'] or x['m']:
            text.append('%d %s' % (x['from'] - 1, weight))
        else:
            text.append('%d' % (x['from'] - 1))
    case = dict(kind='kaldi', file=file, nulls=['<eps>'], linear=False, lnbase=100000, ln=[0], utt=utt, lmscale=0,
                wip=0, text='\n'.join(text), names=names, ev=[])
    from theanolm.scoring.kaldilattice import KaldiLattice
    finish(r, case, lambda: KaldiLattice(list(text), list(names)))
    return case


def finish(r, case, make):
    from theanolm.backend import InputError
    from theanolm.scoring.slflattice import SLFLattice
    from theanolm.scoring.kaldilattice import KaldiLattice
    ev = case['ev']
    try:
        lattice, obs = read(make)
        ev.append(dict(a='read', obs=obs, what='read'))
        if lattice is None:
            return
        try:
            ord_ = [int(x.id) + 1 for x in lattice.sorted_nodes()]
            ev.append(dict(a='order', rejected=False, ord=ord_, links=obs['links'], init=obs['init'], n=obs['n'],
                           time=obs['time']))
        except InputError:
            ev.append(dict(a='order', rejected=True, ord=[], links=obs['links'], init=obs['init'], n=obs['n'],
                           time=obs['time']))
        sinks = [x for x in lattice.nodes if not x.out_links]
        # SLF has no way of writing out which node is final: it is the one that leads nowhere.
        if len(sinks) == 1 and sinks[0].final:
            f = io.StringIO()
            lattice.write_slf(f)
            _, again = read(lambda: SLFLattice(io.StringIO(f.getvalue())))
            ev.append(dict(a='again', what='slf', obs=again, before=obs, text=f.getvalue()))
        final_words = any(k.word is not None for x in lattice.nodes for k in x.out_links if k.end_node.final)
        through = any(x.final and x.out_links for x in lattice.nodes)
        missing = any(k.ac_logprob is None or k.lm_logprob is None for x in lattice.nodes for k in x.out_links)
        spaces = any(k.word is not None and ' ' in k.word for x in lattice.nodes for k in x.out_links)
        if case['kind'] == 'kaldi' or (not final_words and not through and not missing and not spaces and
                                       lattice.initial_node.out_links and case['utt'] == case['utt'].strip()):
            words = ['<eps>'] + sorted({k['w'] for k in obs['links']} - {'', '<eps>'})
            f = io.StringIO()
            lattice.write_kaldi(f, {w: i for i, w in enumerate(words)})
            lines = f.getvalue().split('\n')
            _, again = read(lambda: KaldiLattice([x for x in lines if x.strip()], words))
            ev.append(dict(a='again', what='kaldi', obs=again, before=obs, text=f.getvalue()))
    except Exception as e:                                   # noqa
        ev.append(error_event(e))


def chain_case(r, n):
    """A lattice as long as a real one, with the words in the nodes or links."""
    from theanolm.backend import InputError
    from theanolm.scoring.slflattice import SLFLattice
    in_nodes = r.random() < 0.5
    lines = ['N=%d L=%d' % (n, n - 1)]
    lines += ['I=%d t=%.2f%s' % (i, i / 100.0, ' W=w' if in_nodes and i else '') for i in range(n)]
    lines += ['J=%d S=%d E=%d%s a=-1 l=-1' % (i, i, i + 1, '' if in_nodes else ' W=w') for i in range(n - 1)]
    e = dict(a='chain', n=n, rejected=False, inorder=False, words=0)
    case = dict(kind='kaldi', file=[], nulls=[], linear=False, lnbase=1, ln=[0], utt='', lmscale=0, wip=0, ev=[e])
    try:
        lattice = SLFLattice(io.StringIO('\n'.join(lines) + '\n'))
        e['words'] = sum(k.word == 'w' for x in lattice.nodes for k in x.out_links)
        e['inorder'] = [x.id for x in lattice.sorted_nodes()] == list(range(n))
    except InputError:
        e['rejected'] = True
    except Exception as x:                                   # noqa
        case['ev'] = [error_event(x)]
    return case


def run(chk):
    quiet()
    chk.model_check('LatticeIOMC', MC_CFG % chk.n((3, 3), (3, 5)))
    r = rng(chk, 'lattices')
    cases = []
    with silence():
        for _ in range(chk.n(1500, 12000)):
            cases.append(slf_case(r, 6))
        for _ in range(chk.n(700, 6000)):
            cases.append(kaldi_case(r, 6))
        for _ in range(chk.n(4, 20)):
            cases.append(chain_case(r, r.choice([2, 900, 1500, 4000])))
    chk.random_scenarios = len(cases)
    chk.validate('LatticeIOTrace', cases, chunk=1500)
