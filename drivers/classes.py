"""P19: word class optimization against WordClasses.tla."""
import io
import logging
import math
import multiprocessing
import os
import random
import sys

import numpy

from vlib.tracing import quiet, silence, rng, error_event

UNIT = 100000
MC_CFG = '''SPECIFICATION Spec
CONSTANTS NWords = %d
 NClasses = %d
 MaxBigrams = %d
 MaxN = %d
INVARIANTS Consistent NoEmptyClass SpecialAlone PredictedRight
PROPERTIES Never
CHECK_DEADLOCK FALSE
'''


def make_text(r, words):
    """Sentences in which some words have similar neighbours."""
    half = max(1, len(words) // 2)
    out = []
    for _ in range(r.randint(1, 6 if len(words) < 8 else 16)):
        s = []
        for i in range(r.randint(0, 6)):
            if r.random() < 0.6:
                s.append(r.choice(words[:half] if i % 2 else words[half:] or words))
            else:
                s.append(r.choice(words + ['unseen']) if r.random() < 0.6 else s[-1] if s else words[0])
        out.append(s)
    if not any(out):
        out[0] = [words[0], words[-1]]
    return out


def make_vocabulary(r, words, text):
    """Returns the vocabulary, and a maker of arguments for the tool."""
    from theanolm.vocabulary import Vocabulary, compute_word_counts
    form = r.choice(['counts', 'words', 'classes', 'classes', 'srilm-classes'])
    if form == 'counts':
        n = r.randint(1, 4)
        return Vocabulary.from_word_counts(compute_word_counts([io.StringIO(text)]), n), ('counts', n)
    k = r.randint(1, max(1, len(words) - 1))
    rows = [(w, i if i < k else r.randrange(k)) for i, w in enumerate(words)]
    r.shuffle(rows)
    ids = {}
    rows = [(w, ids.setdefault(g, len(ids))) for w, g in rows]
    marks = r.random()
    if form == 'words':
        body = ['%s' % w for w, _ in rows]
        special = ['<s>', '</s>', '<unk>']
    elif form == 'classes':
        body = ['%s %d' % x for x in rows]
        special = ['<s> 97', '</s> 98', '<unk> 99']
    else:
        body = ['C%d %.3f %s' % (g, 0.25, w) for w, g in rows]
        special = ['C97 1.0 <s>', 'C98 1.0 </s>', 'C99 1.0 <unk>']
    if marks < 0.15:
        body = special + body
    elif marks < 0.3:
        body = body + special
    elif marks < 0.45:
        i = r.randint(0, len(body))
        body = body[:i] + special[:r.randint(1, 3)] + body[i:]
    elif marks < 0.6 and form != 'words':                    # with other words in a class
        body.insert(r.randint(0, len(body)), r.choice(
            ['<s> 0', '</s> 0', '<unk> 0'] if form == 'classes' else ['C0 0.5 <s>', 'C0 0.5 </s>', 'C0 0.5 <unk>']))
    body = '\n'.join(body) + '\n'
    return Vocabulary.from_file(io.StringIO(body), form), (form, body)


def observe(o, words):
    ll = float(o.log_likelihood())
    return dict(cls=[int(o.get_word_class(o.get_word_id(w))) for w in words],
                ll=int(round(UNIT * ll)) if math.isfinite(ll) else 2 ** 31 - 1,
                probs=[int(round(UNIT * float(o.get_word_prob(o.get_word_id(w))))) for w in words])


def read_back(v, words, form):
    cls = []
    if set(words) != set(str(w) for w in v.id_to_word):
        return dict(known=False, cls=[], probs=[], hasprobs=False)
    for w in words:
        cls.append(int(v.word_id_to_class_id[v.word_to_id[w]]))
    return dict(known=True, cls=cls, hasprobs=form == 'srilm-classes',
                probs=[int(round(UNIT * float(v.get_word_prob(v.word_to_id[w])))) for w in words])


def case_of(job):
    key, scratch, num, kind = job
    quiet()
    r = random.Random(key)
    case = dict(words=[], text=[], x=[], classes=0, ev=[], kind=kind)
    try:
        with silence(), numpy.errstate(all='ignore'):
            from theanolm.vocabulary import Vocabulary, BigramStatistics
            from wordclasses import TheanoBigramOptimizer, NumpyBigramOptimizer
            from wordclasses.wctool import save
            import wordclasses
            words = ['w%d' % i for i in range(r.randint(1, 12 if kind == 'tool' else 7))]
            text = make_text(r, words)
            files = [io.StringIO() for _ in range(r.choice([1, 1, 2]))]
            for s in text:
                r.choice(files).write(' '.join(s) + '\n')
            body = ''.join(f.getvalue() for f in files)
            case['text'] = [x.split() for x in body.split('\n')[:-1]]
            # Empty lines are not sentences.
            case['text'] = [x for x in case['text'] if x]
            v, how = make_vocabulary(r, words, body)
            known = [str(w) for w in v.id_to_word]
            case.update(words=known, classes=int(v.num_classes()), how=list(how),
                        x=[0] + [int(round(UNIT * n * math.log(n))) for n in
                                 range(1, 3 + sum(len(x) + 2 for x in case['text']))])
            for f in files:
                f.seek(0)
            stats = BigramStatistics(files, v)
            o = (TheanoBigramOptimizer if kind == 'theano' else NumpyBigramOptimizer)(stats, v)
            case['ev'].append(dict(a='start', **observe(o, known)))
            if kind == 'tool':
                tool(r, case, how, files, known, os.path.join(scratch, 'wc%d' % num), wordclasses)
                return case
            special = {'<s>', '</s>', '<unk>'}
            seen = {w for s in case['text'] for w in s}
            forced = r.random() < 0.5 and hasattr(o, '_move')

            def at(w):
                return int(o.get_word_class(o.get_word_id(w)))
            for _ in range(r.choice([1, 2])):
                order = known[:]
                if r.random() < 0.5:
                    r.shuffle(order)
                for w in order:
                    alone = case['ev'][-1]['cls'].count(at(w)) < 2
                    if forced and r.random() < 0.5 and w not in special and w in seen and not alone:
                        ks = [k for k in range(case['classes']) if k != at(w) and
                              k not in {at(x) for x in special}]
                        if ks:
                            o._move(o.get_word_id(w), r.choice(ks))
                            case['ev'].append(dict(a='move', w=w, **observe(o, known)))
                            w = r.choice([w, r.choice(known)])
                            alone = case['ev'][-1]['cls'].count(at(w)) < 2
                    if hasattr(o, '_evaluate') and r.random() < 0.4 and w not in special and not alone:
                        ks = [k for k in range(case['classes']) if k != at(w)]
                        g = [float(o._evaluate(o.get_word_id(w), k)) for k in ks]
                        case['ev'].append(dict(a='evaluate', w=w, k=ks, num=[math.isfinite(x) for x in g],
                                               cls=case['ev'][-1]['cls'],
                                               gain=[int(round(UNIT * x)) if math.isfinite(x) else 0 for x in g]))
                    moved = bool(o.move_to_best_class(w))
                    case['ev'].append(dict(a='step', w=w, moved=moved, **observe(o, known)))
            for form in ('classes', 'srilm-classes'):
                out = io.StringIO()
                if r.random() < 0.5:
                    out.write('an older and longer version of the file\n' * 20)
                save(o, out, form)
                out.seek(0)
                case['ev'].append(dict(a='write', form=form, text=out.getvalue(),
                                       **read_back(Vocabulary.from_file(out, form), known, form)))
    except BaseException as e:                               # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        case['ev'].append(error_event(e))
    return case


def tool(r, case, how, files, known, path, wordclasses):
    from theanolm.vocabulary import Vocabulary
    argv = ['wctool', '--training-set']
    for i, f in enumerate(files):
        with open('%s.%d' % (path, i), 'w') as out:
            out.write(f.getvalue())
        argv.append('%s.%d' % (path, i))
    if how[0] == 'counts':
        argv += ['--num-classes', str(how[1])]
    else:
        with open(path + '.vocab', 'w') as out:
            out.write(how[1])
        argv += ['--vocabulary', path + '.vocab', '--vocabulary-format', how[0]]
    form = r.choice([None, 'classes', 'srilm-classes'])
    if form:
        argv += ['--output-format', form]
    form = form or 'srilm-classes'
    argv += ['--output-file', path + '.out', '--method', r.choice(['bigram-numpy', 'bigram-numpy', 'bigram-theano']),
             '--log-file', path + '.log', '--log-interval', r.choice(['0', '1', '3']),
             '--output-frequency', r.choice(['1', '1', '2', '5'])]
    import signal

    def late(*_):
        raise RuntimeError('the class tool does not finish')
    old, argv0 = signal.signal(signal.SIGALRM, late), sys.argv
    signal.alarm(60)
    try:
        sys.argv = argv
        wordclasses.main()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        sys.argv = argv0
        quiet()
    with open(path + '.out') as f:
        v = Vocabulary.from_file(f, form)
    case['ev'].append(dict(a='tool', argv=argv, **read_back(v, known, form)))


def schedules(r, n):
    from wordclasses.functions import is_scheduled
    ev = []
    for _ in range(n):
        words, freq = r.randint(1, 40), r.randint(1, 45)
        first = words * r.choice([0, 0, 1, 5])
        ev.append(dict(a='schedule', words=words, freq=freq,
                       at=[i for i in range(1, words + 1) if is_scheduled(first + i, freq, words)]))
    return dict(words=[], text=[], x=[0], classes=0, ev=ev)


def run(chk):
    quiet()
    for bounds in chk.n([(3, 2, 3, 2), (4, 2, 2, 1)], [(3, 2, 4, 2), (3, 3, 3, 2), (4, 3, 3, 1)]):
        chk.model_check('WordClassesMC', MC_CFG % bounds)
    kinds = ['numpy', 'theano', 'numpy', 'tool', 'numpy']
    jobs = [('%d/classes/%d' % (chk.seed, i), chk.scratch, i, kinds[i % 5]) for i in range(chk.n(160, 1600))]
    with multiprocessing.get_context('fork').Pool(8) as pool:
        cases = pool.map(case_of, jobs, chunksize=1)
    cases.append(schedules(rng(chk, 'schedules'), 40))
    chk.random_scenarios = sum(len(c['ev']) for c in cases)
    chk.validate('WordClassesTrace', cases)
