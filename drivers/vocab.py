"""P07, P08: vocabularies against Vocab.tla."""
import io, os

import h5py
import numpy

from vlib.tracing import quiet, silence, rng, error_event

MC_CFG = '''SPECIFICATION Spec
CONSTANTS Words = {"a", "b", "<unk>"}
 Labels = {"1", "2"}
 MaxLines = %d
 MaxCount = %d
INVARIANTS OneToOne SpecialsExist Prefix MembersSum PriorSum OosSum Stand SpecialMember
CHECK_DEADLOCK FALSE
'''
GEN_CFG = '''INIT Init
NEXT Next
CONSTANTS Words = {"a", "b", "</s>"}
 Labels = {"1", "2"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
'''
POOL = ['a', 'b', 'c', 'd', 'e', 'ä', 'öö', '<b>', 'f', 'g', 'h', '1', 'a.', "'n"]


def mill(x):
    x = float(x)
    return int(round(x * 1e6)) if abs(x) < 1000 else -1000000


def memory_file():
    memory_file.n += 1
    return h5py.File('v%d' % memory_file.n, 'w', driver='core', backing_store=False)


memory_file.n = 0


def observe(v, probs):
    n, ns = int(v.num_words()), int(v.num_shortlist_words())
    words = [str(w) for w in v.id_to_word]
    obs = dict(words=words, nshort=ns, nclasses=int(v.num_classes()),
               toid=[int(v.word_to_id[w]) for w in words],
               cls=[int(x) for x in v.word_id_to_class_id],
               inshort=[bool(v.in_shortlist(i)) for i in range(n)],
               member=[], uni=[], share=[], prior=[])
    if sorted(v.words()) != sorted(words) or n != len(words) or len(v.word_to_id) != n:
        obs['words'] = words + ['inconsistent word lists']
    if probs:
        obs['member'] = [mill(v.get_word_prob(i)) for i in range(ns)]
        if v.has_unigram_probs():
            f = memory_file()
            v.get_state(f)
            obs['uni'] = [mill(x) for x in f['vocabulary/unigram_probs'][()]]
            f.close()
            with numpy.errstate(all='ignore'):
                share, prior = v.get_oos_probs(), v.get_class_probs()
            obs['share'] = [mill(x) if numpy.isfinite(x) else -9 for x in share]
            obs['prior'] = [mill(x) if numpy.isfinite(x) else -9 for x in prior]
    return obs


def bits(v, probs):
    """Unigram probabilities are stored as they are, memberships up to the
    rounding of their normalization."""
    if not probs or not v.has_unigram_probs():
        return b''
    return numpy.asarray(v.get_class_probs()).tobytes() + \
        numpy.nan_to_num(numpy.asarray(v.get_oos_probs())).tobytes()


def use(v, ev, r, probs):
    words = [r.choice(POOL + ['zz', '<s>', '</s>', '<unk>', '']) for _ in range(6)]
    ids = v.words_to_ids(words)
    ev.append(dict(a='ids', words=words, ids=[int(x) for x in ids],
                   known=[w in v for w in words]))
    n = int(v.num_words())
    m = numpy.array([[r.randrange(n) for _ in range(3)] for _ in range(3)] +
                    [[n - 1, 0, min(n - 1, int(v.num_shortlist_words()))]])
    keep = m.copy()
    cls, p = v.get_class_memberships(m)
    if not (m == keep).all():
        ev.append(dict(a='error', what='argument changed by get_class_memberships'))
    ev.append(dict(a='member', ids=[int(x) for x in m.flat], cls=[int(x) for x in cls.flat],
                   probs=[mill(x) for x in p.flat]))


def reload(v, ev, r, probs, existing):
    from theanolm import Vocabulary
    f = existing[0] if existing and r.random() < 0.5 else memory_file()
    existing[:] = [f]
    v.get_state(f)
    w = Vocabulary.from_state(f)
    with numpy.errstate(all='ignore'):
        same = bits(v, probs) == bits(w, probs)
    ev.append(dict(a='reload', obs=observe(w, probs), samebits=same))
    return w


def text_counts(ev, text, r, scratch):
    from theanolm.vocabulary import compute_word_counts
    files, i = [], 0
    while i < len(text) or not files:
        k = r.randint(1, 4)
        s = '\n'.join((' ' * r.randint(0, 1)) + r.choice([' ', '  ', '\t']).join(x)
                      for x in text[i:i + k])
        i += k
        if i >= len(text) and not (text and not text[-1]) and r.random() < 0.3:
            pass
        else:
            s += '\n'
        files.append(io.StringIO(s))
    counts = compute_word_counts(files)
    ev.append(dict(a='counts', counts={k: int(x) for k, x in counts.items()}))
    again = compute_word_counts(files)
    if again != counts:
        ev.append(dict(a='error', what='files not left at their beginning'))
    return {k: int(x) for k, x in counts.items()}


def run_case(scn, r, probs, scratch):
    from theanolm import Vocabulary
    from theanolm.backend import InputError
    ev = []
    text = scn['text']
    case = dict(ev=ev, text=text, probs=probs)
    existing = []
    try:
        counts = text_counts(ev, text, r, scratch)
        if scn['how'] == 'file':
            fmt, lines, oos = scn['fmt'], [], list(scn['oos'])
            if scn.get('oostext'):
                oos = list(counts)
            for x in scn['lines']:
                w, label, weight = x['w'], x['label'], x['weight']
                if fmt == 'words':
                    lines.append(w)
                elif fmt == 'classes':
                    lines.append('%s%s%s' % (w, r.choice([' ', '\t']), label))
                else:
                    lines.append('C%s %s %s' % (label, weight / 10.0, w))
                lines.extend([''] * (r.random() < 0.1))
                ev.append(dict(a='line', w=w, label=label, own=(fmt == 'words'),
                               weight=weight if fmt == 'srilm-classes' else 1))
            try:
                v = Vocabulary.from_file(io.StringIO('\n'.join(lines) + '\n'), fmt, oos_words=oos)
            except InputError:
                ev.append(dict(a='build', how='file', oos=oos, rejected=True))
                return case
            ev.append(dict(a='build', how='file', oos=oos, rejected=False, obs=observe(v, probs)))
        else:
            v = Vocabulary.from_word_counts(counts, scn['nc'] or None)
            ev.append(dict(a='build', how='counts', nc=scn['nc'], counts=counts,
                           obs=observe(v, probs)))
        for op in scn['ops']:
            if op == 'probs':
                update = r.random() < 0.6
                cc = counts if r.random() < 0.7 else \
                    {w: r.randint(0, 9) for w in r.sample(POOL, 6)}
                with numpy.errstate(all='ignore'):
                    v.compute_probs(dict(cc), update_class_probs=update)
                    ev.append(dict(a='probs', counts=cc, update=update, obs=observe(v, probs)))
            elif op == 'reload':
                v = reload(v, ev, r, probs, existing)
            elif op == 'use':
                use(v, ev, r, probs)
    except Exception as e:                                   # noqa
        ev.append(error_event(e))
    return case


def random_text(r):
    text = []
    for _ in range(r.randint(1, 8)):
        line = [r.choice(POOL) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
        if line and r.random() < 0.2:
            line = ['<s>'] + line
        if line and r.random() < 0.2:
            line.append('</s>')
        if line and r.random() < 0.1:
            line.append('<unk>')
        text.append(line)
    return text


def random_scenario(r):
    text = random_text(r)
    ops = [r.choice(['probs', 'reload', 'use']) for _ in range(r.randint(1, 6))] + ['use', 'reload']
    if r.random() < 0.3:
        return dict(how='counts', text=text, nc=r.choice([0, 0, 1, 2, 3, 5, 20]), ops=ops)
    words = POOL + ['<s>', '</s>', '<unk>']
    r.shuffle(words)
    words = words[:r.randint(0, 12)]
    if words and r.random() < 0.1:
        words.insert(r.randrange(len(words)), r.choice(words))
    labels = [str(x) for x in r.sample(range(-3, 40), r.randint(1, 5))]
    lines = [dict(w=w, label=r.choice(labels), weight=r.randint(1, 9)) for w in words]
    return dict(how='file', fmt=r.choice(['words', 'classes', 'srilm-classes']), lines=lines,
                oos=r.sample(POOL, r.randint(0, 5)) * r.choice([1, 1, 2]),
                oostext=r.random() < 0.5, text=text, ops=ops)


def run(chk):
    quiet()
    chk.model_check('VocabMC', MC_CFG % (chk.n(2, 3), chk.n(2, 3)))
    r = rng(chk, 'vocab')
    gen = chk.scenarios('VocabGen', GEN_CFG)
    r.shuffle(gen)
    gen = gen[:chk.n(500, 4000)]
    chk.spec_scenarios = len(gen)
    scns = []
    for g in gen:
        scns.append(dict(g, how='file', text=[['a', 'b'], ['a']],
                         ops=[r.choice(['probs', 'use']), 'probs', 'use', 'reload', 'use']))
    nrand = chk.n(800, 8000)
    chk.random_scenarios = nrand
    scns += [random_scenario(r) for _ in range(nrand)]
    probs = (chk.prop == 'P08')
    with silence(), numpy.errstate(all='ignore'):
        cases = [run_case(s, r, probs, chk.scratch) for s in scns]
    chk.validate('VocabTrace', cases)
    chk.assumptions += ['at least one out-of-shortlist word occurs when shares are used',
                        'memberships and priors are compared within two millionths']
