"""Tiny real networks shared by the drivers: random architectures, parameters
and compiled functions."""
import hashlib
import io

import numpy

HIDDEN = ['fc', 'tanh', 'lstm', 'gru', 'highway', 'highwaytanh', 'dropout', 'add']


def words_vocabulary(n=5, classes=False, oos=()):
    from theanolm import Vocabulary
    ws = ['w%d' % i for i in range(n)]
    if classes:
        text = ''.join('%s %d\n' % (w, i % max(1, n // 2)) for i, w in enumerate(ws))
        return Vocabulary.from_file(io.StringIO(text), 'classes', oos_words=list(oos))
    return Vocabulary.from_file(io.StringIO('\n'.join(ws) + '\n'), 'words', oos_words=list(oos))


def description(text):
    f = io.StringIO(text)
    f.name = 'description'
    return f


def random_description(r, depth=None, types=None, output=None, size=4):
    """Lines of an architecture that can be built, with any layer order."""
    types = list(types or HIDDEN)
    inputs = [('i%d' % k, r.choice(['word', 'class'])) for k in range(r.choice([1, 1, 2]))]
    lines = ['input type=%s name=%s' % (t, n) for n, t in inputs]
    made = []                                     # (name, size)
    for n, _ in inputs:
        s = r.randint(2, size)
        lines.append('layer type=projection name=p%s input=%s size=%d' % (n, n, s))
        made.append(('p' + n, s))
    for k in range(depth if depth is not None else r.randint(1, 3)):
        t = r.choice(types)
        ins = [r.choice(made) for _ in range(1 if t == 'glu' else r.choice([1, 1, 2]))]
        if k == 0 and len(made) > 1 and t != 'glu':
            ins = made[:]
        total = sum(s for _, s in ins)
        opts = []
        if t in ('highway', 'highwaytanh', 'dropout'):
            s = total
            if t == 'dropout' and r.random() < 0.7:
                opts.append('dropout_rate=%s' % r.choice(['0.25', '0.5', '0.9']))
        elif t == 'add':
            s = ins[0][1]
        else:
            low = 4 if t in ('blstm', 'bgru') else 2
            s = r.randint(low, max(low, size))
            opts.append('size=%d' % s)
        if t in ('fc', 'highway') and r.random() < 0.6:
            opts.append('activation=%s' % r.choice(['tanh', 'relu', 'leakyrelu']))
        if t == 'glu':
            opts.append('filter_size=%d' % r.randint(1, 3))
        fields = ['type=' + t, 'name=h%d' % k] + ['input=' + n for n, _ in ins] + opts
        lines.append('layer ' + ' '.join(fields))
        made.append(('h%d' % k, s))
    ins = [made[-1]] + ([r.choice(made)] if r.random() < 0.3 else [])
    lines.append('layer type=%s name=out %s' % (output or r.choice(['softmax', 'softmax', 'hsoftmax']),
                                                ' '.join('input=' + n for n, _ in ins)))
    return lines


def make(lines, vocab, minibatch=True, exclude_unk=False, **kw):
    from theanolm.network import Network, Architecture
    arch = Architecture.from_description(description('\n'.join(lines) + '\n'))
    return Network(arch, vocab, mode=Network.Mode(minibatch=minibatch),
                   exclude_unk=exclude_unk, **kw)


def perturb(net, nr, scale=0.4):
    for p, v in sorted(net.get_variables().items()):
        x = v.get_value()
        v.set_value((x + nr.normal(0, scale, x.shape)).astype(x.dtype))


def digests(net):
    res = {}
    for p, v in net.get_variables().items():
        x = numpy.ascontiguousarray(v.get_value())
        res[p] = '%s %s' % (x.shape, hashlib.sha1(x.tobytes()).hexdigest()[:12])
    return res


def convolve2d(img, kern, flip, val, bval, fill):
    kern = kern[::-1, ::-1]
    kh, kw = kern.shape
    if val == 2:
        img = numpy.pad(img, ((kh - 1, kh - 1), (kw - 1, kw - 1)))
    h, w = img.shape[0] - kh + 1, img.shape[1] - kw + 1
    out = numpy.zeros((h, w), img.dtype)
    for i in range(kh):
        for j in range(kw):
            out += kern[i, j] * img[i:i + h, j:j + w]
    return out


def theano_convolution():
    """Theano's Python convolution needs three helpers of SciPy, which is not
    installed: gives it equivalents."""
    from theano.tensor.nnet import abstract_conv as m
    if not m.imported_scipy_signal:
        m._valfrommode = lambda mode: {'valid': 0, 'same': 1, 'full': 2}[mode]
        m._bvalfromboundary = lambda b: 0
        m._convolve2d = convolve2d
        m.imported_scipy_signal = True


def compile_probs(net):
    """Output distributions; in single step mode the recurrent state as well."""
    import theano
    theano_convolution()
    ins = [net.input_word_ids, net.input_class_ids]
    outs = [net.output_probs()]
    if net.mode.minibatch:
        ins.append(net.mask)
    else:
        ins += net.recurrent_state_input
        outs += net.recurrent_state_output
    return theano.function(ins, outs, givens=[(net.is_training, numpy.int8(0))],
                           mode=theano.Mode(linker='py', optimizer=None),
                           on_unused_input='ignore')


def fixed_batch(vocab, steps=4, seqs=3, seed=7):
    nr = numpy.random.RandomState(seed)
    w = nr.randint(0, vocab.num_shortlist_words(), (steps, seqs)).astype('int64')
    c = vocab.word_id_to_class_id[w].astype('int64')
    m = numpy.ones((steps, seqs), dtype='int8')
    m[2:, 1] = 0
    return w, c, m


def output_digest(fn, vocab):
    out = fn(*fixed_batch(vocab))[0]
    return hashlib.sha1(numpy.round(numpy.asarray(out, 'float64'), 9).tobytes()).hexdigest()[:12]
