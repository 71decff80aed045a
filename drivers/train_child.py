"""Runs 'theanolm train' and records it; may kill itself without cleanup."""
import argparse, json, os, sys, warnings

warnings.simplefilter('ignore')


def main():
    spec = json.load(open(sys.argv[1]))
    sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
    from drivers.trainer import Recorder, batch_pieces, LR0, CRITERIA
    from theanolm.commands import train as command
    from theanolm.training import Trainer
    from theanolm.training.basicoptimizer import BasicOptimizer
    from theanolm.scoring import TextScorer
    cfg = spec['cfg']
    out = open(spec['out'], 'w')

    def emit(**e):
        out.write(json.dumps(e) + '\n')
        out.flush()

    parser = argparse.ArgumentParser()
    command.add_arguments(parser)
    argv = [spec['model'], '--training-set'] + spec['paths'] + [
        '--architecture', spec['arch'], '--batch-size', str(cfg['b']),
        '--validation-frequency', str(cfg['freq']), '--patience', str(cfg['patience']),
        '--stopping-criterion', CRITERIA[cfg['crit']], '--max-epochs', str(cfg['maxep']),
        '--min-epochs', str(cfg['minep']), '--max-annealing-count', str(cfg['maxann']),
        '--optimization-method', spec['method'], '--learning-rate', str(LR0),
        '--random-seed', str(spec['seed']), '--log-level', 'warn']
    if spec['valid']:
        argv += ['--validation-file', spec['valid']]
    args = parser.parse_args(argv)

    box = {}
    initialize, train = Trainer.initialize, Trainer.train

    def initialize_hook(self, network, state, optimizer):
        initialize(self, network, state, optimizer)
        rec = box['rec'] = Recorder(spec['model'], self, network, optimizer, True)
        box['words'] = list(network.vocabulary.id_to_word)
        emit(**rec.held(a='start', **rec.place()))

        update = optimizer.update_minibatch
        total = [spec['total']]

        def hook(word_ids, class_ids, file_ids, mask):
            if total[0] >= cfg['stopafter'] or any(k[0] == total[0] for k in spec['kills']):
                os._exit(9)
            S = batch_pieces(word_ids, mask, box['words'], spec['piece_of'])
            e = rec.held(a='update', S=S, ppl=0)
            total[0] += 1
            update(word_ids, class_ids, file_ids, mask)
            e['w2'] = rec.params()[0]
            emit(**e)
        optimizer.update_minibatch = hook

    def train_hook(self):
        train(self)
        emit(**box['rec'].held(a='end', **box['rec'].place()))
        box['done'] = True

    calls = [spec['calls']]

    def measure(self, *a, **kw):
        if box.get('done'):
            return 1.0
        i = calls[0]
        calls[0] += 1
        p = spec['ppls'][i] if i < len(spec['ppls']) else spec['tail'][i % len(spec['tail'])]
        emit(a='ppl', ppl=p)
        return float(p)

    Trainer.initialize, Trainer.train = initialize_hook, train_hook
    TextScorer.compute_perplexity = measure
    command.train(args)


if __name__ == '__main__':
    main()
