import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=False):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=state
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)
T='theanolm/'
p('P01','Each training epoch presents the sampled sentences exactly once',
 "In every training epoch, for every set of training files, sampling fractions, batch size and maximum sequence length, the shuffled mini-batches together contain exactly the words of the sentences drawn for that epoch: every sentence of a fully sampled file once, the rounded fraction of a partially sampled file without repeats. Each sequence carries its sentence start and end tokens, the word IDs (out-of-shortlist and unknown words mapped as requested), the index of the file it came from, and a mask that is one exactly on its words; only pieces shorter than two words are left out. Saving the position and restoring it, at any batch boundary and into the same or a new iterator, continues with exactly the not yet presented rest of the epoch.",
 ['inputs','histories'],'all file contents, fractions, batch sizes, sequence limits, and all save/restore points in any epoch',
 'Tests iterate two 5-line files once or twice with a few batch sizes and never restore a position; a lost or repeated sentence in a later epoch, at a file boundary, in the last batch or after a restore is invisible to them.',
 [T+'parsing/batchiterator.py',T+'parsing/shufflingbatchiterator.py',T+'parsing/functions.py'],
 [('mini-batch assembly and sequence splitting',T+'parsing/batchiterator.py:__next__,_read_sequence,_prepare_batch'),('sampling and shuffling of sentence pointers',T+'parsing/shufflingbatchiterator.py:_reset,SentencePointers'),('iterator state',T+'parsing/shufflingbatchiterator.py:get_state,set_state')])
p('P02','Text is read in order, completely and repeatably',
 "Reading evaluation text (one or several files, as file objects or memory maps) produces the sentences of the files in their order, nothing added, dropped or repeated, for every batch size and sequence length limit, with start and end tokens added only where missing and blank lines skipped. Every further pass over the same reader produces the same sequences, and the number of batches reported between passes equals the number produced. The plain-text words returned for scoring correspond one-to-one to the word IDs.",
 ['inputs'],'all texts (blank lines, missing final newline, explicit sentence tokens, unknown words), file counts, batch sizes, sequence limits and numbers of passes',
 'Tests read fixed five-line files with batch size 2 and one pass.',
 [T+'parsing/batchiterator.py',T+'parsing/linearbatchiterator.py',T+'parsing/scoringbatchiterator.py',T+'parsing/functions.py'],
 [('linear reading across files',T+'parsing/linearbatchiterator.py:_readline,_reset'),('line tokenization',T+'parsing/functions.py:utterance_from_line'),('scoring batches',T+'parsing/scoringbatchiterator.py:_prepare_batch')])
p('P03','The model file holds the best validated state',
 "After every mini-batch update, the model file holds the state (network parameters, optimizer state, position in the data, epoch and update number, validation history up to and including its own cost) taken at the centre of the samples of the best validation so far, where a validation replaces the previous best only if its cost (the median of its samples) is more than 0.1 % lower. Validations happen the requested number of times per epoch; incomplete sample sets never count. Without validation data the file holds the state at the end of the last epoch.",
 ['histories','inputs'],'all sequences of validation perplexities, epoch lengths, validation frequencies, sample counts, patience settings and lengths of training',
 'The scheduling test calls one predicate with a dummy object; no test ever runs the training loop, so the saving rule over a history of validations is untested.',
 [T+'training/trainer.py'],
 [('validation sampling and candidate selection',T+'training/trainer.py:_validate,_has_improved,_is_scheduled'),('candidate state saving',T+'training/trainer.py:_set_candidate_state,get_state')],
 observe=['model file contents','trainer public counters'])
p('P04','Exhausted patience rolls back to the best state and halves the rate',
 "When more consecutive validations than the patience allows fail to improve on the best state, training returns to exactly the saved best state (network, optimizer, data position, epoch and update numbers, validation history) and continues with half of the learning rate in use at that moment, so repeated failures keep halving it; in every other case neither the state nor the learning rate is touched. After a rollback the samples of the interrupted validation are discarded, and each following validation is again based on a full set of samples taken after the rollback. The sentences presented after a rollback are exactly those that followed the saved position.",
 ['histories','inputs'],'all validation cost histories, patience values, numbers of consecutive rollbacks and rollback points within an epoch',
 'No test drives the trainer through a validation failure; the rollback path is not executed by the test suite at all.',
 [T+'training/trainer.py',T+'training/basicoptimizer.py',T+'parsing/shufflingbatchiterator.py'],
 [('annealing',T+'training/trainer.py:_decrease_learning_rate,_reset_state'),('patience',T+'training/trainer.py:_validate')])
p('P05','An interrupted training resumes from the model file without loss',
 "Whenever the training process is stopped or killed, after any mini-batch update, the model file on disk is complete and readable and equals the last saved state, and training started from it continues from exactly that state: same network and optimizer parameters, learning rate, epoch and update number, validation history, and the remaining sentences of the epoch followed by full epochs. Before the first save, the file holds the vocabulary and training starts from the beginning. Without validation data, a finished training that is started again with the same limits performs no further updates. A file with an incomplete training state (parameters, learning rate, counters or data position missing) is rejected with an error.",
 ['crash_points','histories'],'all points at which the process may die or be stopped, for every training history and stopping rule',
 'Tests never save, kill or resume a training run.',
 [T+'training/trainer.py',T+'commands/train.py',T+'parsing/shufflingbatchiterator.py',T+'training/basicoptimizer.py',T+'backend/parameters.py'],
 [('restore on start',T+'training/trainer.py:initialize,_reset_state'),('state flush',T+'training/trainer.py:_set_candidate_state'),('optimizer state',T+'training/basicoptimizer.py:get_state,set_state')])
p('P06','Training stops exactly when its stopping criterion says',
 "In every run, with the epoch count criterion, exactly the requested number of epochs is trained; with no-improvement, training stops after the first update at which the minimum number of epochs has passed and the best cost has not decreased between the two latest learning rate reductions (or since the latest); with annealing count, at the first such update after more than the allowed number of learning rate reductions of that run. No criterion trains past the maximum number of epochs, and none stops before the minimum number of epochs is completed unless the maximum is reached first.",
 ['histories','inputs'],'all validation histories, minimum and maximum epoch settings, patience and annealing counts',
 'The stoppers have no tests.',
 [T+'training/stoppers.py',T+'training/trainer.py'],
 [('stopping criteria',T+'training/stoppers.py'),('training loop',T+'training/trainer.py:train')])
p('P07','Vocabulary mappings are a consistent bijection with classes',
 "For every vocabulary (word list, word classes, SRILM class definitions, or training set counts, with or without out-of-shortlist words), word IDs and words are in one-to-one correspondence, shortlist words come first and only they have classes of their own, every class is non-empty, special tokens always exist exactly once, in classes of their own unless the vocabulary file assigns them to a class, a file that repeats a word is refused, and unknown words map to the unknown word token. Words keep their identity and class when the vocabulary is written to a model file and read back. Looking up the class of any word ID, in or out of the shortlist, gives the class of that word, or that of the unknown word.",
 ['inputs'],'all vocabulary inputs in each format, including duplicates and explicit special tokens, all out-of-shortlist word sets and class counts',
 'Tests use one ten-word vocabulary and four classes.',
 [T+'vocabulary/vocabulary.py',T+'vocabulary/wordclass.py',T+'vocabulary/statistics.py'],
 [('construction',T+'vocabulary/vocabulary.py:from_file,from_word_counts'),('state',T+'vocabulary/vocabulary.py:get_state,from_state'),('lookup',T+'vocabulary/vocabulary.py:words_to_ids,get_class_memberships,in_shortlist')])
p('P08','Word, class and out-of-shortlist probabilities are normalized counts',
 "Unigram probabilities are the relative frequencies of the vocabulary words in the training data (the special tokens left out, if the vocabulary is made from that data); the membership probabilities of the words of a class are proportional to their counts and sum to one; class prior probabilities sum to one; and the shares of the out-of-shortlist words within the unknown word token are proportional to their counts and sum to one, whenever any of them occurs, shortlist words having share one. Special tokens have a membership above zero, and classes without occurrences are uniform. This holds for every set of counts, words without occurrences included, and survives saving to and loading from a model file.",
 ['inputs'],'all word counts (zero counts, single words, empty classes of occurrences), all shortlist / out-of-shortlist splits and class assignments',
 'Tests use one set of counts; zero counts and reloading are not covered.',
 [T+'vocabulary/vocabulary.py',T+'vocabulary/wordclass.py',T+'vocabulary/statistics.py'],
 [('probabilities',T+'vocabulary/vocabulary.py:compute_probs,get_oos_probs,get_class_probs'),('class normalization',T+'vocabulary/wordclass.py'),('counting',T+'vocabulary/statistics.py:compute_word_counts')])
p('P09','A model file reproduces the network it was saved from',
 "For every network architecture that can be described, the architecture read back from a saved model has the same inputs, layers, layer inputs (in the same order) and options, and a network built from it and loaded with the saved state has identical parameters and predictions. Loading a state into a network of a different architecture or with missing parameters is refused with an incompatibility error and never leaves a silently different model.",
 ['inputs'],'all architectures expressible in the description format (layer types, sizes, connections, options) and all parameter values',
 'No test saves or loads a network.',
 [T+'network/architecture.py',T+'network/network.py',T+'backend/parameters.py'],
 [('architecture state',T+'network/architecture.py:get_state,from_state,check_state'),('parameter state',T+'backend/parameters.py:get_state,set_state'),('model loading',T+'network/network.py:from_file,set_state')])
p('P10','Text scores follow the documented composition and exclusion rules',
 "The log probability of every predicted word is that of its class given the preceding words, plus its class membership, plus (with shortlist scoring) its share of the unknown word token if it is out of shortlist; the first token of a sentence is never predicted. Unknown words are left out when excluding them or using a shortlist, out-of-shortlist words when excluding unknown words, words of zero membership from totals, and padding always. Perplexity is the exponent of the negative total divided by the number of the words counted, and the total of a sentence is the same whether obtained per word, per batch or per line.",
 ['inputs'],'all texts over all vocabularies (with classes, out-of-shortlist and unknown words), all exclusion settings and all batchings',
 'Tests score one fixed batch per setting and never compute a perplexity or score a line.',
 [T+'scoring/textscorer.py',T+'network/network.py'],
 [('scoring functions',T+'scoring/textscorer.py'),('class prediction',T+'network/network.py:target_probs')])
p('P11','A prediction depends only on the history of its own sentence',
 "The probability predicted for a word by a trained network depends only on the network parameters, the word and the words preceding it in its own sentence: not on the other sentences of the mini-batch, their number, order or length, on padding, or on whether the sentence is fed as a whole or word by word with the recurrent state carried along. With a bidirectional layer (not followed by another layer that looks at other time steps) it depends in addition on the words after the predicted one in the same sentence, but on nothing else and not on the predicted word. For each history the predicted probabilities sum to one and are positive (zero for an excluded unknown word with softmax output), and the probability given for a target class is that of the distribution.",
 ['inputs'],'all network architectures, parameters, sentences, batch compositions and divisions into steps',
 'Layer tests check shapes and single operations; no test runs a whole network on batches.',
 [T+'network/network.py',T+'network/recurrentstate.py',T+'network/lstmlayer.py',T+'network/grulayer.py',T+'network/basiclayer.py',T+'network/softmaxlayer.py',T+'network/hsoftmaxlayer.py'],
 [('network graph and recurrent state',T+'network/network.py'),('state combination',T+'network/recurrentstate.py'),('recurrent layers',T+'network/lstmlayer.py, grulayer.py')])
p('P12','Score outputs and subword merging preserve all log probabilities',
 "In word, perplexity and utterance score outputs the reported word scores, sentence totals, word counts, unknown word counts and perplexities agree with each other and with the scorer. Merging subwords into words, by word boundary tokens or by prefix and affix marks, keeps every predicted unit exactly once and in order, puts the units between two boundaries in one word (which is shown as unknown if one of them is the unknown word token), and gives each word the sum of the scores of its units and of the boundary token that ends it, or no score if it contains an excluded unit; only a boundary token that ends no word (after another one or after the sentence start) is left out.",
 ['inputs'],'all unit sequences with any placement of boundary tokens and marks, unknown units anywhere, and all texts',
 'Tests merge four fixed sequences; the output of the score command is not tested.',
 [T+'commands/score.py'],
 [('subword merging',T+'commands/score.py:_merge_subwords'),('output formats',T+'commands/score.py:_score_text,_score_utterances')])
p('P13','Without pruning the decoder returns the best lattice path with its scores',
 "Without pruning, decoding returns one hypothesis per distinct word sequence of the lattice, sorted by total score. The scores of each are those of an actual path: the sum of its acoustic scores, of its lattice language model scores, and of the neural network scores of its words and the sentence end given all preceding words (class and membership scores, with the unknown word and shortlist rules in force); the total is acoustic plus scaled interpolation of the two language model scores plus the word insertion penalty per word and sentence end. With log-linear interpolation no path with the same words has a better total, so the first hypothesis is the best path of the lattice.",
 ['inputs'],'all acyclic lattices (null links, several final nodes, repeated words, out-of-vocabulary words), scores, interpolation weights and kinds, scales, penalties and unknown word settings',
 'Tests decode one lattice with a handful of settings.',
 [T+'scoring/latticedecoder.py',T+'scoring/lattice.py',T+'backend/probfunctions.py'],
 [('token propagation',T+'scoring/latticedecoder.py:decode,_propagate,_append_word,_handle_unk_logprob'),('score interpolation',T+'scoring/latticedecoder.py:recompute_total; backend/probfunctions.py')])
p('P14','Pruning and recombination drop only what their limits allow',
 "Recombination keeps, at each node, the best scored of the tokens that share as many latest words as the recombination order (a positive number, or the whole history) and drops only the others; the token limit keeps the best scored ones; beam pruning drops only tokens that are at least the beam below the best score at the same or a later time; at least one token is always left, also with limits that are tightened in large lattices. Every hypothesis returned under any limits is a path of the lattice with its scores, hypotheses never appear twice, the result is sorted, and limits that drop nothing give the exhaustive result.",
 ['inputs'],'all lattices and all combinations of beam, token limit and recombination order',
 'Tests prune a hand-made list of tokens once.',
 [T+'scoring/latticedecoder.py'],
 [('pruning',T+'scoring/latticedecoder.py:_prune,_sorted_recombined_tokens,recompute_hash')])
p('P15','Reading, normalizing and writing lattices preserves their paths',
 "A lattice read from an SLF or Kaldi file has exactly the paths described in the file, with their words, acoustic and language model scores and transition IDs (log base, linear scale and sign conventions applied, words on nodes moved to the links that lead to them, quoting and escapes undone; SLF words that begin with ! or # and Kaldi <eps> are null), and the utterance name, LM scale, word insertion penalty and node times given in it. A file that breaks the format (wrong number of links, no initial node, other than one final node in SLF, words both in a node and in a link leading to it, Kaldi sentence boundary or backoff words) is rejected with an error. Writing an acyclic lattice in SLF format, or in Kaldi format when the links to the final node carry no word, and reading it back gives the same paths, scores and settings that the format can express. The nodes that can be reached are processed in an order in which every link leads forward, earlier nodes first where the links leave a choice; a lattice with a cycle that can be reached is rejected with an error.",
 ['inputs'],'all acyclic lattices with any link structure, words (including quotes and special characters), scores and header settings, in either format',
 'Tests read one lattice per format and compare counts and some links.',
 [T+'scoring/lattice.py',T+'scoring/slflattice.py',T+'scoring/kaldilattice.py'],
 [('SLF reader',T+'scoring/slflattice.py'),('Kaldi reader',T+'scoring/kaldilattice.py'),('topological order and writing',T+'scoring/lattice.py')])
p('P16','A rescored lattice contains the decoded paths with their scores',
 "For a determinized lattice (a node has one link with each word; null links only lead from the initial node or to the final node, as the final weights in Kaldi lattices), the lattice that is constructed after decoding is acyclic, has one path for each of its word sequences, and contains every returned hypothesis. Every path has a word sequence of the original lattice, with the same acoustic score and transition IDs, and as its language model score the sum of the score in the original lattice and the score of the neural network. Without beam and token pruning it contains every word sequence of the original lattice, also when tokens are recombined; the network scores are exact without recombination and for the returned hypotheses, and after a recombination they continue like those of the path that was kept.",
 ['inputs'],'all determinized lattices in both formats, score settings, and recombination and pruning settings',
 'No test constructs a rescored lattice.',
 [T+'scoring/rescoredlattice.py',T+'scoring/latticedecoder.py'],
 [('construction',T+'scoring/rescoredlattice.py'),('recombined tokens',T+'scoring/latticedecoder.py')])
p('P17','Parallel lattice jobs decode every lattice exactly once, in order',
 "For every list of lattice files (SLF, or Kaldi archives of any number of lattices) and every number of jobs, each lattice is decoded by exactly one job, in the given order within the job, under its own utterance name, and creating a batch leaves the given list as it was. The decode command applies its options (scales, penalties in the given log base, pruning and recombination limits, unknown word handling) to every lattice; its outputs contain for each lattice the best hypotheses of the decoder, at most as many as requested and best first, with their scores converted to the given log base, or a rescored lattice that contains the hypotheses and carries the language model scale and word insertion penalty that were used.",
 ['inputs'],'all numbers of lattices and jobs, list and archive formats, output formats and n-best sizes',
 'The batch reader and the decode command have no tests.',
 [T+'scoring/latticebatch.py',T+'commands/decode.py',T+'scoring/kaldilattice.py'],
 [('job split',T+'scoring/latticebatch.py'),('output formats',T+'commands/decode.py:format_token')])
p('P18','Sampled text follows the predicted distributions from the seed on',
 "Generated sequences have the requested number and length, start with the given seed words (by default the sentence start), and contain only words to which the network assigns a positive probability given all preceding words of the same sequence, recurrent state included. Sequences sampled together do not influence each other, and words of a class are drawn according to their membership probabilities.",
 ['inputs','schedules'],'all networks and vocabularies, seed sequences, lengths, numbers of sequences and random draws',
 'One test samples a bigram stub without state or classes.',
 [T+'textsampler.py',T+'commands/sample.py',T+'vocabulary/vocabulary.py'],
 [('generation loop',T+'textsampler.py:generate'),('class member sampling',T+'vocabulary/vocabulary.py:class_ids_to_word_ids; vocabulary/wordclass.py:sample')])
p('P19','Word class optimization never worsens the clustering and stays consistent',
 "Throughout class optimization every word belongs to exactly one class, special tokens stay in their own classes, no class becomes empty, and the statistics the optimizer keeps equal those recomputed from the text and the current classes. A word moves only to a class that increases the training set log likelihood, by the amount the optimizer predicted, and to the best such class; the likelihood therefore never decreases, and both optimizer implementations make the same evaluations. The written classes give back the same assignment when read.",
 ['inputs','histories'],'all training texts, vocabularies, numbers of classes, initial assignments and sequences of moves',
 'Tests check a few moves on one small text against stored statistics.',
 ['wordclasses/bigramoptimizer.py','wordclasses/numpybigramoptimizer.py','wordclasses/theanobigramoptimizer.py','bin/wctool'],
 [('exchange step','wordclasses/bigramoptimizer.py:move_to_best_class'),('statistics update','wordclasses/numpybigramoptimizer.py, theanobigramoptimizer.py')])
p('P20','Padding and excluded words never influence a training update',
 "The parameter update made for a mini-batch is the step of the configured optimization method (with its own state carried over the updates, and the norm of the direction limited as configured) for the gradient of the mean cost of the words that are predicted, scaled by the learning rate and the mean file weight of those words. The content and amount of padding, the order of the sentences, and (when unknown words are excluded) the unknown targets' probabilities and weights do not influence it; a mini-batch without any word to predict does not damage the network. With a zero learning rate or zero weights, a method without momentum changes no network parameter, and the norm of a plain gradient step never exceeds the scaled learning rate times the configured maximum. With noise-contrastive estimation and BlackOut the same holds for the same noise words.",
 ['inputs','histories'],'all mini-batches, file weights, learning rates, optimization methods and options, costs and architectures',
 'No test performs a training update.',
 [T+'training/basicoptimizer.py',T+'training/cost.py',T+'training/sgdoptimizer.py',T+'training/nesterovoptimizer.py',T+'training/adagradoptimizer.py',T+'training/adadeltaoptimizer.py',T+'training/rmspropsgdoptimizer.py',T+'training/rmspropnesterovoptimizer.py',T+'training/adamoptimizer.py'],
 [('update function',T+'training/basicoptimizer.py'),('masked cost',T+'training/cost.py')])
p('P21','Noise samples, their probabilities and costs agree with the distribution',
 "For every class distribution (uniform, log-uniform, unigram raised to the dampening exponent), the probabilities it reports are those of its definition and sum to one, drawn classes are in range and follow those probabilities, classes of zero probability are never drawn, the unigram classes drawn for one place are distinct, and different draws are independent. The noise classes of a mini-batch are shared exactly as configured (per word, per time step or one set), the logits given for them are those of the network, and the noise-contrastive estimation and BlackOut costs are the mean over the counted words of the published objective with these classes, logits and noise probabilities, finite even for a target of zero noise probability.",
 ['inputs','schedules'],'all class priors, dampening exponents, sample counts, sharing modes, mini-batches and random states',
 'Tests draw a few samples from fixed distributions.',
 [T+'backend/classdistribution.py',T+'network/network.py',T+'network/samplingoutputlayer.py',T+'training/cost.py'],
 [('distributions',T+'backend/classdistribution.py'),('noise sharing',T+'network/network.py:set_sampling; network/samplingoutputlayer.py'),('costs',T+'training/cost.py:NCECost,BlackoutCost')])
p('P22','A network computes what its description and parameters mean',
 "For every architecture description (element order, spacing and comments do not matter), the network has exactly the parameters that the description means: input sizes are those of the inputs joined in the given order, and defaults apply where an option is not given. Its outputs for a sentence are those of the published functions of the layers applied to the parameters stored under their model file names, with the initial recurrent states at zero: projection, fully connected layers with their activations, addition, highway, GRU, LSTM, bidirectional layers (which see the words from the one after the next on), gated convolution over the current and previous words only, softmax and hierarchical softmax, either for the whole sentence or word by word. Excluding the unknown word gives its class zero probability and leaves the others proportional. Dropout drops each output independently at its rate in training and scales the rest by the inverse of the pass rate, and does nothing otherwise. New networks have the documented gate biases, output biases from the class probabilities, and orthogonal square weights. A description that does not define a network is refused with InputError or ValueError.",
 ['inputs'],'all architecture descriptions, vocabularies, parameter values, sentences and mini-batches',
 'Tests build the packaged architectures; no output values are compared.',
 [T+'network/architecture.py',T+'network/network.py',T+'network/basiclayer.py',T+'network/weightfunctions.py',T+'network/additionlayer.py',T+'network/bidirectionallayer.py',T+'network/dropoutlayer.py',T+'network/fullyconnectedlayer.py',T+'network/glulayer.py',T+'network/grulayer.py',T+'network/highwaylayer.py',T+'network/hsoftmaxlayer.py',T+'network/lstmlayer.py',T+'network/projectionlayer.py',T+'network/softmaxlayer.py',T+'backend/operations.py'],
 [('description',T+'network/architecture.py:from_description'),('layers',T+'network/*layer.py:create_structure'),('parameters',T+'network/basiclayer.py:_init_weight,_init_bias')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
for d in P:
    assert len(d['title'])<=80,d['title']
print(len(P))
