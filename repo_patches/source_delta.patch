From b78a4614124b17895b6b60d065fc28699f92cd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:19 +0000
Subject: [PATCH 01/42] fix: don't overflow file IDs with more than 128
 training files

---
 theanolm/parsing/batchiterator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/parsing/batchiterator.py b/theanolm/parsing/batchiterator.py
index 9e1810b..0def530 100644
--- a/theanolm/parsing/batchiterator.py
+++ b/theanolm/parsing/batchiterator.py
@@ -209,13 +209,13 @@ class BatchIterator(object, metaclass=ABCMeta):
         shape = (batch_length, num_sequences)
         word_ids = numpy.ones(shape, numpy.int64) * unk_id
         mask = numpy.zeros(shape, numpy.int8)
-        file_ids = numpy.zeros(shape, numpy.int8)
+        file_ids = numpy.zeros(shape, numpy.int64)
 
         for i, sequence in enumerate(sequences):
             length = len(sequence)
 
             sequence_word_ids = numpy.ones(length, numpy.int64) * unk_id
-            sequence_file_ids = numpy.zeros(length, numpy.int8)
+            sequence_file_ids = numpy.zeros(length, numpy.int64)
             for index, (word, file_id) in enumerate(sequence):
                 if word in self._vocabulary:
                     word_id = self._vocabulary.word_to_id[word]
-- 
2.43.0


From e660efc3735f005995d82916ac10d4310a7213e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:19 +0000
Subject: [PATCH 02/42] fix: forget buffered words and end of file when
 restoring iterator state

---
 theanolm/parsing/shufflingbatchiterator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/theanolm/parsing/shufflingbatchiterator.py b/theanolm/parsing/shufflingbatchiterator.py
index 5a5ad36..b40553a 100644
--- a/theanolm/parsing/shufflingbatchiterator.py
+++ b/theanolm/parsing/shufflingbatchiterator.py
@@ -184,6 +184,10 @@ class ShufflingBatchIterator(BatchIterator):
             raise IncompatibleStateError("Current iteration position is "
                                          "missing from training state.")
         self._next_line = int(h5_iterator.attrs['next_line'])
+
+        # Forget anything that was read before the state was restored.
+        self._buffer = []
+        self._end_of_file = False
         logging.debug("Restored iterator to line %d of %d.",
                       self._next_line,
                       self._order.size)
-- 
2.43.0


From 8b144bfc6c08e19baf67b2dbdd43b81549f42b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:19 +0000
Subject: [PATCH 03/42] fix: save the position inside a split sentence in
 iterator state

---
 theanolm/parsing/shufflingbatchiterator.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/theanolm/parsing/shufflingbatchiterator.py b/theanolm/parsing/shufflingbatchiterator.py
index b40553a..e03922d 100644
--- a/theanolm/parsing/shufflingbatchiterator.py
+++ b/theanolm/parsing/shufflingbatchiterator.py
@@ -13,7 +13,7 @@ from numpy import random
 
 from theanolm.backend import IncompatibleStateError
 from theanolm.parsing.batchiterator import BatchIterator
-from theanolm.parsing.functions import find_sentence_starts
+from theanolm.parsing.functions import find_sentence_starts, utterance_from_line
 
 class SentencePointers(object):
     """A class that creates a memory map of text files and stores pointers to
@@ -136,8 +136,10 @@ class ShufflingBatchIterator(BatchIterator):
     def get_state(self, state):
         """Saves the iterator state in a HDF5 file.
 
-        Sets ``iterator/order`` to the iteration order, and
-        ``iterator/next_line`` the index to the next sentence in the list. Note
+        Sets ``iterator/order`` to the iteration order,
+        ``iterator/next_line`` the index to the next sentence in the list, and
+        ``iterator/buffer_size`` the number of words of the previous sentence
+        that have not been returned yet, because of the sequence length. Note
         that if the program is restarted, the same training files have to be
         loaded in order for this to work. If there already is a
         ``iterator/order`` in the state, it will be replaced, so it has to have
@@ -155,6 +157,7 @@ class ShufflingBatchIterator(BatchIterator):
             h5_iterator.create_dataset('order', data=self._order)
 
         h5_iterator.attrs['next_line'] = self._next_line
+        h5_iterator.attrs['buffer_size'] = len(self._buffer)
 
     def set_state(self, state):
         """Restores the iterator state.
@@ -188,6 +191,16 @@ class ShufflingBatchIterator(BatchIterator):
         # Forget anything that was read before the state was restored.
         self._buffer = []
         self._end_of_file = False
+
+        # Continue from the middle of a sentence, if it was split into multiple
+        # sequences.
+        buffer_size = int(h5_iterator.attrs.get('buffer_size', 0))
+        if buffer_size > 0:
+            self._next_line -= 1
+            line, file_id = self._readline()
+            self._buffer = [(word, file_id)
+                            for word in utterance_from_line(line)]
+            self._buffer = self._buffer[-buffer_size:]
         logging.debug("Restored iterator to line %d of %d.",
                       self._next_line,
                       self._order.size)
-- 
2.43.0


From 04d79c070d1a970b32bfef5e58fbd5b61e731088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:33 +0000
Subject: [PATCH 04/42] fix: read gzip-compressed training and validation data

---
 theanolm/commands/train.py                 |  6 +-----
 theanolm/parsing/shufflingbatchiterator.py | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/theanolm/commands/train.py b/theanolm/commands/train.py
index cf9b10c..900ba4d 100644
--- a/theanolm/commands/train.py
+++ b/theanolm/commands/train.py
@@ -4,7 +4,6 @@
 """
 
 import sys
-import mmap
 import logging
 
 import h5py
@@ -455,11 +454,8 @@ def train(args):
                                 exclude_unk=args.exclude_unk,
                                 profile=args.profile)
             logging.info("Validation text: %s", args.validation_file.name)
-            validation_mmap = mmap.mmap(args.validation_file.fileno(),
-                                        0,
-                                        prot=mmap.PROT_READ)
             validation_iter = \
-                LinearBatchIterator(validation_mmap,
+                LinearBatchIterator(args.validation_file,
                                     vocabulary,
                                     batch_size=args.batch_size,
                                     max_sequence_length=args.sequence_length,
diff --git a/theanolm/parsing/shufflingbatchiterator.py b/theanolm/parsing/shufflingbatchiterator.py
index e03922d..5fb5dd9 100644
--- a/theanolm/parsing/shufflingbatchiterator.py
+++ b/theanolm/parsing/shufflingbatchiterator.py
@@ -5,7 +5,10 @@ sentence order.
 """
 
 import sys
+import gzip
 import mmap
+import shutil
+import tempfile
 import logging
 
 import numpy
@@ -42,7 +45,17 @@ class SentencePointers(object):
 
         for subset_file in files:
             subset_index = len(self.mmaps)
-            subset_mmap = mmap.mmap(subset_file.fileno(),
+            text_file = subset_file
+            binary_file = getattr(subset_file, 'buffer', subset_file)
+            if isinstance(binary_file, gzip.GzipFile):
+                # The file descriptor refers to the compressed data, so the
+                # memory map has to be created from a decompressed copy.
+                text_file = tempfile.TemporaryFile()
+                subset_file.seek(0)
+                shutil.copyfileobj(binary_file, text_file)
+                text_file.flush()
+                subset_file.seek(0)
+            subset_mmap = mmap.mmap(text_file.fileno(),
                                     0,
                                     prot=mmap.PROT_READ)
             self.mmaps.append(subset_mmap)
-- 
2.43.0


From f63e29b6dee2880328bd9b9ebe394eb03f78eabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:27 +0000
Subject: [PATCH 05/42] fix: save the state after an epoch as the beginning of
 the next epoch

When there was no validation data, the state saved after an epoch still
contained the number of the finished epoch and its number of updates, although
the iterator was already at the beginning of the next epoch. Continuing the
training from the model file repeated the epoch number, i.e. trained one epoch
more than requested on every restart.
---
 theanolm/training/trainer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index 68c7252..0876389 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -230,9 +230,6 @@ class Trainer(object):
                 if not self._stopper.start_new_minibatch():
                     break
 
-            if self._validation_iter is None:
-                self._set_candidate_state()
-
             epoch_duration = time() - epoch_start_time
             epoch_minutes = epoch_duration / 60
             epoch_time_h, epoch_time_m = divmod(epoch_minutes, 60)
@@ -247,6 +244,11 @@ class Trainer(object):
             self.epoch_number += 1
             self.update_number = 0
 
+            # The saved state is the beginning of the next epoch. Otherwise the
+            # finished epoch would be counted again, when training is continued.
+            if self._validation_iter is None:
+                self._set_candidate_state()
+
         duration = time() - start_time
         minutes = duration / 60
         time_h, time_m = divmod(minutes, 60)
-- 
2.43.0


From ced3423bb6ae4e4332b335606270aa11671bb73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:28 +0000
Subject: [PATCH 06/42] fix: flush the model file to disk before training
 starts

With the core driver, nothing but an unfinished file is on disk before the first
flush. If training was killed before the first candidate state was saved, the
remaining file could not be opened, so training could not be started again.
---
 theanolm/commands/train.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theanolm/commands/train.py b/theanolm/commands/train.py
index 900ba4d..6ee44f8 100644
--- a/theanolm/commands/train.py
+++ b/theanolm/commands/train.py
@@ -353,6 +353,9 @@ def train(args):
 
     with h5py.File(args.model_path, 'a', driver='core') as state:
         vocabulary = _read_vocabulary(args, state)
+        # Write the file to disk. Otherwise it is unreadable and prevents starting
+        # again, if training is interrupted before the first state is saved.
+        state.flush()
 
         if args.num_noise_samples > vocabulary.num_classes():
             print("Number of noise samples ({}) is larger than the number of "
-- 
2.43.0


From fb48dea83362f8d4ea5b58ba0207df1f2ddc0b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:59 +0000
Subject: [PATCH 07/42] fix: keep the order of more than ten inputs when
 reading an architecture

The indices were sorted as strings, so the inputs of a layer with more than ten
inputs (and more than ten network inputs) were read from a model file in a
different order (0, 1, 10, 2, ...), which silently gave a different network.
---
 theanolm/network/architecture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/network/architecture.py b/theanolm/network/architecture.py
index 57a4d8a..0d92fb1 100644
--- a/theanolm/network/architecture.py
+++ b/theanolm/network/architecture.py
@@ -62,7 +62,7 @@ class Architecture(object):
                 "network state.")
         h5_inputs = h5_arch['inputs']
         inputs = []
-        for input_id in sorted(h5_inputs.keys()):
+        for input_id in sorted(h5_inputs.keys(), key=int):
             h5_input = h5_inputs[input_id]
             inputs.append(cls._read_h5_dict(h5_input))
 
@@ -276,7 +276,7 @@ class Architecture(object):
         for variable in h5_dict:
             values = []
             h5_values = h5_dict[variable]
-            for value_id in sorted(h5_values.attrs.keys()):
+            for value_id in sorted(h5_values.attrs.keys(), key=int):
                 values.append(h5_values.attrs[value_id])
             result[variable] = values
         return result
-- 
2.43.0


From 5edc1b1315dd8abfda4b0703c880225bed64e90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:59 +0000
Subject: [PATCH 08/42] fix: refuse every model file that has a different
 architecture

Layers, layer inputs and layer options that exist in a model file, but not in
the network, were ignored when restoring the state, which gave a network that
silently differed from the saved one. A layer, an input or an option missing
from the file caused a KeyError instead of an IncompatibleStateError.
---
 theanolm/network/architecture.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/theanolm/network/architecture.py b/theanolm/network/architecture.py
index 0d92fb1..c419206 100644
--- a/theanolm/network/architecture.py
+++ b/theanolm/network/architecture.py
@@ -233,6 +233,10 @@ class Architecture(object):
                 "Architecture parameter 'inputs' is missing from neural "
                 "network state.")
         h5_inputs = h5_arch['inputs']
+        if len(h5_inputs) != len(self.inputs):
+            raise IncompatibleStateError(
+                "Neural network state has {1} inputs, while this architecture "
+                "has {0} inputs.".format(len(self.inputs), len(h5_inputs)))
         for input_id, input_value in enumerate(self.inputs):
             h5_input = h5_inputs[str(input_id)]
             self._check_h5_dict(h5_input, input_value)
@@ -242,9 +246,19 @@ class Architecture(object):
                 "Architecture parameter 'layers' is missing from neural "
                 "network state.")
         h5_layers = h5_arch['layers']
+        if len(h5_layers) != len(self.layers):
+            raise IncompatibleStateError(
+                "Neural network state has {1} layers, while this architecture "
+                "has {0} layers.".format(len(self.layers), len(h5_layers)))
         for layer_id, layer in enumerate(self.layers):
             h5_layer = h5_layers[str(layer_id)]
             self._check_h5_dict(h5_layer, layer)
+            for variable, h5_value in h5_layer.attrs.items():
+                if variable not in layer:
+                    raise IncompatibleStateError(
+                        "Neural network state has {0}={1} in layer {2}, while "
+                        "this architecture does not specify {0}."
+                        .format(variable, h5_value, layer['name']))
 
         if 'output_layer' not in h5_arch.attrs:
             raise IncompatibleStateError(
@@ -334,15 +348,26 @@ class Architecture(object):
                             "Neural network state does not specify devices, "
                             "while this architecture uses {}."
                             .format(', '.join(str(x) for x in values)))
-                h5_values = h5_group[variable]
+                num_values = len(h5_group[variable].attrs) \
+                             if variable in h5_group else 0
+                if (num_values < len(values)) or \
+                   ((variable != 'devices') and (num_values > len(values))):
+                    raise IncompatibleStateError(
+                        "Neural network state has {2} {0}, while this "
+                        "architecture has {1}."
+                        .format(variable, len(values), num_values))
                 for value_id, value in enumerate(values):
-                    h5_value = h5_values.attrs[str(value_id)]
+                    h5_value = h5_group[variable].attrs[str(value_id)]
                     if value != h5_value:
                         raise IncompatibleStateError(
                             "Neural network state has {0}={2}, while this "
                             "architecture has {0}={1}."
                             .format(variable, value, h5_value))
             else:
+                if variable not in h5_group.attrs:
+                    raise IncompatibleStateError(
+                        "Neural network state does not specify {0}, while this "
+                        "architecture has {0}={1}.".format(variable, values))
                 h5_value = h5_group.attrs[variable]
                 if values != h5_value:
                     raise IncompatibleStateError(
-- 
2.43.0


From e4916d9aa0c51b30f0848b2775bd6bbc5d3c2050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:42 +0000
Subject: [PATCH 09/42] fix: check the architecture before restoring network
 parameters

A model file of a different architecture was refused with a TypeError, if the
same parameter had a different number of dimensions, and the parameters of the
network had been partly overwritten when any such file was refused.
---
 theanolm/network/network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/theanolm/network/network.py b/theanolm/network/network.py
index 37c2d03..3ef309b 100644
--- a/theanolm/network/network.py
+++ b/theanolm/network/network.py
@@ -386,9 +386,6 @@ class Network(object):
         :param state: HDF5 file that contains the neural network parameters
         """
 
-        for layer in self.layers.values():
-            layer.set_state(state)
-
         try:
             self.architecture.check_state(state)
         except IncompatibleStateError as error:
@@ -396,6 +393,9 @@ class Network(object):
                 "Attempting to restore state of a network that is incompatible "
                 "with this architecture. " + str(error))
 
+        for layer in self.layers.values():
+            layer.set_state(state)
+
     def get_variables(self):
         """Returns a dictionary of the model parameters.
 
-- 
2.43.0


From 0283984e8ae647fb2b4234225bd8f5143d1d321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:33 +0000
Subject: [PATCH 10/42] fix: score lines that contain out-of-shortlist words

Utterance scoring of an out-of-shortlist word raised an IndexError, because only
shortlist words have a class and a membership probability of their own.
---
 theanolm/scoring/textscorer.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/theanolm/scoring/textscorer.py b/theanolm/scoring/textscorer.py
index 1b36d0a..08d1118 100644
--- a/theanolm/scoring/textscorer.py
+++ b/theanolm/scoring/textscorer.py
@@ -336,10 +336,7 @@ class TextScorer(object):
         self.num_words += word_ids.size
         self.num_unks += numpy.count_nonzero(word_ids == unk_id)
 
-        class_ids = [vocabulary.word_id_to_class_id[word_id]
-                     for word_id in word_ids]
-        probs = [vocabulary.get_word_prob(word_id)
-                 for word_id in word_ids]
+        class_ids, probs = vocabulary.get_class_memberships(word_ids)
 
         return self.score_sequence(word_ids, class_ids, probs)
 
-- 
2.43.0


From 3ec2b7880a99c2860dbc903921ff814411652335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:33 +0000
Subject: [PATCH 11/42] fix: exclude out-of-shortlist words also when using a
 shortlist

The documentation of the scoring functions says that out-of-shortlist words are
excluded when exclude_unk is given together with a shortlist, but they were
scored. As the network then gives <unk> zero probability, perplexity computation
failed because of a zero probability.
---
 theanolm/scoring/textscorer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/scoring/textscorer.py b/theanolm/scoring/textscorer.py
index 08d1118..71d43f9 100644
--- a/theanolm/scoring/textscorer.py
+++ b/theanolm/scoring/textscorer.py
@@ -102,7 +102,7 @@ class TextScorer(object):
             # Always exclude OOV words when using a shortlist - No probability
             # mass is left for them.
             mask *= tensor.neq(target_word_ids, self._unk_id)
-        elif exclude_unk:
+        if exclude_unk:
             # If requested, ignore OOS and OOV probabilities.
             mask *= tensor.neq(target_word_ids, self._unk_id)
             mask *= tensor.lt(target_word_ids, shortlist_size)
-- 
2.43.0


From 28ab6f2bbcb084e4c78cff4a2c2080a682869ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:53 +0000
Subject: [PATCH 12/42] fix: don't divide by zero when no word of a sentence is
 predicted

With subwords, a sentence can consist of one word that is excluded because it
contains <unk>. Writing its perplexity, or the perplexity of a text that
contains only such sentences, raised a ZeroDivisionError.
---
 theanolm/commands/score.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theanolm/commands/score.py b/theanolm/commands/score.py
index 00da3f2..04e9a48 100644
--- a/theanolm/commands/score.py
+++ b/theanolm/commands/score.py
@@ -215,8 +215,10 @@ def _score_text(input_file, vocabulary, scorer, output_file,
                 output_file.write("# Sentence {0}\n".format(num_sentences))
                 _write_word_scores(vocabulary, merged_words, merged_logprobs,
                                    output_file, log_scale)
-                output_file.write("Sentence perplexity: {0}\n\n".format(
-                    numpy.exp(-seq_logprob / num_seq_probs)))
+                if num_seq_probs > 0:
+                    output_file.write("Sentence perplexity: {0}\n".format(
+                        numpy.exp(-seq_logprob / num_seq_probs)))
+                output_file.write("\n")
 
     output_file.write("Number of sentences: {0}\n".format(num_sentences))
     output_file.write("Number of words: {0}\n".format(num_words))
@@ -227,7 +229,7 @@ def _score_text(input_file, vocabulary, scorer, output_file,
                       .format(num_unks))
     output_file.write("Number of zero probabilities: {0}\n"
                       .format(num_zeroprobs))
-    if num_words > 0:
+    if num_probs > 0:
         cross_entropy = -total_logprob / num_probs
         perplexity = numpy.exp(cross_entropy)
         output_file.write("Cross entropy (base e): {0}\n".format(cross_entropy))
-- 
2.43.0


From ac525bd7ab6a5789c321dcf5109ccf3e8186e1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:53 +0000
Subject: [PATCH 13/42] fix: report the word counts after utterance scoring

The log message mixed two formatting styles, so it contained the format string
instead of the numbers.
---
 theanolm/commands/score.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/theanolm/commands/score.py b/theanolm/commands/score.py
index 04e9a48..3876f2a 100644
--- a/theanolm/commands/score.py
+++ b/theanolm/commands/score.py
@@ -427,7 +427,8 @@ def _score_utterances(input_file, vocabulary, scorer, output_file,
         logging.info("The input file contains no words.")
     else:
         logging.info("%d words processed, including start-of-sentence and "
-              "end-of-sentence tags, and %d (%.1f %%) out-of-vocabulary "
-              "words".format(scorer.num_words,
-                             scorer.num_unks,
-                             scorer.num_unks / scorer.num_words))
+                     "end-of-sentence tags, and %d (%.1f %%) out-of-vocabulary "
+                     "words",
+                     scorer.num_words,
+                     scorer.num_unks,
+                     100 * scorer.num_unks / scorer.num_words)
-- 
2.43.0


From bafac81010e4b4f64cd9928c9d309045b5a6b40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:30 +0000
Subject: [PATCH 14/42] fix: normalize hierarchical softmax over the vocabulary
 classes

---
 theanolm/network/hsoftmaxlayer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/theanolm/network/hsoftmaxlayer.py b/theanolm/network/hsoftmaxlayer.py
index 4087688..a819185 100644
--- a/theanolm/network/hsoftmaxlayer.py
+++ b/theanolm/network/hsoftmaxlayer.py
@@ -6,6 +6,7 @@
 import logging
 
 import numpy
+import theano
 import theano.tensor as tensor
 
 from theanolm.network.basiclayer import BasicLayer
@@ -81,6 +82,14 @@ class HSoftmaxLayer(BasicLayer):
         level1_weight = self._params[self._param_path('level1/W')]
         level1_bias = self._params[self._param_path('level1/b')]
 
+        # The two levels may have room for more classes than there are in the
+        # vocabulary. Those should not get any of the probability mass.
+        num_extra = self._level1_size * self._level2_size - self.output_size
+        if num_extra > 0:
+            float_type = numpy.dtype(theano.config.floatX).type
+            level1_bias = tensor.set_subtensor(level1_bias[-1, -num_extra:],
+                                               float_type('-inf'))
+
         # First create the output for the whole probability distribution.
         # Combine the first two dimensions so that softmax is taken
         # independently for each location, over the output classes.
-- 
2.43.0


From 2dd128ed5db6fd976d0b6d5855fa3cf6594c0ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:35 +0000
Subject: [PATCH 15/42] fix: ignore padding in the backward pass of
 bidirectional layers

---
 theanolm/network/grulayer.py  | 4 ++++
 theanolm/network/lstmlayer.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/theanolm/network/grulayer.py b/theanolm/network/grulayer.py
index 61d3320..083ddcf 100644
--- a/theanolm/network/grulayer.py
+++ b/theanolm/network/grulayer.py
@@ -77,6 +77,10 @@ class GRULayer(BasicLayer):
             # Shift the input left by two time steps in the backward layer of a
             # bidirectional layer. The target word is the next input word, so
             # otherwise predicting it will be trivial.
+            # Words past the end of a sequence are treated as padding.
+            layer_input_preact = tensor.switch(self._network.mask[:, :, None],
+                                               layer_input_preact,
+                                               0)
             preact_dim = layer_input_preact.shape[2]
             padding = tensor.zeros([2, num_sequences, preact_dim])
             layer_input_preact = tensor.concatenate(
diff --git a/theanolm/network/lstmlayer.py b/theanolm/network/lstmlayer.py
index 73c3016..82dfd58 100644
--- a/theanolm/network/lstmlayer.py
+++ b/theanolm/network/lstmlayer.py
@@ -82,6 +82,10 @@ class LSTMLayer(BasicLayer):
             # Shift the input left by two time steps in the backward layer of a
             # bidirectional layer. The target word is the next input word, so
             # otherwise predicting it will be trivial.
+            # Words past the end of a sequence are treated as padding.
+            layer_input_preact = tensor.switch(self._network.mask[:, :, None],
+                                               layer_input_preact,
+                                               0)
             preact_dim = layer_input_preact.shape[2]
             padding = tensor.zeros([2, num_sequences, preact_dim])
             layer_input_preact = tensor.concatenate(
-- 
2.43.0


From 156910e9f4e7db0bc25358e608302c1517f92284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:29 +0000
Subject: [PATCH 16/42] fix: use the class membership probability of the
 predicted word in decoding

---
 theanolm/scoring/latticedecoder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theanolm/scoring/latticedecoder.py b/theanolm/scoring/latticedecoder.py
index 1a29dde..f807ba6 100644
--- a/theanolm/scoring/latticedecoder.py
+++ b/theanolm/scoring/latticedecoder.py
@@ -629,13 +629,15 @@ class LatticeDecoder(object):
         input_word_ids = [[limit_to_shortlist(self, token.history[-1])
                            for token in tokens]]
         input_word_ids = numpy.asarray(input_word_ids).astype('int64')
-        input_class_ids, membership_probs = \
+        input_class_ids, _ = \
             self._vocabulary.get_class_memberships(input_word_ids)
         recurrent_state = [token.state for token in tokens]
         recurrent_state = RecurrentState.combine_sequences(recurrent_state)
         target_word_id = limit_to_shortlist(self, target_word)
-        target_class_ids = numpy.ones(shape=(1, len(tokens))).astype('int64')
-        target_class_ids *= self._vocabulary.word_id_to_class_id[target_word_id]
+        target_word_ids = numpy.full((1, len(tokens)), target_word_id,
+                                     dtype='int64')
+        target_class_ids, membership_probs = \
+            self._vocabulary.get_class_memberships(target_word_ids)
         step_result = self._step_function(input_word_ids,
                                           input_class_ids,
                                           target_class_ids,
-- 
2.43.0


From 4816b564a7af0cb66606a670115cba89be169c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:29 +0000
Subject: [PATCH 17/42] fix: never prune all the tokens of a node

---
 theanolm/scoring/latticedecoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/scoring/latticedecoder.py b/theanolm/scoring/latticedecoder.py
index f807ba6..1ca42bf 100644
--- a/theanolm/scoring/latticedecoder.py
+++ b/theanolm/scoring/latticedecoder.py
@@ -552,7 +552,7 @@ class LatticeDecoder(object):
         # Enforce limit on number of tokens at each node.
         if self._max_tokens_per_node is not None:
             max_tokens = self._max_tokens_per_node // limit_divider
-            max_tokens = max(max_tokens, self._abs_min_max_tokens)
+            max_tokens = max(max_tokens, self._abs_min_max_tokens, 1)
             new_tokens = new_tokens[:max_tokens]
         stats['after-max'] = len(new_tokens)
 
-- 
2.43.0


From e9ba0b3294c3983228b00d47bf3be272aac6b291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:29 +0000
Subject: [PATCH 18/42] fix: pass the relative pruning limit to the decoder

---
 theanolm/commands/decode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/commands/decode.py b/theanolm/commands/decode.py
index b2a3ee1..f8ddd0b 100644
--- a/theanolm/commands/decode.py
+++ b/theanolm/commands/decode.py
@@ -135,7 +135,7 @@ def add_arguments(parser):
              "linearly in the number of tokens in a node; those parameters "
              "will be divided by the number of tokens and multiplied by R")
     argument_group.add_argument(
-        '--abs-min-max-tokens', metavar='T', type=float, default=30,
+        '--abs-min-max-tokens', metavar='T', type=int, default=30,
         help="if prune-extra-limit is used, do not tighten max-tokens-per-node "
              "further than this (default is 30)")
     argument_group.add_argument(
@@ -219,7 +219,7 @@ def decode(args):
         'max_tokens_per_node': args.max_tokens_per_node,
         'beam': args.beam,
         'recombination_order': args.recombination_order,
-        'prune_relative': args.prune_relative,
+        'prune_extra_limit': args.prune_relative,
         'abs_min_max_tokens': args.abs_min_max_tokens,
         'abs_min_beam': args.abs_min_beam
     }
-- 
2.43.0


From 9b999fb0fd328ae17b136808745a2070c76fc006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:19 +0000
Subject: [PATCH 19/42] fix: read SLF fields that contain the comment character

---
 theanolm/scoring/slflattice.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/theanolm/scoring/slflattice.py b/theanolm/scoring/slflattice.py
index f2264c6..85b731a 100644
--- a/theanolm/scoring/slflattice.py
+++ b/theanolm/scoring/slflattice.py
@@ -28,7 +28,12 @@ def _split_slf_line(line):
               marks removed
     """
 
+    # Only a line that begins with # is a comment. Words may contain #.
+    if line.lstrip().startswith('#'):
+        return []
+
     lex = shlex(line, posix=True)
+    lex.commenters = ''
     lex.quotes = '"'
     lex.wordchars += "'"
     lex.whitespace_split = True
-- 
2.43.0


From 4493e35643d2dda0f85f43e62461c0bd385e32b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:19 +0000
Subject: [PATCH 20/42] fix: read SLF lattices with long paths

---
 theanolm/scoring/slflattice.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/theanolm/scoring/slflattice.py b/theanolm/scoring/slflattice.py
index 85b731a..731ce7b 100644
--- a/theanolm/scoring/slflattice.py
+++ b/theanolm/scoring/slflattice.py
@@ -271,8 +271,7 @@ class SLFLattice(Lattice):
         visited = {self.initial_node.id}
 
         def visit_link(link):
-            """A function that is called recursively to move a word from the
-            link end node to the link.
+            """Moves a word from the link end node to the link.
             """
             end_node = link.end_node
             if hasattr(end_node, 'word'):
@@ -283,11 +282,11 @@ class SLFLattice(Lattice):
                                      "and links.")
             if end_node.id not in visited:
                 visited.add(end_node.id)
-                for next_link in end_node.out_links:
-                    visit_link(next_link)
+                link_queue.extend(end_node.out_links)
 
-        for link in self.initial_node.out_links:
-            visit_link(link)
+        link_queue = list(self.initial_node.out_links)
+        while link_queue:
+            visit_link(link_queue.pop())
 
         for node in self.nodes:
             if hasattr(node, 'word'):
-- 
2.43.0


From c851e1cc33c768d4a1c211568d5fe54448a227f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:19 +0000
Subject: [PATCH 21/42] fix: sort lattices that contain unreachable nodes and
 detect all cycles

---
 theanolm/scoring/lattice.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/theanolm/scoring/lattice.py b/theanolm/scoring/lattice.py
index 3a073e9..d1341d3 100644
--- a/theanolm/scoring/lattice.py
+++ b/theanolm/scoring/lattice.py
@@ -180,11 +180,21 @@ class Lattice(object):
         stamps.
         """
 
+        # Nodes that can be reached from the initial node, and the number of
+        # incoming links from those nodes that are not traversed yet:
+        in_degrees = {self.initial_node.id: 0}
+        node_queue = [self.initial_node]
+        while node_queue:
+            for link in node_queue.pop().out_links:
+                next_node = link.end_node
+                if next_node.id not in in_degrees:
+                    in_degrees[next_node.id] = 0
+                    node_queue.append(next_node)
+                in_degrees[next_node.id] += 1
+
         result = []
         # A queue of nodes to be visited next:
         node_queue = [self.initial_node]
-        # The number of incoming links not traversed yet:
-        in_degrees = [len(node.in_links) for node in self.nodes]
         while node_queue:
             node = node_queue.pop()
             result.append(node)
@@ -198,6 +208,8 @@ class Lattice(object):
                 elif in_degrees[next_node.id] < 0:
                     raise InputError("Word lattice contains a cycle.")
 
+        if len(result) < len(in_degrees):
+            raise InputError("Word lattice contains a cycle.")
         if len(result) < len(self.nodes):
             logging.warning("Word lattice contains unreachable nodes.")
         else:
-- 
2.43.0


From fc08d890190408be347f3d82abcdd90057d2e4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:19 +0000
Subject: [PATCH 22/42] fix: escape special characters when writing SLF
 lattices

---
 theanolm/scoring/lattice.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/lattice.py b/theanolm/scoring/lattice.py
index d1341d3..40d97f2 100644
--- a/theanolm/scoring/lattice.py
+++ b/theanolm/scoring/lattice.py
@@ -10,6 +10,18 @@ from theanolm.backend import InputError
 class NodeNotFoundError(Exception):
     pass
 
+def _quote_slf_value(value):
+    """Escapes special characters of a value in an SLF lattice field.
+
+    :type value: str
+    :param value: value of a field
+
+    :rtype: str
+    :returns: the value enclosed in double quotes
+    """
+
+    return '"{}"'.format(value.replace('\\', '\\\\').replace('"', '\\"'))
+
 class Lattice(object):
     """Word Lattice
 
@@ -99,7 +111,8 @@ class Lattice(object):
 
         output_file.write("# Header (generated by TheanoLM)\n")
         output_file.write("VERSION=1.1\n")
-        output_file.write('UTTERANCE="{}"\n'.format(self.utterance_id))
+        output_file.write("UTTERANCE={}\n"
+                          .format(_quote_slf_value(str(self.utterance_id))))
         fields = []
         if self.lm_scale is not None:
             fields.append("lmscale={}".format(self.lm_scale))
@@ -125,6 +138,8 @@ class Lattice(object):
                       "E={}".format(link.end_node.id)]
             if link.word is None:
                 fields.append("W=!NULL")
+            elif any(c.isspace() or c in '"\\' for c in link.word):
+                fields.append("W={}".format(_quote_slf_value(link.word)))
             else:
                 fields.append("W={}".format(link.word))
             if link.ac_logprob is not None:
-- 
2.43.0


From ae78023820026d4e65e46ec0f36d3cc101315aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:19 +0000
Subject: [PATCH 23/42] fix: write the initial node of a Kaldi lattice first

---
 theanolm/scoring/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/lattice.py b/theanolm/scoring/lattice.py
index 40d97f2..9537ac0 100644
--- a/theanolm/scoring/lattice.py
+++ b/theanolm/scoring/lattice.py
@@ -178,7 +178,8 @@ class Lattice(object):
                 link.transitions))
 
         output_file.write("{}\n".format(self.utterance_id))
-        for node in self.nodes:
+        # The initial node is recognized from being the first one.
+        for node in sorted(self.nodes, key=lambda x: x is not self.initial_node):
             for link in node.out_links:
                 if link.end_node.final:
                     write_final_link(link)
-- 
2.43.0


From 16703cd4933f0568c64a963bba3a18cbdd155435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:40 +0000
Subject: [PATCH 24/42] fix: join transition IDs in the order of the path

The transition IDs of null links were concatenated after those of the word
that follows, without a separator.
---
 theanolm/scoring/rescoredlattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index 41566db..1a62e02 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -51,7 +51,8 @@ def _follow_word_from_node(node, word):
         if link.lm_logprob is not None:
             lm_logprob += link.lm_logprob
         if link.transitions is not None:
-            transitions += link.transitions
+            transitions = '_'.join(x for x in (link.transitions, transitions)
+                                   if x)
         return (end_node, ac_logprob, lm_logprob, transitions)
 
 class RescoredLattice(Lattice):
-- 
2.43.0


From fe82f83c78dc731a990de46192d5bb0e4fb8a9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:40 +0000
Subject: [PATCH 25/42] fix: include the links after the last word in rescored
 lattices

The acoustic and graph scores and the transition IDs of the null links that
lead to the final node, such as the final weights of Kaldi lattices, were lost.
---
 theanolm/scoring/rescoredlattice.py | 59 +++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index 1a62e02..17d5e62 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -55,6 +55,35 @@ def _follow_word_from_node(node, word):
                                    if x)
         return (end_node, ac_logprob, lm_logprob, transitions)
 
+def _follow_null_links_to_final(node):
+    """Follows null links from given node to a final node.
+
+    :type node: Lattice.Node
+    :param node: node where to start searching
+
+    :rtype: tuple of (float, float, str)
+    :returns: the total acoustic log probability, LM log probability, and
+              transition IDs of the path to a final node, or ``None`` if a final
+              node cannot be reached without passing words
+    """
+
+    if node.final:
+        return (0.0, 0.0, "")
+    for link in node.out_links:
+        if link.word is not None:
+            continue
+        scores = _follow_null_links_to_final(link.end_node)
+        if scores is not None:
+            ac_logprob, lm_logprob, transitions = scores
+            if link.ac_logprob is not None:
+                ac_logprob += link.ac_logprob
+            if link.lm_logprob is not None:
+                lm_logprob += link.lm_logprob
+            transitions = '_'.join(x for x in (link.transitions, transitions)
+                                   if x)
+            return (ac_logprob, lm_logprob, transitions)
+    return None
+
 class RescoredLattice(Lattice):
     """Rescored Lattice
 
@@ -97,8 +126,9 @@ class RescoredLattice(Lattice):
             :type create: bool
             :param create: if ``True``, creates new nodes if necessary
 
-            :rtype: Lattice.Node
-            :returns: the last node of the path
+            :rtype: tuple of (Lattice.Node, Lattice.Node)
+            :returns: the last node of the path, and the corresponding node in
+                      the original lattice
             """
 
             words = [vocabulary.id_to_word[id] if isinstance(id, int) else id
@@ -120,18 +150,21 @@ class RescoredLattice(Lattice):
 
         # Create all the paths that correspond to the final tokens.
         for token in final_tokens:
-            node = follow_word_ids(token.history)
+            node, orig_node = follow_word_ids(token.history)
             # If the lattice is not determinized, it may happen that we have two
             # tokens with the same word sequence.
             if any(link.end_node.final for link in node.out_links):
                 continue
             # For the final link we set the NNLM log probability of the entire
             # path. The created lattice is a tree, so we can equivalently set
-            # the entire path probability in the final link.
+            # the entire path probability in the final link. The original
+            # lattice may have null links after the last word.
+            ac_logprob, lm_logprob, transitions = \
+                _follow_null_links_to_final(orig_node) or (0.0, 0.0, "")
             link = self.Link(node, final_node, word=None,
-                             ac_logprob=0,
-                             lm_logprob=token.nn_lm_logprob,
-                             transitions="")
+                             ac_logprob=ac_logprob,
+                             lm_logprob=lm_logprob + token.nn_lm_logprob,
+                             transitions=transitions)
             node.out_links.append(link)
             self.links.append(link)
 
@@ -149,7 +182,8 @@ class RescoredLattice(Lattice):
             # Find the incoming link that corresponds to the token that was kept
             # during recombination.
             try:
-                recomb_from_node = follow_word_ids(new_history[:-1], False)
+                recomb_from_node, _ = follow_word_ids(new_history[:-1],
+                                                      False)
             except NodeNotFoundError:
                 continue
             # Our new lattice doesn't contain null links, so word_to_link maps
@@ -162,7 +196,7 @@ class RescoredLattice(Lattice):
             # that was kept during recombination. The difference in LM log
             # probability can be computed from the token (path) NNLM log
             # probabilities.
-            from_node = follow_word_ids(token.history[:-1])
+            from_node, _ = follow_word_ids(token.history[:-1])
             lm_logprob_diff = token.nn_lm_logprob - nn_lm_logprob
             new_link = self.Link(from_node, recomb_link.end_node, word,
                                  recomb_link.ac_logprob,
@@ -238,8 +272,9 @@ class RescoredLattice(Lattice):
         :param create: if set to ``False``, won't create any nodes but raises a
             ``NodeNotFoundError`` if the path doesn't exist
 
-        :rtype: Lattice.Node
-        :returns: the last node of the path
+        :rtype: tuple of (Lattice.Node, Lattice.Node)
+        :returns: the last node of the path, and the corresponding node in the
+                  original lattice
         """
 
         node = self.initial_node
@@ -272,4 +307,4 @@ class RescoredLattice(Lattice):
             node = link.end_node
             orig_node = orig_end_node
 
-        return node
+        return node, orig_node
-- 
2.43.0


From 4bf7d8a3800468f9c0e400b61907591febeb4dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:10 +0000
Subject: [PATCH 26/42] fix: use the scores of their own links on recombined
 paths

When two tokens reached the same node through different links with the same
word, the path of the dropped token got the acoustic and lattice LM scores and
transition IDs of the other link.
---
 theanolm/scoring/rescoredlattice.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index 17d5e62..1779f2c 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -182,8 +182,8 @@ class RescoredLattice(Lattice):
             # Find the incoming link that corresponds to the token that was kept
             # during recombination.
             try:
-                recomb_from_node, _ = follow_word_ids(new_history[:-1],
-                                                      False)
+                recomb_from_node, recomb_orig_node = \
+                    follow_word_ids(new_history[:-1], False)
             except NodeNotFoundError:
                 continue
             # Our new lattice doesn't contain null links, so word_to_link maps
@@ -195,13 +195,24 @@ class RescoredLattice(Lattice):
             # Add a link from the previous word in the token history to the node
             # that was kept during recombination. The difference in LM log
             # probability can be computed from the token (path) NNLM log
-            # probabilities.
-            from_node, _ = follow_word_ids(token.history[:-1])
+            # probabilities. The original lattice may have different scores on
+            # the links that the two tokens followed.
+            from_node, from_orig_node = follow_word_ids(token.history[:-1])
+            recomb_orig_end_node, _, recomb_lm_logprob, _ = \
+                _follow_word_from_node(recomb_orig_node, word)
+            orig_end_node, ac_logprob, lm_logprob, transitions = \
+                _follow_word_from_node(from_orig_node, word)
+            if (orig_end_node is None) or (recomb_orig_end_node is None):
+                # This may happen only if the lattice is not determinized.
+                ac_logprob = recomb_link.ac_logprob
+                lm_logprob = recomb_lm_logprob = recomb_link.lm_logprob
+                transitions = recomb_link.transitions
             lm_logprob_diff = token.nn_lm_logprob - nn_lm_logprob
+            lm_logprob_diff += recomb_link.lm_logprob - recomb_lm_logprob
             new_link = self.Link(from_node, recomb_link.end_node, word,
-                                 recomb_link.ac_logprob,
-                                 recomb_link.lm_logprob + lm_logprob_diff,
-                                 recomb_link.transitions)
+                                 ac_logprob,
+                                 lm_logprob + lm_logprob_diff,
+                                 transitions)
             from_node.out_links.append(new_link)
             # Tokens never contain null words, so we can be sure that
             # word_to_link maps in our new lattice never skip nodes.
-- 
2.43.0


From d23e62d30748c58a10824012956f61970c939f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:36 +0000
Subject: [PATCH 27/42] fix: don't merge paths that meet only in the final node
 when rescoring

When tokens were recombined in the final node after null links, as in Kaldi
lattices, the path of the dropped token was merged to the path of the other
token before the end. The rescored lattice contained word sequences that don't
exist in the original lattice, or even cycles. Paths that were dropped after
the end of sentence were missing from the rescored lattice.
---
 theanolm/scoring/rescoredlattice.py | 83 +++++++++++++++++++++++++++--
 1 file changed, 78 insertions(+), 5 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index 1779f2c..38579b3 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -84,6 +84,31 @@ def _follow_null_links_to_final(node):
             return (ac_logprob, lm_logprob, transitions)
     return None
 
+def _meet_before_final(node1, node2):
+    """Checks if two nodes are the same, or null links from the two nodes lead
+    to the same node, before the end of the lattice.
+
+    :type node1: Lattice.Node
+    :param node1: first node
+
+    :type node2: Lattice.Node
+    :param node2: second node
+
+    :rtype: bool
+    :returns: ``True`` if the nodes have words in common that follow
+    """
+
+    def null_closure(node):
+        result = {node}
+        for link in node.out_links:
+            if link.word is None:
+                result |= null_closure(link.end_node)
+        return result
+
+    return (node1 is node2) or \
+           any(node.out_links
+               for node in null_closure(node1) & null_closure(node2))
+
 class RescoredLattice(Lattice):
     """Rescored Lattice
 
@@ -117,6 +142,23 @@ class RescoredLattice(Lattice):
         :returns: the created lattice
         """
 
+        def original_node(word_ids):
+            """Finds the last node of a path in the original lattice.
+
+            :type word_ids: list of ints
+            :param word_ids: IDs of the words to be found on the path
+
+            :rtype: Lattice.Node
+            :returns: the last node of the path in the original lattice
+            """
+
+            node = original_lattice.initial_node
+            for id in word_ids[1:]:
+                word = vocabulary.id_to_word[id] if isinstance(id, int) else id
+                end_node = _follow_word_from_node(node, word)[0]
+                node = node if end_node is None else end_node
+            return node
+
         def follow_word_ids(word_ids, create=True):
             """Follows a path from the initial node with given word IDs.
 
@@ -148,13 +190,21 @@ class RescoredLattice(Lattice):
 
         self._add_word_maps(original_lattice.nodes)
 
-        # Create all the paths that correspond to the final tokens.
-        for token in final_tokens:
-            node, orig_node = follow_word_ids(token.history)
+        def add_final_link(word_ids, nn_lm_logprob):
+            """Ensures that a path to the final node exists.
+
+            :type word_ids: list of ints
+            :param word_ids: IDs of the words on the path
+
+            :type nn_lm_logprob: float
+            :param nn_lm_logprob: NNLM log probability of the entire path
+            """
+
+            node, orig_node = follow_word_ids(word_ids)
             # If the lattice is not determinized, it may happen that we have two
             # tokens with the same word sequence.
             if any(link.end_node.final for link in node.out_links):
-                continue
+                return
             # For the final link we set the NNLM log probability of the entire
             # path. The created lattice is a tree, so we can equivalently set
             # the entire path probability in the final link. The original
@@ -163,11 +213,16 @@ class RescoredLattice(Lattice):
                 _follow_null_links_to_final(orig_node) or (0.0, 0.0, "")
             link = self.Link(node, final_node, word=None,
                              ac_logprob=ac_logprob,
-                             lm_logprob=lm_logprob + token.nn_lm_logprob,
+                             lm_logprob=lm_logprob + nn_lm_logprob,
                              transitions=transitions)
+            link.nn_lm_logprob = nn_lm_logprob
             node.out_links.append(link)
             self.links.append(link)
 
+        # Create all the paths that correspond to the final tokens.
+        for token in final_tokens:
+            add_final_link(token.history, token.nn_lm_logprob)
+
         # Add recombined tokens.
         oov_words = set()
         for token, new_history, nn_lm_logprob in reversed(recomb_tokens):
@@ -179,6 +234,12 @@ class RescoredLattice(Lattice):
                 word = word_id
                 oov_words.add(word)
 
+            # The token may have been dropped after the end of sentence.
+            orig_node = original_node(token.history[:-1])
+            if (word == '</s>') and (word not in orig_node.word_to_link):
+                add_final_link(token.history, token.nn_lm_logprob)
+                continue
+
             # Find the incoming link that corresponds to the token that was kept
             # during recombination.
             try:
@@ -192,6 +253,18 @@ class RescoredLattice(Lattice):
                 continue
             recomb_link = recomb_from_node.word_to_link[word]
 
+            # If the tokens met only in the final node, after null links, they
+            # don't continue with the same words.
+            if not _meet_before_final(original_node(token.history),
+                                      original_node(new_history)):
+                for link in recomb_link.end_node.out_links:
+                    if link.end_node.final:
+                        add_final_link(token.history,
+                                       link.nn_lm_logprob +
+                                       token.nn_lm_logprob - nn_lm_logprob)
+                        break
+                continue
+
             # Add a link from the previous word in the token history to the node
             # that was kept during recombination. The difference in LM log
             # probability can be computed from the token (path) NNLM log
-- 
2.43.0


From 56889c37b2a6ccdf80a987711727552dfc185c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:28 +0000
Subject: [PATCH 28/42] fix: decode without GPU support

log_free_mem() raised AttributeError when Theano has no GPU support, so the
decode command failed on the first lattice.
---
 theanolm/backend/gpu.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/theanolm/backend/gpu.py b/theanolm/backend/gpu.py
index 7cd0728..3ca49ef 100644
--- a/theanolm/backend/gpu.py
+++ b/theanolm/backend/gpu.py
@@ -77,7 +77,14 @@ def log_free_mem():
     """Writes the available GPU memory to the debug log.
     """
 
-    for name in theano.gpuarray.type.list_contexts():
+    try:
+        names = theano.gpuarray.type.list_contexts()
+    except AttributeError:
+        # No GPU support or we couldn't list the contexts because an old version
+        # of libgpuarray is installed.
+        return
+
+    for name in names:
         context = theano.gpuarray.type.get_context(name)
         free_mbytes = context.free_gmem / (1024 * 1024)
         logging.debug("Available memory on GPU %s: %.0f MB", name, free_mbytes)
-- 
2.43.0


From 4ee4b86c4ef3f26ee8426890e60a7d867689a3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:28 +0000
Subject: [PATCH 29/42] fix: write the scales that were used to rescored
 lattices

The LM scale and word insertion penalty of the original lattice were lost when
they were not given on the command line, and a word insertion penalty given on
the command line was not converted to the log base of the written lattice.
---
 theanolm/commands/decode.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/theanolm/commands/decode.py b/theanolm/commands/decode.py
index f8ddd0b..cd19298 100644
--- a/theanolm/commands/decode.py
+++ b/theanolm/commands/decode.py
@@ -247,8 +247,12 @@ def decode(args):
                                                final_tokens,
                                                recomb_tokens,
                                                network.vocabulary)
-            rescored_lattice.lm_scale = args.lm_scale
-            rescored_lattice.wi_penalty = args.wi_penalty
+            rescored_lattice.lm_scale = lattice.lm_scale \
+                                        if args.lm_scale is None \
+                                        else args.lm_scale
+            rescored_lattice.wi_penalty = lattice.wi_penalty \
+                                          if wi_penalty is None \
+                                          else wi_penalty
             if args.output == "slf":
                 rescored_lattice.write_slf(args.output_file)
             else:
-- 
2.43.0


From fee46dd6e927a35ac255e56b7806d8ae7df41a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:28 +0000
Subject: [PATCH 30/42] fix: don't add the lattice list to the argument of
 LatticeBatch

The caller's list (the default value of --lattices) was extended, so another
batch created from it decoded the listed lattices twice.
---
 theanolm/scoring/latticebatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/scoring/latticebatch.py b/theanolm/scoring/latticebatch.py
index 68ea893..64d23c9 100644
--- a/theanolm/scoring/latticebatch.py
+++ b/theanolm/scoring/latticebatch.py
@@ -56,7 +56,7 @@ class LatticeBatch(object):
 
         # Combine paths from command line and lattice list.
         if lattice_list_file is not None:
-            lattices.extend(lattice_list_file.readlines())
+            lattices = lattices + lattice_list_file.readlines()
         lattices = [path.strip() for path in lattices]
         # Ignore empty lines in the lattice list.
         lattices = [x for x in lattices if x]
-- 
2.43.0


From bb8b7605b18065292a5e83334caa5dc4f95be080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:28 +0000
Subject: [PATCH 31/42] fix: accept Kaldi vocabularies with gaps in word IDs

Reading a vocabulary whose IDs are not consecutive failed with IndexError. An
ID that doesn't exist in the vocabulary is an error in the lattice.
---
 theanolm/scoring/kaldilattice.py | 6 ++++++
 theanolm/scoring/latticebatch.py | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/kaldilattice.py b/theanolm/scoring/kaldilattice.py
index 35e1363..721764a 100644
--- a/theanolm/scoring/kaldilattice.py
+++ b/theanolm/scoring/kaldilattice.py
@@ -108,6 +108,12 @@ class KaldiLattice(Lattice):
                 for id in range(len(self.nodes), state_to + 1):
                     self.nodes.append(self.Node(id))
                 link = self._add_link(self.nodes[state_from], self.nodes[state_to])
+                if (kaldi_word_id < 0) or \
+                   (kaldi_word_id >= len(id_to_word)) or \
+                   (id_to_word[kaldi_word_id] is None):
+                    raise InputError("Lattice `{}´ contains word ID {}, which "
+                                     "is not in the vocabulary."
+                                     .format(self.utterance_id, kaldi_word_id))
                 link.word = id_to_word[kaldi_word_id]
                 if link.word == "<eps>":
                     link.word = None
diff --git a/theanolm/scoring/latticebatch.py b/theanolm/scoring/latticebatch.py
index 64d23c9..75eb475 100644
--- a/theanolm/scoring/latticebatch.py
+++ b/theanolm/scoring/latticebatch.py
@@ -43,7 +43,8 @@ class LatticeBatch(object):
         # Read Kaldi word ID mapping.
         if kaldi_vocabulary is not None:
             self.kaldi_word_to_id = read_kaldi_vocabulary(kaldi_vocabulary)
-            self.kaldi_id_to_word = [None] * len(self.kaldi_word_to_id)
+            max_id = max(self.kaldi_word_to_id.values(), default=-1)
+            self.kaldi_id_to_word = [None] * (max_id + 1)
             for word, id in self.kaldi_word_to_id.items():
                 self.kaldi_id_to_word[id] = word
         elif lattice_format == 'kaldi':
-- 
2.43.0


From 0ccffe7a46c7f3e3c00572bfab6368f8ab3dcc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:51 +0000
Subject: [PATCH 32/42] fix: read classes whose membership probabilities are
 all zero

wctool writes zero probabilities for a class whose words don't occur in the
training text, typically the one of <unk>. Reading such a file in srilm-classes
format failed with ZeroDivisionError.
---
 theanolm/vocabulary/wordclass.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/theanolm/vocabulary/wordclass.py b/theanolm/vocabulary/wordclass.py
index fcb69af..0bb480a 100644
--- a/theanolm/vocabulary/wordclass.py
+++ b/theanolm/vocabulary/wordclass.py
@@ -76,9 +76,17 @@ class WordClass(object):
 
     def normalize_probs(self):
         """Normalizes the class membership probabilities to sum to one.
+
+        If all the probabilities are zero (the words don't occur in the data
+        that the probabilities were estimated from), uses equal probabilities.
         """
 
         prob_sum = sum(self._probs.values())
+        if prob_sum == 0:
+            for word_id in self._probs:
+                self._probs[word_id] = 1.0 / len(self._probs)
+            return
+
         for word_id in self._probs:
             self._probs[word_id] /= prob_sum
 
-- 
2.43.0


From 78c9a1941e2ae8fb3eb5b2327c05e819eb69615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:51 +0000
Subject: [PATCH 33/42] fix: evaluate moving a word when some counts are zero

The change of log likelihood was NaN when a class count became or was zero, and
with the Theano optimizer also when a class-class count was zero, so the best
move was not found.
---
 wordclasses/numpybigramoptimizer.py  | 37 ++++++++++++++--------------
 wordclasses/theanobigramoptimizer.py | 17 ++++---------
 2 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/wordclasses/numpybigramoptimizer.py b/wordclasses/numpybigramoptimizer.py
index ea58de4..4db81db 100644
--- a/wordclasses/numpybigramoptimizer.py
+++ b/wordclasses/numpybigramoptimizer.py
@@ -100,14 +100,12 @@ class NumpyBigramOptimizer(BigramOptimizer):
         # old class
         old_count = self._class_counts[old_class_id]
         new_count = old_count - self._word_counts[word_id]
-        result = 2 * old_count * numpy.log(old_count)
-        result -= 2 * new_count * numpy.log(new_count)
+        result = -2 * self._ll_change(old_count, new_count)
 
         # new class
         old_count = self._class_counts[new_class_id]
         new_count = old_count + self._word_counts[word_id]
-        result += 2 * old_count * numpy.log(old_count)
-        result -= 2 * new_count * numpy.log(new_count)
+        result -= 2 * self._ll_change(old_count, new_count)
 
         # Iterate over classes other than the old and new class of the word.
         class_ids = numpy.arange(self.num_classes)
@@ -117,26 +115,26 @@ class NumpyBigramOptimizer(BigramOptimizer):
         # old class, class X
         old_counts = self._cc_counts[old_class_id,iter_class_ids]
         new_counts = old_counts - self._wc_counts[word_id,iter_class_ids]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # new class, class X
         old_counts = self._cc_counts[new_class_id,iter_class_ids]
         new_counts = old_counts + self._wc_counts[word_id,iter_class_ids]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # class X, old class
         old_counts = self._cc_counts[iter_class_ids,old_class_id]
         new_counts = old_counts - self._cw_counts[iter_class_ids,word_id]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # class X, new class
         old_counts = self._cc_counts[iter_class_ids,new_class_id]
         new_counts = old_counts + self._cw_counts[iter_class_ids,word_id]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # old class, new class
         old_count = self._cc_counts[old_class_id,new_class_id]
@@ -173,12 +171,15 @@ class NumpyBigramOptimizer(BigramOptimizer):
         return result
 
     def _ll_change(self, old_count, new_count):
-        result = 0
-        if old_count != 0:
-            result -= old_count * numpy.log(old_count)
-        if new_count != 0:
-            result += new_count * numpy.log(new_count)
-        return result
+        return self._xlogx(new_count) - self._xlogx(old_count)
+
+    @staticmethod
+    def _xlogx(x):
+        """A helper function that computes ``x * log(x)``, where ``x`` is a
+        count or a vector of counts, some of which may be zero.
+        """
+
+        return numpy.log(numpy.maximum(x, 1)) * x
 
     def _move(self, word_id, new_class_id):
         """Moves a word to another class.
diff --git a/wordclasses/theanobigramoptimizer.py b/wordclasses/theanobigramoptimizer.py
index 1854cc1..4321c8c 100644
--- a/wordclasses/theanobigramoptimizer.py
+++ b/wordclasses/theanobigramoptimizer.py
@@ -120,14 +120,12 @@ class TheanoBigramOptimizer(BigramOptimizer):
         # old class
         old_count = old_class_count
         new_count = old_count - word_count
-        result = 2 * old_count * tensor.log(old_count)
-        result -= 2 * new_count * tensor.log(new_count)
+        result = -2 * self._ll_change(old_count, new_count)
 
         # new class
         old_count = new_class_count
         new_count = old_count + word_count
-        result += 2 * old_count * tensor.log(old_count)
-        result -= 2 * new_count * tensor.log(new_count)
+        result -= 2 * self._ll_change(old_count, new_count)
 
         # Iterate over classes other than the old and new class of the word.
         class_ids = tensor.arange(self.num_classes)
@@ -304,18 +302,13 @@ class TheanoBigramOptimizer(BigramOptimizer):
             result,
             name='class_size')
 
-    @staticmethod
-    def _ll_change(old_count, new_count):
+    @classmethod
+    def _ll_change(cls, old_count, new_count):
         """A helper function that computes the log likelihood change when a
         count changes.
         """
 
-        result = 0
-        if old_count != 0:
-            result -= old_count * tensor.log(old_count)
-        if new_count != 0:
-            result += new_count * tensor.log(new_count)
-        return result
+        return cls._xlogx(new_count) - cls._xlogx(old_count)
 
     @staticmethod
     def _xlogx(x):
-- 
2.43.0


From 74474a54a5a540f9315b173f31f9c59c1fced076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:51 +0000
Subject: [PATCH 34/42] fix: don't move words to the classes of special tokens

When a vocabulary file listed <s>, </s>, or <unk> before some other word, words
were moved to its class.
---
 wordclasses/bigramoptimizer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wordclasses/bigramoptimizer.py b/wordclasses/bigramoptimizer.py
index 743dd5f..fd202e5 100644
--- a/wordclasses/bigramoptimizer.py
+++ b/wordclasses/bigramoptimizer.py
@@ -25,6 +25,10 @@ class BigramOptimizer(object):
         self.num_classes = vocabulary.num_classes()
         self.num_normal_classes = vocabulary.num_normal_classes
         self._count_type = count_type
+        # These may precede the normal classes in a vocabulary file.
+        self._special_class_ids = set(
+            vocabulary.word_id_to_class_id[vocabulary.word_to_id[word]]
+            for word in ('<s>', '</s>', '<unk>'))
 
     def move_to_best_class(self, word):
         """Moves a word to the class that minimizes training set log likelihood.
@@ -110,7 +114,8 @@ class BigramOptimizer(object):
 
         old_class_id = self.get_word_class(word_id)
         for class_id in range(self.num_normal_classes):
-            if class_id == old_class_id:
+            if (class_id == old_class_id) or \
+               (class_id in self._special_class_ids):
                 continue
             ll_diff = self._evaluate(word_id, class_id)
             if ll_diff > best_ll_diff:
-- 
2.43.0


From 088184076461cab216f0101d6b4a88cf0f723e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:44 +0000
Subject: [PATCH 35/42] fix: don't divide the cost by zero when no word is
 predicted

---
 theanolm/training/cost.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theanolm/training/cost.py b/theanolm/training/cost.py
index 1e02cc9..97d4162 100644
--- a/theanolm/training/cost.py
+++ b/theanolm/training/cost.py
@@ -84,7 +84,8 @@ class Cost(object, metaclass=ABCMeta):
         # float64 and pulled out from the GPU earlier than necessary.
         logprobs = self._get_logprobs() * tensor.cast(mask, theano.config.floatX)
         num_words = mask.sum()
-        cost = -logprobs.sum() / num_words
+        # A mini-batch may contain only words that are excluded.
+        cost = -logprobs.sum() / tensor.maximum(num_words, 1)
 
         model_params = self._network.get_variables().values()
         l1_weight = self._l1_regularization
-- 
2.43.0


From 858e2661bd96c0d45d2e68826a9964c4d22b7617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:44 +0000
Subject: [PATCH 36/42] fix: update mean squared gradients in RMSProp Nesterov
 optimizer

---
 theanolm/training/rmspropnesterovoptimizer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/theanolm/training/rmspropnesterovoptimizer.py b/theanolm/training/rmspropnesterovoptimizer.py
index 16c3b14..bae5f0c 100644
--- a/theanolm/training/rmspropnesterovoptimizer.py
+++ b/theanolm/training/rmspropnesterovoptimizer.py
@@ -91,7 +91,6 @@ class RMSPropNesterovOptimizer(BasicOptimizer):
             deltas[path] = -gradient / rms_gradient
         self._normalize(deltas)
 
-        result = []
         for path, param_old in self.network.get_variables().items():
             delta = deltas[path]
             velocity_old = self._params[path + '_velocity']
-- 
2.43.0


From c316baf40ddb9994ed35f3c4c8e616799ccab3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:44 +0000
Subject: [PATCH 37/42] fix: scale parameter updates by the file weights

---
 theanolm/training/basicoptimizer.py |  4 ++--
 theanolm/training/cost.py           | 21 ++++++++++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/theanolm/training/basicoptimizer.py b/theanolm/training/basicoptimizer.py
index 6f1af45..15c8c3e 100644
--- a/theanolm/training/basicoptimizer.py
+++ b/theanolm/training/basicoptimizer.py
@@ -108,7 +108,7 @@ class BasicOptimizer(object, metaclass=ABCMeta):
         weights = tensor.matrix('optimizer/weights',
                                 dtype=theano.config.floatX)
         weights.tag.test_value = test_value(size=(100, 16), high=1.0)
-        word_positions = tensor.eq(self.network.mask, 1).nonzero()
+        word_positions = tensor.eq(cost_function.get_mask(), 1).nonzero()
         weight = weights[word_positions].sum()
         num_words_float = tensor.cast(num_words, theano.config.floatX)
         modified_alpha = tensor.switch(tensor.gt(num_words, 0),
@@ -128,7 +128,7 @@ class BasicOptimizer(object, metaclass=ABCMeta):
                     (self.network.is_training, numpy.int8(1)),
                     (self.network.num_noise_samples,
                      numpy.int64(num_noise_samples))],
-            updates=self._get_param_updates(alpha),
+            updates=self._get_param_updates(modified_alpha),
             name='update_function',
             on_unused_input='ignore',
             profile=profile)
diff --git a/theanolm/training/cost.py b/theanolm/training/cost.py
index 97d4162..da0a672 100644
--- a/theanolm/training/cost.py
+++ b/theanolm/training/cost.py
@@ -59,6 +59,23 @@ class Cost(object, metaclass=ABCMeta):
 
         assert False
 
+    def get_mask(self):
+        """Returns a symbolic matrix that masks out the elements that are not
+        included in the cost.
+
+        If ``exclude_id`` is given to the constructor, the words with that ID
+        are masked out in addition to the elements past the sequence ends.
+
+        :rtype: symbolic 2D tensor
+        :returns: a matrix that is one for the target words that are included in
+                  the cost, and zero for the other elements
+        """
+
+        mask = self._network.mask
+        if self._exclude_id is not None:
+            mask *= tensor.neq(self._network.target_word_ids, self._exclude_id)
+        return mask
+
     def get_tensor(self):
         """Returns a symbolic variable that represents the mini-batch cost.
 
@@ -77,9 +94,7 @@ class Cost(object, metaclass=ABCMeta):
                   number of words in the mini-batch
         """
 
-        mask = self._network.mask
-        if self._exclude_id is not None:
-            mask *= tensor.neq(self._network.target_word_ids, self._exclude_id)
+        mask = self.get_mask()
         # The mask has to be cast to floatX, otherwise the result will be
         # float64 and pulled out from the GPU earlier than necessary.
         logprobs = self._get_logprobs() * tensor.cast(mask, theano.config.floatX)
-- 
2.43.0


From 99d52afa694fd970ee42c61be0c8ff04627f16b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:11 +0000
Subject: [PATCH 38/42] fix: sample noise words for each time step
 independently

---
 theanolm/network/samplingoutputlayer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/theanolm/network/samplingoutputlayer.py b/theanolm/network/samplingoutputlayer.py
index 2377280..e9e7ecf 100644
--- a/theanolm/network/samplingoutputlayer.py
+++ b/theanolm/network/samplingoutputlayer.py
@@ -109,12 +109,11 @@ class SamplingOutputLayer(BasicLayer, metaclass=ABCMeta):
 
         num_time_steps = layer_input.shape[0]
         num_samples = self._network.num_noise_samples
-        num_batch_samples = num_time_steps * num_samples
         num_classes = numpy.int64(self._network.vocabulary.num_classes())
 
-        # Sampling k noise words per time step is inefficient with multinomial.
-        sample = noise_distribution.sample(1, num_batch_samples)
-        sample = sample.reshape([num_time_steps, num_samples])
+        # The words of one time step are unique. The same word may be drawn at
+        # different time steps.
+        sample = noise_distribution.sample(num_time_steps, num_samples)
         return sample[:, None, :], \
                self._get_target_seq_preact(layer_input, sample)
 
-- 
2.43.0


From f12605fc75db6257f7310fa97e48f9a6096da476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:01 +0000
Subject: [PATCH 39/42] fix: don't divide by zero noise probabilities in
 BlackOut cost

---
 theanolm/training/cost.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/theanolm/training/cost.py b/theanolm/training/cost.py
index da0a672..3e31299 100644
--- a/theanolm/training/cost.py
+++ b/theanolm/training/cost.py
@@ -249,8 +249,11 @@ class BlackoutCost(Cost):
         noise_distribution = self._network.noise_distribution
         # If a single value is retured, it will be broadcasted to the mini-batch
         # shape.
+        # The prior probability of a target class may be zero (also that of the
+        # <unk> class, which is used as padding).
         target_prior_probs = noise_distribution.probs(target_class_ids)
-        target_weighted_probs = target_probs / target_prior_probs
+        target_weighted_probs = \
+            target_probs / (target_prior_probs + self._epsilon)
 
         sample, sample_logprobs = self._network.noise_sample()
         # sample_prior_probs will be a one-dimensional array (or a scalar in
@@ -258,7 +261,8 @@ class BlackoutCost(Cost):
         # sample_logprobs.
         sample_probs = tensor.exp(sample_logprobs)
         sample_prior_probs = noise_distribution.probs(sample)
-        sample_weighted_probs = sample_probs / sample_prior_probs
+        sample_weighted_probs = \
+            sample_probs / (sample_prior_probs + self._epsilon)
 
         denominators = target_weighted_probs + \
                        sample_weighted_probs.sum(2)
-- 
2.43.0


From a7ba1ff6060d6f8b21bfdffbafb545565db2def5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:05 +0000
Subject: [PATCH 40/42] fix: raise InputError for an unsupported activation
 function

---
 theanolm/network/basiclayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/network/basiclayer.py b/theanolm/network/basiclayer.py
index 0ebabcb..460010c 100644
--- a/theanolm/network/basiclayer.py
+++ b/theanolm/network/basiclayer.py
@@ -8,7 +8,7 @@ import logging
 
 import theano.tensor as tensor
 
-from theanolm.backend import Parameters, conv1d
+from theanolm.backend import InputError, Parameters, conv1d
 from theanolm.network.weightfunctions import random_matrix, matrix_from_value
 
 class BasicLayer(object, metaclass=ABCMeta):
-- 
2.43.0


From b5c3e3e6da43134373068e47d25ae597804f4658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:05 +0000
Subject: [PATCH 41/42] fix: exclude <unk> also when the output layer is a
 hierarchical softmax

---
 theanolm/network/hsoftmaxlayer.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/theanolm/network/hsoftmaxlayer.py b/theanolm/network/hsoftmaxlayer.py
index a819185..73d9e42 100644
--- a/theanolm/network/hsoftmaxlayer.py
+++ b/theanolm/network/hsoftmaxlayer.py
@@ -53,6 +53,10 @@ class HSoftmaxLayer(BasicLayer):
                           scale=0.01)
         self._init_bias('level1/b', (level1_size, level2_size))
 
+        vocabulary = self._network.vocabulary
+        self._unk_id = vocabulary.word_to_id['<unk>']
+        self._unk_class_id = vocabulary.word_id_to_class_id[self._unk_id]
+
         self.output = None
         self.output_probs = None
         self.target_probs = None
@@ -84,11 +88,27 @@ class HSoftmaxLayer(BasicLayer):
 
         # The two levels may have room for more classes than there are in the
         # vocabulary. Those should not get any of the probability mass.
+        float_type = numpy.dtype(theano.config.floatX).type
+        log_zero = float_type('-inf')
         num_extra = self._level1_size * self._level2_size - self.output_size
         if num_extra > 0:
-            float_type = numpy.dtype(theano.config.floatX).type
             level1_bias = tensor.set_subtensor(level1_bias[-1, -num_extra:],
-                                               float_type('-inf'))
+                                               log_zero)
+
+        # If <unk> is excluded, set its activation to -inf before normalization.
+        # When <unk> is alone in its level 1 class, the entire class has to be
+        # excluded.
+        # NOTE: We're checking the class ID so this will fail if there are other
+        # words in the same class with <unk> word!
+        if self._network.exclude_unk:
+            row, column = divmod(self._unk_class_id, self._level2_size)
+            row_size = min(self._level2_size,
+                           self.output_size - row * self._level2_size)
+            if row_size > 1:
+                level1_bias = tensor.set_subtensor(level1_bias[row, column],
+                                                   log_zero)
+            else:
+                input_bias = tensor.set_subtensor(input_bias[row], log_zero)
 
         # First create the output for the whole probability distribution.
         # Combine the first two dimensions so that softmax is taken
-- 
2.43.0


From 893d6c9391ea0da6aec883dd691a99b4d643e30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:38 +0000
Subject: [PATCH 42/42] fix: write Adam optimizer state over an earlier state

The time step is a scalar dataset, which cannot be indexed with a slice. Training
without validation data failed when the state was saved for the second time.
---
 theanolm/backend/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/backend/parameters.py b/theanolm/backend/parameters.py
index c824bf1..4d67836 100644
--- a/theanolm/backend/parameters.py
+++ b/theanolm/backend/parameters.py
@@ -86,7 +86,7 @@ class Parameters:
 
         for path, param in self._vars.items():
             if path in state:
-                state[path][:] = param.get_value()
+                state[path][...] = param.get_value()
             else:
                 state.create_dataset(path, data=param.get_value())
 
-- 
2.43.0

