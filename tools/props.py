"""The properties (source of properties.jsonl and MANIFEST.json)."""
DM = 'babylondigger/datamodel.py'
FE = 'babylondigger/features/'
LEM = 'babylondigger/lemmas/transformation_rules.py'
EV = 'babylondigger/evaluation/'
IO = EV + 'conllu_io.py'


def P(id, title, statement, over, qtext, why, files, mech, note, observe=None):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe or [], 'hook_needed': None},
            'note': note}


NN = 'babylondigger/neural/'
SYM_NOTE = ('Exhaustive TLC check of the specification within the stated constants; the code is bound by recording real trainings (TLC-generated and random) '
            'over a symbolic stand-in for TensorFlow and judging the traces with TLC.')
NN_NOTE = ('Exhaustive TLC check of the specification within the stated constants (configurations, reach, life cycles); the code is bound by running it on the installed TensorFlow '
           'through a compatibility shim (legacy layers; a dilated convolution written as an equivalent plain one because the CPU has no gradient for it), '
           'with networks of a few hundred parameters on generated and random configurations, and judging the recorded numbers with TLC within stated tolerances.')
TRACE_NOTE = ('Exhaustive TLC check of the specification within the stated constants; the code is bound by replaying the specification\'s '
              'bounded scenario sets and seeded random scenarios into it and letting TLC judge every recorded observation. '
              'Assumes the Python projection of observed values is faithful; says nothing about inputs outside the generated scenarios.')

PROPS = [
    P('C01', 'A document accepts exactly well-formed token and sentence sets',
      'A document can be built from a set of tokens and sentences if and only if no two tokens share text (unless they are different words of the same multiword token), every multiword token has all of its words numbered from zero, and the sentences cover every token exactly once; anything else is rejected with a ValueError, and malformed single tokens or sentence spans are rejected at their own construction. '
      'An accepted document contains every given token exactly once in text order and the sentences in order, whatever order the caller supplied them in; without explicit sentences all tokens form one sentence.',
      ['inputs', 'programs'], 'All token lists and sentence lists, in every order, including multiword tokens, empty lists, gaps, overlaps and out-of-range sentence spans.',
      'The tests try about a dozen hand-picked token lists; the neighbour-scan algorithm must agree with the pairwise definition for every list and order.',
      [DM], [('neighbour scans over sorted tokens', 'datamodel.py: _WordList.__init__, _check_for_sequence, _skipped_token'), ('sentence cover checks', 'datamodel.py: Document.__init__')],
      TRACE_NOTE),
    P('C02', 'Document-relative and sentence-relative heads always agree',
      'In every document, each token with a syntactic head shows the same head through the document view and the sentence view (a root is a root in both, otherwise the document index equals the sentence start plus the sentence index), whichever of the two views the caller supplied. '
      'Supplied views are kept, contradicting views and heads that lie before the sentence are rejected with a ValueError, and tokens without a head stay without one.',
      ['inputs'], 'All tokens, sentence splits and ways of giving heads (either view, both, none, root, in or out of the sentence).',
      'Tests use one document with all heads given the same way; the conversion must hold for every split and every mixture.',
      [DM], [('head completion', 'datamodel.py: Token.fill_heads, _WordList.__fill_token_heads'), ('view accessors', 'datamodel.py: NavigableToken.head_index')], TRACE_NOTE),
    P('C03', 'Syntax validation accepts exactly headless or tree-shaped sentences',
      'Building a document with syntax validation succeeds exactly when every sentence either has no heads at all or forms a tree: every word has a head inside the sentence, exactly one word is the root and every word reaches it. '
      'Every other sentence (partial heads, several roots, no root, loops, heads outside the sentence) is rejected with a ValueError, for sentences of any size.',
      ['inputs'], 'All head assignments over all sentence splits.',
      'Tests contain a handful of loops and multi-root examples; the visited-marking walk must be right for every functional graph.',
      [DM], [('marking walk', 'datamodel.py: Document.__validate_syntax')], TRACE_NOTE),
    P('C04', 'Values never change once constructed',
      'Part-of-speech values, token extras, tokens and documents are immutable: no later operation by the caller, on the dictionaries and lists it passed in, on anything an accessor returned, or through derivations and re-annotation, changes what an existing value reports.',
      ['histories'], 'All interleavings of construction, derivation, reading and mutation of caller-owned containers.',
      'Aliasing shows only in specific multi-step histories (construct, mutate, re-read); tests check single calls.',
      [DM], [('defensive copies', 'datamodel.py: Pos, TokenExtras, Document.__init__')], TRACE_NOTE),
    P('C05', 'Deriving a token changes only what it names',
      'Deriving a token with new morphology, new syntax, new extras or updated extras yields a token that has exactly the given values for the named part and the original values for everything else: span, multiword text and index, text access, and the other annotations. '
      'Constructors and accessors report exactly the values given, and updating extras keeps all keys that were not updated.',
      ['histories', 'inputs'], 'All chains of derivations over plain, multiword and document-bound tokens.',
      'Tests cover one derivation of each kind from a bare token; a dropped field shows only when that field was set and a specific chain is used.',
      [DM], [('copying class methods', 'datamodel.py: Token.with_morphology/with_syntax/with_extras/update_extras, DocumentToken overrides, TokenExtras.update')], TRACE_NOTE),
    P('C06', 'Navigation and text views are consistent with the document',
      'Through a document or any of its sentences, the token at each index (negative ones counting from the end), its neighbours, first/last flags, head, surface text, covered text and space-after flag, and likewise each sentence, its text and neighbours, are exactly those determined by the document text, token spans and sentence boundaries. '
      'Out-of-range indices fail with IndexError, and there is no neighbour beyond either end and no head for roots and headless tokens.',
      ['inputs'], 'All documents (white space of any kind, multiword tokens, partial syntax) and all indices.',
      'Tests look at a few tokens of one ASCII document; boundary indices, sentence-local views and unusual white space are not reached.',
      [DM], [('navigation', 'datamodel.py: _NavigableItem, NavigableToken, NavigableSentence'), ('text views', 'datamodel.py: DocumentToken.text/doc_text/space_after')], TRACE_NOTE),
    P('C07', 'Re-annotation keeps text and segmentation or is refused',
      'Creating a document from an existing one with new tokens succeeds exactly when the new tokens, in any order, have the same spans as the old ones one for one (and form a valid document); the result then has the same text and sentence boundaries and carries the new annotations. '
      'Otherwise a ValueError is raised; the original document is never affected.',
      ['inputs'], 'All documents and replacement token lists, including permuted, missing, extra, shifted and re-split tokens.',
      'Tests use one accepted and one rejected list.',
      [DM], [('coincidence check', 'datamodel.py: Document.from_document')], TRACE_NOTE),
    P('C08', 'Equality, hashing and ordering follow content',
      'Two part-of-speech values, token extras, tokens, sentence spans or documents are equal exactly when their content is the same (a token head counts by its document position when known, otherwise by its sentence position), equality is symmetric and never fails against other types. '
      'Equal part-of-speech values hash equally, and part-of-speech values, including those with missing tags, are totally ordered consistently with equality.',
      ['inputs'], 'All pairs and triples of values.',
      'Tests compare a few values for equality; laws over pairs and triples need a quantifier.',
      [DM], [('comparison methods', 'datamodel.py: __eq__, __lt__, __hash__ of Pos, TokenExtras, Token, Sentence, Document')], TRACE_NOTE),
    P('C09', 'Reading CoNLL-U reproduces the file',
      'Reading a well-formed CoNLL-U file or string yields documents whose text is the surface forms joined by one space except where the token is marked SpaceAfter=No, whose words are exactly the word lines in order with their spans, lemma, tags, features, head and relation as written ("_" meaning absent, except as a form), whose multiword tokens carry all their words over the range token\'s surface form, and whose sentence boundaries are those of the file. '
      'Comments and empty nodes contribute nothing wherever they stand, and the result is the same from a file and from a string, with LF or CRLF line ends.',
      ['inputs'], 'All sequences of comment, word, range, empty-node and blank lines, all column contents (including unusual Unicode characters).',
      'Tests read one short sample; the interplay of multiword ranges, empty nodes, comments, missing values and sentence ends has unboundedly many combinations.',
      [IO], [('reader states', 'conllu_io.py: _ReaderState, _MultiWordReaderState'), ('line parser', 'conllu_io.py: _line_parser, _parse_to_dict, _parse_space_after')], TRACE_NOTE),
    P('C10', 'Document chunking and column selection do not change what is read',
      'For every sentence limit the reader yields the sentences of the file in order, every document but the last holding exactly the limit and the last one at most that many and at least one, and every sentence reads the same (words, annotations, sentence-relative heads, surface text) whatever the limit. '
      'For every choice of columns the selected annotations read as in the file and the others are absent; choosing the relation column also gives the heads.',
      ['inputs'], 'All files, all limits from 1 up, all sets of columns.',
      'Tests use limits of one size on one file; state carried over a chunk boundary is visible only when a particular sentence falls on it.',
      [IO], [('chunking loop', 'conllu_io.py: CoNLLUReader._read'), ('column extractors', 'conllu_io.py: _line_parser')], TRACE_NOTE),
    P('C11', 'Malformed CoNLL-U is refused, not misread',
      'Reading fails with an exception, instead of yielding a document, exactly when the file contains an unfinished multiword token, an empty sentence, a head column that is not a number, a sentence whose heads do not form a tree, or words without a final sentence end; documents before the offending one are still delivered.',
      ['inputs'], 'All line sequences up to the bound, well-formed or not.',
      'Tests contain no malformed file.',
      [IO, DM], [('reader states', 'conllu_io.py: _MultiWordReaderState.end_of_sentence'), ('document validation', 'datamodel.py: Document.__init__')], TRACE_NOTE),
    P('C12', 'Writing CoNLL-U renders the document exactly',
      'The writer emits, for every sentence of every document given, in order, one line of ten columns per word numbered from 1 in each sentence, preceded by a range line carrying the surface form for each multiword token, and one blank line after the sentence. '
      'Each line carries the form, the selected annotations ("_" where absent or not selected, features sorted by name ignoring case, heads numbered from 1 with 0 for the root) and SpaceAfter=No exactly when the text continues without white space (on the range line for multiword tokens); words without head get the preceding word as stand-in head and no relation. Selecting the relation column selects heads too.',
      ['inputs'], 'All documents, column choices and numbers of documents per call.',
      'Tests compare one file; sentence-final multiword tokens, feature order, column subsets and non-ASCII white space are not reached.',
      [IO], [('writer states', 'conllu_io.py: _RegularTokenWriterState, _MultiwordTokenWriterState'), ('column rendering', 'conllu_io.py: to_conll, _column_extractors')], TRACE_NOTE),
    P('C13', 'Writing and reading back loses nothing',
      'Reading a well-formed file, writing the documents with the same columns and reading the result gives the documents of the original file: same text apart from trailing white space, words, multiword tokens, sentences, lemmas, tags, features and, where the file has heads, heads and relations; writing once more gives the identical text. File and string output agree.',
      ['inputs', 'histories'], 'All files, chunk limits and column sets used on both sides.',
      'Tests round-trip one file; losses show only for specific annotations in specific positions.',
      [IO], [('reader and writer', 'conllu_io.py')], TRACE_NOTE),
    P('C14', 'A pass over a data set yields every document once, in a reproducible order',
      'Every pass over a shuffled data set yields exactly the items of its source, each once, and moves items only within consecutive windows of the given maximal batch size. '
      'The order depends on nothing but the source, the seed, the window size and the number of the pass: two data sets built alike give the same orders, in the same or another process, however their passes are interleaved with each other or with other uses of random numbers. A file data set can be iterated any number of times, also concurrently, and each pass yields all documents of the file in order.',
      ['inputs', 'schedules', 'histories'], 'All sources, seeds, window sizes, numbers of passes and interleavings of concurrent passes.',
      'Tests compare one or two passes of one data set; sharing of random state shows only in interleaved or repeated passes.',
      [EV + 'dataset.py'], [('windowed shuffling', 'dataset.py: ShuffledDataset'), ('re-iteration', 'dataset.py: CoNLLUDataSet')], TRACE_NOTE),
    P('C15', 'Scores are those of the CoNLL 2017 shared task definition',
      'Comparing a gold and a system treebank over the same characters gives, for tokens, sentences, words, each tag column, all tags, lemmas, unlabelled, labelled, content and (given weights) weighted attachment, exactly the precision, recall, F1 and aligned accuracy of the official definition: words align by equal spans, inside multiword spans by a longest common subsequence of lower-cased forms; relation subtypes are ignored; a head is right when it is the aligned head or both are roots. '
      'A treebank scored against itself is perfect, no ratio leaves 0..1, different underlying characters (white space apart) are refused with an error, and the printed table shows the same numbers.',
      ['inputs'], 'All pairs of segmentations with multiword tokens, annotations, heads and relation weights.',
      'The script\'s own tests count aligned words for some dozen pairs; heads, weights and most segmentation overlaps are not covered.',
      [EV + 'conll17_ud_eval.py'], [('alignment', 'conll17_ud_eval.py: align_words, find_multiword_span, compute_lcs'), ('scores', 'conll17_ud_eval.py: spans_score, alignment_score'), ('weights and table', 'conll17_ud_eval.py: load_deprel_weights, main')], TRACE_NOTE),
    P('C16', 'The scorer loads exactly valid treebanks',
      'Loading a treebank for scoring succeeds exactly when every line has ten columns, forms are not empty, words outside multiword tokens are numbered 1, 2, ..., every head is the number of a word of its sentence or 0, multiword tokens have all their words, every sentence has exactly one root and no cycle, comments stand before sentences only, and the file ends with a blank line. '
      'It then has exactly the sentences, surface tokens and words of the file, empty nodes ignored; otherwise the scorer\'s error (UDError) is raised.',
      ['inputs'], 'All line sequences up to the bound and random larger files with single defects.',
      'No test loads an invalid treebank.',
      [EV + 'conll17_ud_eval.py'], [('line loop and head check', 'conll17_ud_eval.py: load_conllu')], TRACE_NOTE),
    P('C17', 'Taggers are tested blind and scored on what they return',
      'When a tagger is tested on gold data it is given every gold document once, in order, with the gold text, tokens and sentences but without any gold morphology, lemma, head or relation. '
      'The scores returned are exactly those of the documents the tagger returned against the gold data, whether gold data comes from a file or from documents, lazily or eagerly tagged, in first or repeated tests; if a results path is set, exactly the returned documents are saved under the given name.',
      ['inputs', 'programs'], 'All gold files, taggers (perfect, noisy, identity, adding syntax), sources and result paths.',
      'No test runs the tester; leaking a gold annotation is invisible in any single score.',
      [EV + 'evaluation.py', EV + 'conllu_io.py', EV + 'conll17_ud_eval.py'], [('blinding', 'evaluation.py: TaggerTester.test, __prepare_test_data'), ('saving and conversion', 'evaluation.py: _save_and_read, _convert_to_internal')], TRACE_NOTE),
    P('C18', 'Each seed keeps its best epoch, and only superseded models are removed',
      'While a model is trained, every epoch is scored once on the development data, and the seed is represented by the first epoch whose score (the sum of the compared metrics) is highest: that model is the one tested later. '
      'With disposal, a model is removed as soon as it can no longer win and never before: at every moment, also when training or tagging fails there, exactly the best model so far of every seed (and of the best parameter set) is on disk; without disposal no model is ever removed. No other file is touched, and disposal in a non-empty model directory is refused before anything is trained.',
      ['inputs', 'histories', 'crash_points'], 'All score sequences over epochs and seeds, disposal on or off, failures at any epoch.',
      'No test runs an experiment; which models survive depends on the whole score history.',
      [EV + 'evaluation.py'], [('epoch loop', 'evaluation.py: SingleSeedEvaluator.evaluate'), ('comparison', 'evaluation.py: score_comparator, _is_better'), ('disposal', 'evaluation.py: remove_model in __build_estimator')], TRACE_NOTE),
    P('C19', 'An experiment reports the best parameters and the right averages',
      'The evaluation script trains every hyperparameter set, in the given order and with exactly its settings, with every seed on the training data, and picks the first set with the highest score, averaged over seeds. '
      'It then tests exactly the best models of that set on the test data, and reports development and test scores that are the averages over its seeds for every printed metric (whatever metrics are compared). With --delete_after no model and no model directory remains; otherwise all models remain.',
      ['inputs', 'histories', 'configurations'], 'All numbers of parameter sets, seeds (scalar or list) and epochs, score tables, compared and printed metrics.',
      'No test runs an experiment.',
      [EV + 'evaluation.py'], [('search', 'evaluation.py: ParametersEstimator.params_search'), ('averaging', 'evaluation.py: AverageEvaluator, get_metrics_averager'), ('script', 'evaluation.py: main, __build_estimator')], TRACE_NOTE),
    P('C20', 'Grid search tries every combination exactly once and changes nothing else',
      'The grid search script trains, for every combination of one value per grid axis, exactly one parameter set that equals the given hyperparameters with the chosen values in their places, however deeply nested and whether or not values repeat; the combinations do not influence each other. '
      'A grid that names an unknown setting, mixes settings within an axis or uses one setting on two axes, and an occupied model directory, is refused with a ValueError before anything is trained. The best combination is tested and no model remains.',
      ['inputs', 'configurations'], 'All hyperparameter trees and grids.',
      'No test runs a grid search.',
      [EV + 'grid_eval.py'], [('expansion', 'grid_eval.py: main, __build_list_of_new_hyperparams, __merge_dicts'), ('validation', 'grid_eval.py: __check_is_grid_valid, __take_all_key_path')], TRACE_NOTE),
    P('C21', 'Lemma rules restore the lemma, and applicable rules are found exactly',
      'The transformation rule made from a word and its lemma is the shortest suffix change that turns the word into the lemma; rules are equal, hashed and totally ordered by value. '
      'The rule index reports, for any word, each stored rule exactly when it applies: a suffix rule when the word ends with its suffix and is longer, a whole-word rule only for that word, independent of the other rules stored. '
      'In label numbers built from training data, every rule seen more often than the threshold and one most frequent rule (number 0) have a number of their own, words with a kept rule get their own (lower-cased) lemma back, other words count as 0, a predicted rule that does not apply leaves the lower-cased word, and the applicability marks offered to the network mark exactly the applicable kept rules, the word\'s own among them.',
      ['inputs'], 'All words, lemmas, rule sets, training sets and thresholds.',
      'Unit tests look at four words against five rules; wrong answers depend on combinations of suffixes stored together.',
      [LEM, FE + 'extractors.py'], [('rules and index', LEM + ': LemmaSuffixTransformation.get_rule, LemmaTransformationTrie'), ('labels', FE + 'extractors.py: CachedSuffixRulesBuilder, SuffixTransformation*, ApplicableSuffixTransformations')], TRACE_NOTE),
    P('C22', 'Tag labels are lossless for every way of splitting tags',
      'For each splitting (pos_joint, pos_XF, pos_UXF, pos_gran), every part of a tag has a dictionary of label numbers in which 0 is a most frequent value and each training value has exactly one number below the published size; turning the tags of the training data into numbers and back gives the same tags, with absent XPOS or features too. '
      'Any predicted combination of numbers means exactly the combination of those parts, values never seen count as the most frequent one, and nothing but the tag of a token changes.',
      ['inputs'], 'All tag inventories, training sets and predictions.',
      'No test covers labels; a collision or misplaced part only changes some predictions.',
      [FE + 'extractors.py'], [('splitters', FE + 'extractors.py: Pos*Splitter'), ('dictionaries', FE + 'extractors.py: _count_parts, _id2obj, PosDictFeatureExtractor, PosDictInterpreter')], TRACE_NOTE),
    P('C23', 'Lemma labels are lossless up to the configured limits',
      'Dictionary labels give every training lemma its own number and the lemma back. Character labels are START, one number per lemma unit and END, cut or padded to exactly the configured length, with numbers below the published size and the same number for the same unit; units rarer than the configured frequency are unknown. '
      'Reading numbers back gives the units up to END, skipping unknown units, so a lemma of frequent units that fits comes back exactly. Nothing but the lemma changes.',
      ['inputs'], 'All training sets, thresholds, lengths and predictions.',
      'No test covers labels.',
      [FE + 'extractors.py'], [('lemma labels', FE + 'extractors.py: LemmaDict*, LemmaChar*')], TRACE_NOTE),
    P('C24', 'Vocabulary numbers are in range, unambiguous, filtered and reproducible',
      'Each input feature (trained words, pretrained words, characters, byte-pair or Morfessor pieces, pretrained pieces) gives every known unit its own number inside the published number of rows, never one of the reserved numbers, and every other unit the unknown number; known are exactly the units at least as frequent as configured in the training data (after lower-casing if words are looked up lower-cased), or those of the embedding file. '
      'Subword features are START, the pieces of the segmentation in order, END. Each pretrained vector is delivered for the row of its word, padding gets zeros, files with inconsistent vector sizes and unknown segmentations or splittings are refused. All numbers are the same in every process.',
      ['inputs', 'configurations'], 'All training sets, frequencies, embedding files and segmentations.',
      'No test builds a vocabulary; a wrong count or row silently degrades a model.',
      [FE + 'extractors.py'], [('vocabularies', FE + 'extractors.py: TrainableEmbeddingsExtractorBuilder, TokenCharactersFeatureExtractorBuilder, WordEmbedding*, Subword*'), ('vectors', FE + 'extractors.py: _read_embeddings, EmbeddingInitializer')], TRACE_NOTE),
    P('C25', 'Batches are rectangular, complete and aligned with their words',
      'A batch of features is padded with zeros to one rectangular block in which every given value keeps its place, at any depth of nesting; features that mix numbers and lists are refused. Merging features of several builders gives exactly the features and shapes of each of them, and equal names are refused. '
      'Random hiding of inputs replaces values by the unknown number only, keeps the shape, changes nothing at rate 0 or when no rate is given, and hides everything at rate 1, for every kind of word input (trained and pretrained words, characters, pieces). Predictions are given back to exactly the words they were made for, by every interpreter, whatever padding the batch has.',
      ['inputs', 'programs'], 'All nested features, builder combinations, hiding rates and batches.',
      'No test builds a batch.',
      [FE + 'builder.py'], [('padding', FE + 'builder.py: _pad_sequence'), ('hiding', FE + 'builder.py: _sparse_rate_sequence'), ('composition', FE + 'builder.py: merge, _merge_dicts, Composite*, Iterable*')], TRACE_NOTE),
    P('C26', 'Every epoch trains every sentence once, in batches that fit',
      'Whatever the configured inputs and targets, the network can be built, and every epoch reads the training data anew and trains on every sentence exactly once, in the order of that pass, in batches of the configured size (only the last one smaller). '
      'What a batch feeds to the network, inputs and expected outputs alike, are exactly the numbers of its sentences, padded to one block; random hiding replaces word inputs only and never the padding; the configured dropout is on. The model is saved only after a whole epoch.',
      ['inputs', 'histories', 'configurations'], 'All training data, batch sizes, inputs, targets and hiding rates.',
      'No test trains a tagger; a dropped last batch or labels that belong to another sentence only lower a score.',
      [NN + 'tagger/neural_tagger.py', NN + 'model.py'], [('epoch and batches', 'neural_tagger.py: NeuralTaggerTrainer, features_generator, batch_generator, to_mini_batches'), ('one training step', 'model.py: Model.train')], SYM_NOTE),
    P('C27', 'The learning rate follows its schedule and every epoch is saved and scored',
      'Epochs 1..n are trained with the configured rate divided cumulatively by 1 + decay x epoch; it is further divided by the decrease factor (2 unless configured) exactly after those epochs whose development score neither exceeds the last score nor the mean of the last five. '
      'After every epoch the model is saved under its own name with the weights of that epoch, the tagger made from it is scored on the development data, and that tagger and these scores are handed to the caller before the next epoch begins. The given seed reaches the network, which is initialised once, before training; the session is closed at the end, after a failure and when the caller stops early.',
      ['inputs', 'histories', 'crash_points'], 'All score histories, rates, decays, factors, numbers of epochs, and failures or abandonment at any epoch.',
      'No test trains a tagger; the schedule depends on the whole score history.',
      [NN + 'tagger/neural_tagger.py', NN + 'model.py', NN + 'network.py'], [('schedule', 'neural_tagger.py: NeuralTaggerTrainer.train, LrUpdater'), ('saving', 'model.py: Model.save')], SYM_NOTE),
    P('C28', 'A saved tagger gives every word what its own model predicts for it',
      'A tagger handed out after an epoch, and one loaded from its directory in another process, gives every word of every sentence what the model saved in that epoch predicts for that sentence, whatever has been trained, tagged or loaded in between; dropout and hiding are off. '
      'Text, tokens, sentences and annotations it was not trained for stay as they were. Documents are tagged one at a time as they are asked for, and sessions are closed when the tagger is left. Testing pretrained taggers loads every model directory once and reports the score of that model.',
      ['inputs', 'histories', 'programs'], 'All documents, targets, epochs and orders of training, tagging and loading.',
      'No test trains or loads a tagger; using another epoch\'s weights or another sentence\'s predictions only lowers a score.',
      [NN + 'tagger/neural_tagger.py', NN + 'model.py'], [('tagging', 'neural_tagger.py: NeuralTagger, LazyNeuralTagger'), ('persistence', 'neural_tagger.py: PretrainedTaggerTrainer; model.py: Model.load')], SYM_NOTE),
    P('C29', 'A pipeline is the composition of its processors and manages them all',
      'Running a pipeline on documents gives what its processors give when applied one after the other, in order, for any number of processors and nested pipelines, document by document: no document is read before it is needed for the next result. '
      'Entering a pipeline enters each of its processors exactly once and leaving it leaves each exactly once, also when processing fails or when entering a later processor fails; failures reach the caller.',
      ['inputs', 'crash_points', 'programs'], 'All chains of processors, numbers of documents, demand, and failures at any point.',
      'No test builds a pipeline.',
      ['babylondigger/processor.py', 'babylondigger/tagger.py', 'babylondigger/parser.py'], [('chain and context management', 'processor.py: DocumentComplexProcessor'), ('per document', 'processor.py: DocumentProcessor')], TRACE_NOTE),
    P('C30', 'The UDPipe bridge passes on words and brings back what the model says',
      'Every sentence of a document is sent to the UDPipe model with exactly its words and the annotations they have, and the words get exactly the lemma, tags, features, heads and relations that the model gives to that sentence: head 0 becomes a root and other heads the word of that number in the same sentence. '
      'The configured options are passed on, text, tokens and sentences stay as they were, and documents are processed as they are asked for.',
      ['inputs', 'configurations'], 'All documents, model answers and options.',
      'No test runs the wrapper (there is no model); a wrong head shows only in later sentences or documents.',
      ['babylondigger/wrappers/udpipe1_2.py'], [('conversion', 'udpipe1_2.py')], TRACE_NOTE),
    P('C31', 'Baseline taggers and parsers do exactly their one thing to every word',
      'The stub tagger gives every word the one given tag and its own text as lemma (the trainer chooses a tag most frequent in the training data); the stub parser makes every word depend on the previous word of its sentence, the first being root, with the given relation. They keep the text, tokens, sentences and all other annotations, and produce a document that satisfies all constraints of the data model for any input document, sentence by sentence.',
      ['inputs'], 'All documents.',
      'No test runs a baseline on more than one document.',
      ['babylondigger/tagger.py', 'babylondigger/parser.py'], [('baselines', 'tagger.py, parser.py: Stub*')], TRACE_NOTE),
    P('C32', 'The loss is the documented weighted sum and predictions minimise it',
      'On every batch the training loss is the sum, over the configured tasks, the real words of the batch and the parts of the task (tags, lemma rule, lemma characters), of the part\'s own loss times its configured weight (its own, else the default one; 1 if no weights are given), divided by the number of real words (and of characters for lemma_combo); what stands in the padded places changes nothing. '
      'Every predicted label is one with the lowest loss among the labels of its part, a lemma rule that is not applicable to the word is not predicted while an applicable one exists, and every word of every sentence (also unseen words) gets exactly one in-range label per part. A training step with learning rate 0 changes nothing.',
      ['inputs', 'configurations'], 'All batches, loss weights, task combinations, network parameters (untrained and trained) and words seen or unseen.',
      'No test builds a network; a weight, mask or divisor that is slightly off still trains, only worse.',
      [NN + 'network.py', NN + 'tagger/task_builders.py', NN + 'model.py'], [('losses', 'task_builders.py: add_outputs'), ('batch loss', 'network.py, utils.py')], NN_NOTE),
    P('C33', 'Configurations build exactly the network they describe',
      'A configuration builds a working network exactly if it is a documented one (known builder, tasks, optimizer and output, at least one feature, layers and kernels where they are needed, equal widths for a skip connection by sum); otherwise building it raises an error. '
      'What a word is given depends only on what the configuration lets it see: its own features for word_features, the whole sentence (both directions) for a BiLSTM, and the window of the stacked kernels and dilations for a dilated CNN. The order of the sentences of a batch does not matter, and as far as no convolution or maximum runs over padding neither do the other sentences of the batch.',
      ['configurations', 'inputs'], 'All shared and task configurations, all sentences and batches.',
      'No test builds a network, and a wrong wiring still produces tags for every word.',
      [NN + 'network.py', NN + 'tagger/shared_builders.py', NN + 'utils.py'], [('wiring', 'shared_builders.py'), ('combining', 'network.py: NNBuilder')], NN_NOTE),
    P('C34', 'Models are independent, and a saved model is the model',
      'Whatever models are created, trained, used, saved, loaded and closed in any order, what a model predicts and its parameters are determined by its seed and the training steps it has had: predicting, saving, closing others and work on other models change nothing, and each step and each seed makes a difference. '
      'A loaded model is exactly the one that was saved last at that place, in the same or in another process, also when training goes on (optimizer state apart from plain gradient descent is not claimed). Loading from a place where no model was saved raises an error.',
      ['histories', 'configurations'], 'All sequences of creations, steps, predictions, saves, loads and closes of several models.',
      'No test saves or loads a network; graph, session and file mix-ups need several models and a certain order.',
      [NN + 'model.py', NN + 'network.py'], [('sessions and files', 'model.py: Model')], NN_NOTE),
    P('C35', 'A training step is the configured optimizer step on the clipped gradient',
      'A step moves every trained parameter as the configured optimizer (GD, Adam, RMSProp) says, with the learning rate given for that step, along the gradient of the loss, the gradients being scaled down together to norm 5 when they are larger. '
      'A small enough step lowers the loss as much as the gradient predicts. Dropout is applied in training with the keep rate given, and never in predictions.',
      ['inputs', 'configurations'], 'All batches, parameters, configurations, rates and loss scales.',
      'No test trains a network; a step with the wrong rate, clipping or dropout still learns something.',
      [NN + 'network.py'], [('optimizer, clipping, dropout', 'network.py: NNBuilder')], NN_NOTE),
    P('C36', 'Embeddings hold what they are configured to hold',
      'A network has exactly one embedding table per embedding feature. If vectors come from a file, every vector of the file stands unchanged in the row of its word or subword, and the padding row is zero; all other rows are random within sqrt(3/size). '
      'Training never changes an embedding that is configured not to be trainable, changes one that is trainable, and leaves the rows of units that do not occur in the batch as they are.',
      ['inputs', 'configurations'], 'All embedding files, vocabularies, embedding configurations and batches.',
      'No test reads an embedding file into a network; swapped rows or a frozen flag lost only cost quality.',
      [NN + 'initializers.py', NN + 'tagger/shared_builders.py', NN + 'tagger/task_builders.py', FE + 'extractors.py'], [('embedding tables', 'shared_builders.py, initializers.py, task_builders.py')], NN_NOTE),
    P('C37', 'A trained tagger knows its training data and can be used again',
      'For every sufficient configuration, training the neural tagger on a consistent data set for enough steps yields a tagger that gives the training words their training tags and lemmas; there is one saved tagger per epoch, and a saved tagger, opened later, tags exactly as the tagger of that epoch did. Tagging keeps the texts and tokens.',
      ['inputs', 'configurations'], 'All consistent small training sets, task combinations, shared networks and batch sizes.',
      'No test trains a tagger; any break of the chain from features over labels, batches and loss to decoding ends in a tagger that does not learn.',
      [NN + 'tagger/neural_tagger.py', NN + 'network.py', NN + 'model.py'], [('whole chain', 'neural_tagger.py')], NN_NOTE),
    P('C38', 'Networks compute the layers they are configured with',
      'For all inputs and parameters, the score of every label is what the configured layers compute: embeddings (with the dense layer on given vectors where configured), subword vectors by the configured aggregator (convolutions and maximum, both directions of an LSTM with a dense layer and maximum, average over the real subwords, self-attention) and highway layer, '
      'BiLSTM layers of which each later one adds to what it is given, dilated convolutions over the sentence or convolutions over the numbers of a word, skip connection by sum or concatenation, and dense or character-convolution task layers. Layers have the configured sizes and activations, and the predicted label is the one with the highest score.',
      ['inputs', 'configurations'], 'All configurations, parameters, sentences and batches (padding included).',
      'No test builds a network; a wrong activation, dilation, gate or pooling still trains.',
      [NN + 'utils.py', NN + 'tagger/shared_builders.py', NN + 'tagger/task_builders.py'], [('layers', 'utils.py'), ('wiring', 'shared_builders.py, task_builders.py')],
      'Layers are specified in TLA+ with fixed-point numbers and checked by TLC for algebraic laws; the code is bound by building real networks on the installed TensorFlow, giving them small whole weights '
      '(chosen by shape, so that names and orders are free), reading all scores off the losses and letting TLC compute and compare them (tolerance 0.05 and 0.5 percent). Orders of concatenation are left open.'),
    P('C39', 'A whole experiment reports what its models are worth and can be repeated',
      'Running the evaluation script with method neural on any CoNLL-U train, development and test files and any of the documented configurations, a prediction file is saved for every seed and epoch; it has the words and sentences of the development file, and the table printed for that epoch holds the official scores of that file. '
      'Every saved model, loaded from its directory, gives these predictions again. The table reported for a seed is that of its best epoch by the configured fields, the saved test predictions are those of the best epoch\'s model, the final tables hold the averages over the seeds, annotations that no task was trained for stay empty, and no session is left open. '
      'Running the method neural_pretrained on the models that were left, or the same experiment again (in another process, in another directory, with or without disposal of the models), gives the same tables and the same predictions.',
      ['inputs', 'configurations'], 'All data files, seeds, configurations of features, networks, tasks and training.',
      'No test runs an experiment; numbers that do not belong to the model that is kept, or that cannot be reproduced, look like any others.',
      [EV + 'evaluation.py', NN + 'tagger/neural_tagger.py', NN + 'model.py', FE + 'provider.py'], [('the experiment', 'evaluation.py: main'), ('training and pretrained models', 'neural_tagger.py')],
      'The choice of models is checked exhaustively by TLC in small bounds; the code is bound by running real experiments (networks of a few hundred parameters, 1-2 seeds, 1-3 epochs) on the installed TensorFlow through a compatibility shim and letting TLC compute the official scores of all saved predictions, the best epochs and the averages from the recorded files. '
      'Random replacement of input features (sparse_input_prob above 0), which is not seeded, and byte pair segments, whose models would have to be downloaded, are left out.'),
    P('C40', 'The wrapped external parser gives every word its own predictions',
      'Whatever documents are processed, in whatever batches the external network forms and orders them, and whatever was processed before (by this or another model, successfully or not), the network is given exactly the words and annotations of the sentences, and every word gets the labels, head and extra values that the network (with the parameters saved last) gives to that word. '
      'Texts, tokens, sentences, the order of documents and earlier extras stay. A processor works only inside its context, refuses otherwise, and leaves no session open, also if entering or processing fails; a path to no tensor and a network of the other kind are refused.',
      ['inputs', 'histories', 'failures'], 'All documents, batch compositions and orders, sequences of entering, calls (also failing ones) and leaving, for several models.',
      'No test touches the wrapper, whose package is not installed; a lost permutation or a leftover of an earlier call still gives every word some annotation.',
      ['babylondigger/wrappers/tdozat.py'], [('order and cache', 'tdozat.py: __parse_documents'), ('session', 'tdozat.py: __enter__, __exit__')],
      'The wrapped package is not here: a stand-in with its interface (vocabularies, data set, cache of predictions) computes numbers from the words on a real TensorFlow graph restored from a checkpoint. The state machine of calls, batches and failures is checked exhaustively by TLC in small bounds, its histories are replayed, and random ones recorded and judged.'),
]
NOT_APPLICABLE = {}
