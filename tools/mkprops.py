"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)


p('C01', 'Using a trained object never changes it',
  'Tokenizing, tagging, lemmatizing, extracting scores, looking words up, vectorizing or saving with an already constructed / trained soynlp object leaves that object (and everything it holds, and all package-level state) as it was. '
  'Only operations that announce a change (constructors, train/fit, extract on an extractor, add/remove/set/load/reset/update) may modify an object. '
  'Hence answers do not depend on which queries were made before. (A corpus object may remember its own length once it has been counted.)',
  ['histories', 'inputs'],
  'every history of query calls, with any arguments, on every public class (tokenizers, taggers, dictionaries, LR graph, eojeol counter, lemmatizer, vectorizers, word/noun/pmi/phrase extractors)',
  'The tests make each query once on one object; an aliasing or caching bug shows only on a later call of a longer history.',
  ['soynlp/tokenizer/_tokenizer.py', 'soynlp/postagger/_dictionary.py', 'soynlp/utils/utils.py', 'soynlp/lemmatizer/_lemmatizer.py', 'soynlp/vectorizer/_vectorizer.py', 'soynlp/word/_word.py'],
  [('queries build fresh lists/dicts instead of editing the stored ones', 'tokenize/tag/get_*/word_scores/lemmatize methods'),
   ('getters hand out copies or immutable views', 'Dictionary.get_pos, LRGraph.get_l/get_r')])

p('C02', "The caller's own data is never modified",
  'No soynlp constructor, method or function changes a list, dict, set, LR graph, counter or other object that the caller passed in as data; in particular score tables, dictionaries, vocabularies, sentences and stopword collections come back from every call unchanged. '
  'An object built from such data does not keep it as its own editable state, so later updates of the object do not reach the caller either. (Exempt: an LR graph handed to a noun, ending or stem extractor is its documented working graph; a corpus may remember its own length.)',
  ['inputs', 'histories'],
  'every public constructor, method and function, with every accepted kind of argument, followed by any later operation on the object',
  'The tests never look at an argument after the call; the damage is visible only to a caller who reuses the argument.',
  ['soynlp/utils/utils.py', 'soynlp/postagger/_dictionary.py', 'soynlp/tokenizer/_tokenizer.py', 'soynlp/vectorizer/_vectorizer.py', 'soynlp/predicator/_predicator.py', 'soynlp/noun/_noun_ver2.py'],
  [('constructors copy what they will edit', 'Dictionary.__init__, LRGraph.__init__, MaxLRScoreTokenizer.__init__'),
   ('results are collected in fresh containers', 'noun/predicator post-processing')])

p('C03', 'Nothing is printed unless the caller asked for output',
  'With verbose / debug options off (and for calls that have no such option) soynlp writes nothing to standard output or standard error, whatever the input; the only exceptions are messages that report a caught error or a newly created directory. (A component loaded from a file or handed in by the caller keeps its own verbosity.)',
  ['inputs', 'configurations'],
  'every public call in every configuration with verbose=False and debug=False',
  'The tests do not capture output, and run most extractors with the default (verbose) setting on one small corpus.',
  ['soynlp/noun/_noun_ver2.py', 'soynlp/noun/_noun_ver1.py', 'soynlp/predicator/_predicator.py', 'soynlp/word/_word.py', 'soynlp/word/_pmi.py', 'soynlp/utils/utils.py', 'soynlp/vectorizer/_vectorizer.py'],
  [('every progress print is guarded by self.verbose or a verbose parameter', 'all extractors'),
   ('verbose is handed on to the components an extractor creates', 'noun, predicator, pos extractors')])

p('C04', 'Text files are always read and written as UTF-8',
  'Every text file soynlp reads or writes (corpora, dictionaries, models, counters, LR graphs, vocabularies) is opened as UTF-8 explicitly, independent of the locale of the process.',
  ['configurations', 'inputs'],
  'every file access reachable from any public call, under every locale',
  'The test process has a UTF-8 locale, under which a forgotten encoding is invisible.',
  ['soynlp/utils/utils.py', 'soynlp/word/_word.py', 'soynlp/postagger/_dictionary.py', 'soynlp/noun/_noun_ver1.py', 'soynlp/noun/_noun_ver2.py', 'soynlp/lemmatizer/_lemmatizer.py', 'soynlp/vectorizer/_vectorizer.py'],
  [("open(..., encoding='utf-8')", 'every open call')])

p('C05', 'Every file soynlp opens is closed again on every path',
  'Every file that a public call opens is closed by the time the call returns or raises, or, for a corpus iterator, by the time the iteration ends or is abandoned.',
  ['inputs', 'fault_sequences'],
  'every path, normal or exceptional, through every public call that opens a file',
  'A leaked handle changes no result of a short test run; it is lost data (unflushed writes) or exhausted descriptors in a long-running process.',
  ['soynlp/utils/utils.py', 'soynlp/word/_word.py', 'soynlp/noun/_noun_ver1.py', 'soynlp/noun/_noun_news.py', 'soynlp/vectorizer/_vectorizer.py'],
  [('with-statements around open', 'load/save functions'), ('try/finally close', 'predictor loaders')])

p('C06', 'Default models and dictionaries are found wherever the package is installed',
  'Every bundled dictionary, predictor or model that soynlp loads when the caller names none exists in the package, is located from the position of the package itself (never from the working directory), and has the format its reader expects.',
  ['configurations'],
  'every constructor and function with any of its path parameters left at the default, from any working directory',
  'The tests run from one working directory and construct only some of the classes.',
  ['soynlp/noun/_noun_ver1.py', 'soynlp/noun/_noun_ver2.py', 'soynlp/noun/_noun_news.py', 'soynlp/pos/_news_pos.py', 'soynlp/lemmatizer/_lemmatizer.py', 'soynlp/postagger/_dictionary.py'],
  [('paths built from installpath / __file__', 'loaders'), ('bundled data files', 'soynlp/**/*.txt')])

p('C07', 'Public calls never fail on a missing name, attribute or argument mismatch',
  'No public call with arguments of the documented kinds ends in an error that comes from the code itself: an undefined name, a missing attribute or module member, a call with the wrong number or names of arguments, a wrong-shape unpacking, an operation on operands whose types can never support it, or a name listed for export that does not exist.',
  ['inputs', 'configurations'],
  'every path through every public constructor, method and function and every combination of option values',
  'Python finds these errors only when the line runs, and the tests run a fraction of the lines with one option setting.',
  ['soynlp/**/*.py'],
  [('definitions, imports and signatures agree with their uses', 'whole package')])

p('C08', 'Every option a caller sets reaches the computation it is named for',
  'Every parameter of a public constructor, method or function influences what the call does: it is used in a computation, stored and later used, or handed on under the same meaning to the component that implements it. '
  'A parameter handed to another soynlp component with a parameter of the same name arrives there, unswapped with others and not replaced by a constant. (Exempt: methods whose body is only a refusal or a stub.)',
  ['configurations'],
  'every option of every public call, at every value',
  'The tests use the default options almost everywhere, so an option that is dropped or swapped on the way changes no tested result.',
  ['soynlp/noun/_noun_ver2.py', 'soynlp/noun/_noun_ver1.py', 'soynlp/predicator/_predicator.py', 'soynlp/word/_word.py', 'soynlp/utils/utils.py', 'soynlp/vectorizer/_vectorizer.py', 'soynlp/pos/_news_pos.py'],
  [('constructor stores options in attributes that methods read', 'all classes'), ('extract/train pass options on', 'extractors')])

p('C09', 'Frequencies and scores are never mistaken for one another',
  'Wherever soynlp returns or exchanges a pair of a frequency and a score (extracted nouns, eomis, stems, predicator candidates, namedtuples of scores) each position has one fixed meaning: frequencies are counts of occurrences and scores are scores, at every producer and every consumer. '
  'No threshold on a frequency is ever compared with a score or the reverse.',
  ['inputs'],
  'every producer and consumer of such pairs reachable from a public extractor, on all paths',
  'Both are numbers, so a swapped pair still runs; the tests print results without checking which number is which.',
  ['soynlp/noun/_noun_ver1.py', 'soynlp/noun/_noun_ver2.py', 'soynlp/noun/_josa.py', 'soynlp/predicator/_eomi.py', 'soynlp/predicator/_stem.py', 'soynlp/predicator/_predicator.py', 'soynlp/word/_word.py'],
  [('NounScore(frequency, score), EomiScore(frequency, score), Predicator(frequency, lemma) conventions', 'extractors')])

p('C10', 'Results do not depend on hash seed, time or random numbers',
  'Tokenizers, taggers, lemmatizer, normalizers, conjugation, LR graph and counter queries, and vectorizers give the same output for the same construction and input in every process, and extractors return the same results, saved files and logs for the same corpus: no random number, clock, object identity or set iteration order influences a result or its order. (Exempt: reported memory figures, and the explicit random_state handed to the SVD.)',
  ['configurations', 'histories'],
  'every public query call of the listed components, under every PYTHONHASHSEED',
  'One test run has one hash seed; the dependence shows only between processes.',
  ['soynlp/tokenizer/_tokenizer.py', 'soynlp/tokenizer/_noun_tokenizer.py', 'soynlp/postagger/_template.py', 'soynlp/lemmatizer/_lemmatizer.py', 'soynlp/lemmatizer/_conjugation.py', 'soynlp/vectorizer/_vectorizer.py', 'soynlp/vectorizer/_word_context.py', 'soynlp/utils/utils.py'],
  [('lists and dicts, or sorting, wherever order reaches a result', 'query methods')])

p('C11', 'Calling a tokenizer is the same as calling its tokenize method',
  'For every tokenizer (and every other class that offers both a call and a named main operation) calling the object with some arguments gives exactly what the named operation gives with the same arguments, including for every option left at its default.',
  ['inputs', 'configurations'],
  'every tokenizer class, every input, every subset of options given',
  'The tests use one of the two spellings per class with default options.',
  ['soynlp/tokenizer/_tokenizer.py', 'soynlp/tokenizer/_noun_tokenizer.py'],
  [('__call__ delegates to tokenize with the same parameters and defaults', 'tokenizer classes')])

p('C12', 'Resetting an LR graph restores exactly the graph as it was built',
  'Whatever pairs and eojeols have been added or removed, resetting an LR graph brings back exactly the counts it was constructed or loaded with, any number of times, and the copy of the original graph, the saved file and the original-state counter all describe that same built graph. '
  'No operation but construction, load and the documented freeze changes that remembered original.',
  ['histories'],
  'every sequence of add, remove, reset, copy, save, load and extraction calls on an LR graph',
  'The tests never reset a graph; aliasing between working and remembered graph needs a particular sequence of calls.',
  ['soynlp/utils/utils.py', 'soynlp/noun/_noun_ver2.py', 'soynlp/predicator/_predicator.py'],
  [('working dictionaries are rebuilt from a deep copy of the original', 'LRGraph.reset_lrgraph, __init__, load')])

p('C13', 'The left-to-right and right-to-left views of an LR graph always agree',
  'After any sequence of operations an LR graph counts r after l exactly as often as it counts l before r, for every l and every non-empty r: every addition and removal is applied to both directions with the same amount under the same conditions.',
  ['histories'],
  'every sequence of construction, add, remove, reset, copy and load operations, all pairs l, r, all counts',
  'The tests only look up one direction after construction.',
  ['soynlp/utils/utils.py'],
  [('paired updates of _lr[l][r] and _rl[r][l]', 'LRGraph methods')])

p('C14', 'What is saved is what is loaded back',
  'Saving an LR graph, an eojeol counter, a dictionary, a word extractor model or a vectorizer vocabulary and loading the file gives back the same content: every field is written and parsed in the same order, with the same separators, header lines and numeric types, and no field or record is skipped on either side.',
  ['inputs', 'histories'],
  'every saved state whose words contain no separator of the format',
  'No test saves and loads anything.',
  ['soynlp/utils/utils.py', 'soynlp/word/_word.py', 'soynlp/vectorizer/_vectorizer.py', 'soynlp/postagger/_dictionary.py'],
  [('save and load of one class use one line format', 'save/load pairs')])

p('C15', 'Hangul composition and decomposition are exact inverses',
  'Decomposing any precomposed Hangul syllable and composing the parts gives the syllable back, composing any valid (initial, vowel, final) triple and decomposing gives the triple back, and single jamo decompose to themselves; text transformed to jamo positions and back with the sentence functions is unchanged. '
  'The classification functions (is Korean, is jaum, is moum, ...) answer true exactly on their Unicode ranges.',
  ['inputs'],
  'all 11172 syllables, all 19*21*28 triples, all characters',
  'The tests try a handful of syllables of an 11172-element (and full-Unicode) domain.',
  ['soynlp/hangle/_hangle.py'],
  [('mixed radix arithmetic base + 588*cho + 28*jung + jong', 'compose, decompose'), ('range constants', 'character_is_*')])

p('C16', 'Normalizers output only the kind of text they promise',
  'The text filters keep exactly the characters they are named for: only_hangle keeps Hangul (syllables and single jamo) only, only_hangle_number Hangul and digits, only_text Hangul, digits, Latin letters and the signs , . ? ! " \' ( ) [ ] { }, and normalize Hangul and quotes plus whatever kinds its options allow; every other character becomes a space, runs of whitespace collapse to one space and none is left at the ends. '
  'Asked for n > 0 repeats, repeat_normalize (and normalize with remove_repeat) cuts every run of three or more of the same word character to its first n, and cuts nothing when n is not positive. '
  'emoticon_normalize does the same after taking apart syllables that continue a neighbouring jamo (such as the middle one of ㅋ쿠ㅜ) into exactly their own jamo, keeping every other character. Text cleaned for an LR graph ends every eojeol with its last Hangul character.',
  ['inputs'],
  'every input string, every repeat count',
  'The tests do not call the normalizers; the guarantee is over every character of Unicode.',
  ['soynlp/normalizer/_normalizer.py', 'soynlp/normalizer/__init__.py'],
  [('character-class regular expressions', 'normalizer patterns')])

p('C17', 'Tokenizing loses, adds and reorders nothing',
  'For the regular-expression, L, max-score and max-LR-score tokenizers the tokens of a sentence, concatenated in the order returned (unless the option to drop right parts is set), are the sentence with its whitespace removed, whether the result is flattened or not. Every token with position information is the slice of the eojeol at exactly the begin and end it reports, with the length it reports, and the tokens of an eojeol neither overlap nor leave a gap. NounMatchTokenizer, which returns nouns only, merges exactly the nouns that adjoin and loses none of those it found.',
  ['inputs', 'configurations'],
  'every sentence, every score table, every option of the regular-expression, L, max-score, max-LR-score and noun-matching tokenizers',
  'The tests tokenize a few sentences with one score table.',
  ['soynlp/tokenizer/_tokenizer.py', 'soynlp/tokenizer/_noun_tokenizer.py'],
  [('tokens are complementary slices; gaps are filled before, between and after the chosen spans', 'tokenizers')])

p('C18', 'The POS tagger covers every eojeol',
  'Tagging a sentence treats every eojeol of it, in order. The words it gives for an eojeol do not overlap and stand in their order in the text, and each is the text found at the place it tells (its begin, middle and end); both parts of each word are given with their own tags. With the post-processor for unknown words, or with the eojeol template matcher, the words of an eojeol concatenate to it: nothing is left out, invented, given twice or moved, and what the dictionary does not know comes back untagged. The eojeol template matcher always finds a candidate, and the evaluators choose among the candidates and nothing else.',
  ['inputs', 'configurations'],
  'every sentence and every dictionary, with and without post-processors',
  'The tests tag two sentences whose words are in the dictionary.',
  ['soynlp/postagger/_tagger.py', 'soynlp/postagger/_template.py', 'soynlp/postagger/_evaluator.py'],
  [('unknown post-processing fills uncovered parts', 'SimpleTagger, UnknowLRPostprocessor')])

p('C19', 'Minimum-count and minimum-score limits are inclusive and always enforced',
  'Every entry that an extractor, counter, vectorizer or scorer finds in the corpus and returns has been compared with the minimum frequency and the minimum score in force for the call: an entry exactly at the limit is kept and an entry below it is dropped, at every stage at which the limit applies. '
  'Not meant are entries of dictionaries that the caller supplies, compound nouns (accepted for their parts), the cohesion of one-syllable words (they have none), and limits a method scales before use.',
  ['inputs', 'configurations'],
  'every corpus and every value of every min_* option of the public extractors, counters, pmi and vectorizer',
  'The tests use one corpus and do not check entries at or below a limit.',
  ['soynlp/utils/utils.py', 'soynlp/word/_word.py', 'soynlp/word/_pmi.py', 'soynlp/noun/_noun_ver1.py', 'soynlp/noun/_noun_ver2.py', 'soynlp/predicator/_predicator.py', 'soynlp/predicator/_eomi.py', 'soynlp/predicator/_stem.py', 'soynlp/vectorizer/_vectorizer.py'],
  [('>= comparisons against the option', 'filters')])

p('C20', 'Every lemma the lemmatizer proposes conjugates back to the word',
  'Each (stem, ending) the lemmatizer returns has the stem among its known stems and the ending among its known endings (unless only the stem is to be checked), and conjugating that pair gives the surface word it was proposed for. The pairs lemma_candidate and Lemmatizer.candidates propose, and the lemmas PredicatorExtractor.extract gives for a word, conjugate to their word too.',
  ['inputs'],
  'every word, every stem and ending dictionary',
  'The tests try a list of known words.',
  ['soynlp/lemmatizer/_lemmatizer.py', 'soynlp/lemmatizer/_conjugation.py', 'soynlp/predicator/_predicator.py'],
  [('candidates are filtered by dictionary membership and by conjugation', 'Lemmatizer.lemmatize, lemma_candidate')])

p('C21', 'The length of a corpus is the number of items it yields',
  'len() of a corpus object equals the number of documents (or sentences, in sentence mode) that iterating over it yields, for every file, every limit on documents or sentences and every number of skipped header lines; iterating twice yields the same items.',
  ['inputs', 'configurations'],
  'every text file and every combination of corpus options',
  'The tests read one file without limits.',
  ['soynlp/utils/utils.py'],
  [('the length counter repeats the skipping and filtering of the iterator', 'DoublespaceLineCorpus')])

p('C22', 'Every occurrence is counted exactly once',
  'The counts of the counting components are those of the corpus: each occurrence adds 1 (or, when counts are given, its own count; in the context matrix the weight of its distance) once, to the key it belongs to, and nothing else is added. This holds for EojeolCounter (eojeols cut at any white space and its L-R graph), LRGraph built from sentences, add_eojeol, remove_eojeol and to_EojeolCounter, WordExtractor.train (left and right pieces of words, and their pieces together with the next character of the neighbour, where the last word of a sentence is next to the first), Bigram.train, BaseVectorizer.fit (term frequency per occurrence, document frequency once per document), sent_to_word_contexts_matrix (neighbours on both sides within the window, never around the end of a sentence), and the training of LRNounExtractor, NewsNounExtractor and EojeolPatternTrainer. Only pieces longer than the length limits, and entries below the minimum count where pruning is asked for, are left out; counting goes on from earlier counts only when cumulate is set.',
  ['inputs'],
  'every corpus, every counting component',
  'The tests do not compare any count with the corpus.',
  ['soynlp/utils/utils.py', 'soynlp/word/_word.py', 'soynlp/word/_phrase.py', 'soynlp/vectorizer/_vectorizer.py', 'soynlp/vectorizer/_word_context.py', 'soynlp/noun/_noun_ver1.py', 'soynlp/noun/_noun_news.py', 'soynlp/tokenizer/_tokenizer_builder.py'],
  [('one update per occurrence, in a loop over all pieces up to the limits', 'EojeolCounter, LRGraph, WordExtractor.train, Bigram.train, BaseVectorizer.fit, _word_context')])

p('C23', 'Vectorizer columns and terms correspond one to one',
  'After fitting, the map from term to column and the list from column to term are inverse to each other with columns 0..n-1, transform and the list encoders use exactly these columns, and decoding an encoded document returns its in-vocabulary terms.',
  ['inputs'],
  'every corpus and every frequency limit',
  'The tests do not use the vectorizer.',
  ['soynlp/vectorizer/_vectorizer.py', 'soynlp/vectorizer/_word_context.py'],
  [('vocabulary enumerated once in sorted order, index list derived from it', 'BaseVectorizer.fit')])

p('C28', 'One-step operations equal their two separate steps',
  'An operation that is offered both in one step and as two separate steps (train_extract as train then extract, fit_transform as fit then transform, fit_to_file as fit then to_file) does exactly what the two steps do one after the other: each step happens once, on the data given, with every option given and the same option defaults, and the result is that of the second step.',
  ['inputs', 'configurations'],
  'every class that offers such an operation, every corpus, every subset of options given',
  'The tests use one of the two spellings per class, with default options.',
  ['soynlp/noun/_noun_ver1.py', 'soynlp/noun/_noun_ver2.py', 'soynlp/pos/_news_pos.py', 'soynlp/predicator/_predicator.py', 'soynlp/predicator/_eomi.py', 'soynlp/vectorizer/_vectorizer.py'],
  [('the one-step method calls its two steps and hands on its options', 'train_extract, fit_transform, fit_to_file')])

p('C24', 'Scores follow their definitions',
  'Every score is its published formula over the counts the extractor holds, for every word and whichever way it is asked for. Of a word: its frequency on either side is its count there, 0 when it was never seen; its forward (backward) cohesion is the (n-1)-th root, n being its length, of its count over that of its first (last) character, 0 for a single character or a word never seen on that side; its left (right) branching entropy is -sum p log p over the characters seen just before (after) it, within a word or across a space, and its accessor variety is how many those are. The tables over all words (all_cohesion_scores, all_branching_entropy, all_accessor_variety, word_scores) have for each word up to the longest one exactly these values, each in its own field and on its own side. Of a bigram: pmi is log(N f(a,b) / (f(a) f(b))) and the mikolov score (f(a,b) - min_frequency) / (f(a) f(b)). The pmi matrix is log p(x,y) / (p(x) (p(y) + alpha)) with marginals that are the sums of rows and columns (those of columns raised to beta and rescaled when beta < 1), keeping what is at least min_pmi. The score of a noun candidate is (positive - negative) / (positive + negative) in LRNounExtractor_v2, and the mean of the coefficients of what follows weighted by how often in the other noun extractors; it lies in [-1, 1] in the first, and the share of known features in [0, 1].',
  ['inputs', 'configurations'], 'every corpus, every word of any length, every setting of the length limits and smoothing parameters',
  'The tests print a few words of one corpus and compare no score with its definition.',
  ['soynlp/word/_word.py', 'soynlp/word/_pmi.py', 'soynlp/word/_phrase.py', 'soynlp/noun/_noun_ver1.py', 'soynlp/noun/_noun_ver2.py', 'soynlp/noun/_noun_news.py'],
  [('score formulas', 'WordExtractor.cohesion_score, branching_entropy, accessor_variety, frequency'), ('tables over all words', 'WordExtractor.word_scores, all_branching_entropy'),
   ('bigram scores', 'Bigram.extract'), ('pmi matrix', 'pmi'), ('noun prediction', 'predict')])

p('C25', 'Distances between texts follow their definitions',
  'The Levenshtein distance of two texts is the least total cost of inserting and leaving out characters (1 each) and of replacing them that turns one into the other, where keeping a character costs nothing and replacing c1 of the first text by c2 of the second costs what the caller gives for (c1, c2), or else 1. The jamo distance is the same with a third of the distance between their jamo as the cost of replacing one Korean character by another, and 1 when one of them is not Korean. So, whichever text comes first or is the longer, equal texts are 0 apart, a text is its own length away from an empty one, exchanging the texts (and the direction of the costs) changes nothing, and no distance exceeds the length of the longer text when no costs are given. The cosine and the Jaccard distance are one minus the cosine similarity of the counts, and one minus the shared part of the sets, of the units of the two texts; a text is 2 and 1 away from an empty one.',
  ['inputs'], 'all pairs of texts of any lengths and in either order, all substitution cost tables', 'The tests compare three pairs.',
  ['soynlp/hangle/_distance.py'], [('dynamic programming over prefixes, the longer text first', 'levenshtein, jamo_levenshtein'), ('ratio of what is shared', 'cosine_distance, jaccard_distance')])

p('C26', 'A checkpoint of the counting only leaves out what is rare so far',
  'The checkpoints that save memory while a corpus is counted (filtering_checkpoint of EojeolCounter and Bigram, and of the extractors that hand it to them, num_for_pruning of WordExtractor.train) change the counts in one way only: when the number of the sentence is a multiple of the interval, and only then, entries whose count so far is below the minimum count are left out. An entry that has reached the minimum keeps its key and its exact count, an interval of 0 means that there is no checkpoint at all, every sentence is counted whether or not a checkpoint is taken there, and no count is replaced by another one. So with an interval of 0, or longer than the corpus, the counts are those of the plain counting, and with any interval no count is more than the plain one and every entry that had reached the minimum before the first checkpoint has its plain count.',
  ['inputs', 'configurations'], 'every corpus, every interval and every minimum count', 'The tests count one corpus with the default interval, which is longer than the corpus.',
  ['soynlp/utils/utils.py', 'soynlp/word/_word.py', 'soynlp/word/_phrase.py'],
  [('filter by the minimum at every multiple of the interval', 'EojeolCounter.__init__, Bigram.train, WordExtractor.train')])

p('C27', 'The best-scoring segmentation and the true nouns are found',
  'Max-score tokenizers choose the segmentation that is best by their scoring rule, and extractors return the nouns, predicators and endings that really occur in the corpus.',
  ['inputs'], 'every corpus and sentence', 'Tests inspect a few outputs by eye.',
  ['soynlp/tokenizer/_tokenizer.py', 'soynlp/noun/_noun_ver2.py', 'soynlp/predicator/_predicator.py'], [('greedy search and feature scoring', 'extractors')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w', encoding='utf-8') as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
