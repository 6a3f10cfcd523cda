"""The public surface: which operations a user calls, what kinds of arguments
they take, and which of them announce that they change the object.

Parameter kinds are looked up as  TABLE[class][param] > PARAMS[param] > default.
A kind is a '|'-separated list of alternatives:
  str int float bool none any
  list:K set:K tuple:K dict:K:K dict1 (nested kinds need no brackets: prefix form)
  inst:Class      an instance, built through its own constructor
  fn              an unknown callable
"""

# name: (module used to import it, constructor kinds, training methods (run once
# in this order), mutators (any order, any number of times), queries)
CLASSES = {
    'RegexTokenizer': dict(mod='soynlp.tokenizer', train=[], mut=[], q=['__call__', 'tokenize']),
    'LTokenizer': dict(mod='soynlp.tokenizer', train=[], mut=[], q=['__call__', 'tokenize']),
    'MaxScoreTokenizer': dict(mod='soynlp.tokenizer', train=[], mut=[], q=['__call__', 'tokenize']),
    'MaxLRScoreTokenizer': dict(mod='soynlp.tokenizer', train=[], mut=[], q=['__call__', 'tokenize'],
                                kinds={'lrgraph': 'dict:str:dict:str:int|none',
                                       'Dl': 'dict:str:float|set:str|list:str|none',
                                       'Dr': 'dict:str:float|set:str|list:str|none',
                                       'tokenizer_builder': 'none|fn'}),
    'NounLMatchTokenizer': dict(mod='soynlp.tokenizer', train=[], mut=[], q=['__call__', 'tokenize'],
                                kinds={'nouns': 'dict:str:float|set:str|list:str'}),
    'NounMatchTokenizer': dict(mod='soynlp.tokenizer', train=[], mut=[], q=['__call__', 'tokenize'],
                               kinds={'noun_scores': 'dict:str:float'}),
    'Dictionary': dict(mod='soynlp.postagger', train=[], mut=['add_words', 'remove_words', 'load'],
                       q=['get_pos', 'word_is_tag', 'save'],
                       kinds={'words': 'set:str|list:str|str', 'pos_dict': 'dict:str:set:str'},
                       mkinds={'remove_words': {'words': 'set:str|list:str|str|none'}}),
    'BaseEvaluator': dict(mod='soynlp.postagger', train=[], mut=[], q=['evaluate', 'select_best'],
                          kinds={'candidate': 'any', 'candidates': 'any'}),
    'SimpleEojeolEvaluator': dict(mod='soynlp.postagger', train=[], mut=[], q=['evaluate', 'select_best'],
                                  kinds={'candidate': 'res:EojeolTemplateMatcher.generate:1',
                                         'candidates': 'res:EojeolTemplateMatcher.generate',
                                         'weights': 'none|list:tuple2:str:float'}),
    'LREvaluator': dict(mod='soynlp.postagger', train=[], mut=[], q=['evaluate', 'select_best'],
                        kinds={'candidate': 'res:LRTemplateMatcher.generate:1',
                               'candidates': 'res:LRTemplateMatcher.generate',
                               'weights': 'none|list:tuple2:str:float',
                               'preference': 'none|dict:str:dict:str:float'}),
    'BaseTemplateMatcher': dict(mod='soynlp.postagger', train=[], mut=[], q=['generate'], abstract=True),
    'EojeolTemplateMatcher': dict(mod='soynlp.postagger', train=[], mut=[], q=['generate'],
                                  kinds={'dictionary': 'inst:Dictionary', 'single_tags': 'none|set:str',
                                         'lr_templates': 'none|list:tuple2:str:str'}),
    'LRTemplateMatcher': dict(mod='soynlp.postagger', train=[], mut=[], q=['generate'],
                              kinds={'dictionary': 'inst:Dictionary', 'ltags': 'none|set:str',
                                     'templates': 'none|dict:str:list:str'}),
    'BaseTagger': dict(mod='soynlp.postagger', train=[], mut=[], q=['tag'], abstract=True,
                       kinds={'generator': 'any', 'evaluator': 'any', 'postprocessor': 'any'}),
    'SimpleTagger': dict(mod='soynlp.postagger', train=[], mut=[], q=['tag'],
                         kinds={'generator': 'inst:LRTemplateMatcher', 'evaluator': 'inst:LREvaluator',
                                'postprocessor': 'none|inst:UnknowLRPostprocessor'}),
    'BasePostprocessor': dict(mod='soynlp.postagger', train=[], mut=[], q=['postprocess'], abstract=True,
                              kinds={'best_wordstream': 'any'}),
    'UnknowLRPostprocessor': dict(mod='soynlp.postagger', train=[], mut=[], q=['postprocess'],
                                  kinds={'words': 'res:LREvaluator.select_best'}),
    'POSExtractor': dict(mod='soynlp.postagger', train=[], mut=['extract'], q=[]),
    'Lemmatizer': dict(mod='soynlp.lemmatizer', train=[], mut=[], q=['lemmatize', 'candidates'],
                       kinds={'stems': 'set:str', 'endings': 'set:str',
                              'predefined': 'none|dict:tuple2:str:str:list:tuple2:str:str'}),
    'ConvolutionHangleEncoder': dict(mod='soynlp.hangle', train=[], mut=[],
                                     q=['encode', 'sent_to_onehot', 'onehot_to_sent'],
                                     kinds={'encoded_sent': 'list:tuple3:int:int:int'}),
    'DoublespaceLineCorpus': dict(mod='soynlp.utils', train=[], mut=[], q=['__iter__', '__len__'],
                                  memo=['num_doc', 'num_sent']),
    'EojeolCounter': dict(mod='soynlp.utils', train=[], mut=['remove_covered_eojeols', 'load'],
                          q=['__getitem__', '__len__', 'coverage', 'num_of_unique_uncovered_eojeols',
                             'num_of_uncovered_eojeols', 'get_uncovered_eojeols', 'get_eojeol_count',
                             'items', 'to_lrgraph', 'save'],
                          kinds={'preprocess': 'none|fn', 'eojeols': 'set:str|dict:str:int'}),
    'LRGraph': dict(mod='soynlp.utils', train=[],
                    mut=['reset_lrgraph', 'add_lr_pair', 'add_eojeol', 'remove_lr_pair', 'remove_eojeol', 'load'],
                    last=['freeze'],
                    q=['get_r', 'get_l', 'copy_compatified_lrgraph_origin', 'to_EojeolCounter', 'save'],
                    kinds={'lrgraph': 'none|dict:str:dict:str:int|ddict:str:ddict:str:int', 'sents': 'none|list:str'}),
    'BaseVectorizer': dict(mod='soynlp.vectorizer', train=['fit'],
                           mut=['fit', 'fit_transform', 'fit_to_file', 'load'],
                           q=['transform', 'to_file', '__len__', 'encode_a_doc_to_list', 'decode_from_list',
                              'encode_a_doc_to_bow', 'decode_from_bow', 'save', 'vocabs'],
                           kinds={'bow': 'dict:int:int', 'tokenizer': 'fn'},
                           mkinds={'decode_from_list': {'doc': 'list:int'}}),
    'WordExtractor': dict(mod='soynlp.word', train=['train'], mut=['train', 'load'],
                          q=['extract', 'word_scores', 'all_cohesion_scores', 'cohesion_score', 'frequency',
                             'all_branching_entropy', 'branching_entropy', 'all_accessor_variety',
                             'accessor_variety', 'words', 'save'],
                          kinds={'scores': 'none|res:WordExtractor.word_scores', 'get_score': 'fn'}),
    'Bigram': dict(mod='soynlp.word', train=['train'], mut=['train'], q=['extract', 'is_trained'],
                   kinds={'sentences': 'list:str|none', 'tokenizer': 'none|fn', 'ngram_selector': 'none|fn'},
                   mkinds={'train': {'sentences': 'list:str'}}),
    'LRNounExtractor': dict(mod='soynlp.noun', train=['train'], mut=['train', 'train_extract', 'extract'],
                            q=['is_noun', 'predict'],
                            kinds={'nouns': 'none|dict:str:tuple2:float:float'}),
    'NewsNounExtractor': dict(mod='soynlp.noun', train=['train'], mut=['train', 'train_extract', 'extract'],
                              q=['predict', 'l_frequency'],
                              kinds={'base_noun_dictionary': 'none|set:str'}),
    'LRNounExtractor_v2': dict(mod='soynlp.noun', train=['train', 'extract'],
                               mut=['train', 'train_extract', 'extract', 'extract_domain_pos_features',
                                    'extract_compounds'],
                               q=['predict', 'decompose_compound', 'is_trained'],
                               kinds={'postprocessing': 'none|list:str|str', 'prediction_scores': 'dict:str:tuple2:int:float',
                                      'candidates': 'dict:str:int',
                                      'predictor_headers': 'none|list:str|str',
                                      'ignore_features': 'none|set:str'}),
    'EomiExtractor': dict(mod='soynlp.predicator', train=[], mut=['extract'], q=['predict', 'is_trained'],
                          kinds={'nouns': 'set:str', 'stems': 'set:str', 'condition': 'none|set:str',
                                 'lrgraph': 'inst:LRGraph'}),
    'StemExtractor': dict(mod='soynlp.predicator', train=[], mut=['extract'], q=['predict'],
                          kinds={'stems': 'set:str', 'eomis': 'set:str', 'L_ignore': 'none|set:str',
                                 'lrgraph': 'inst:LRGraph'}),
    'PredicatorExtractor': dict(mod='soynlp.predicator', train=['train'],
                                mut=['train', 'train_extract', 'extract'], q=['is_trained'],
                                kinds={'nouns': 'set:str|dict:str:int', 'josas': 'none|set:str', 'eomis': 'none|set:str',
                                       'adjectives': 'none|set:str', 'verbs': 'none|set:str',
                                       'candidates': 'none|dict:str:int'}),
    'NewsPOSExtractor': dict(mod='soynlp.pos', train=['train'], mut=['train', 'train_extract', 'extract'], q=[]),
    'ChatPOSExtractor': dict(mod='soynlp.pos', train=['train'], mut=['train', 'train_extract', 'extract'], q=[]),
}

FUNCTIONS = {
    'soynlp.hangle': ['levenshtein', 'jamo_levenshtein', 'cosine_distance', 'jaccard_distance', 'normalize',
                      'decompose', 'compose', 'character_is_korean', 'character_is_complete_korean',
                      'character_is_jaum', 'character_is_moum', 'to_base', 'character_is_number',
                      'character_is_english'],
    'soynlp.lemmatizer': ['lemma_candidate', 'lemma_candidate_chat', 'conjugate', 'conjugate_chat',
                          '_conjugate_stem'],
    'soynlp.ner': ['is_date', 'is_day', 'is_number', 'is_monetary', 'is_period', 'is_time'],
    'soynlp.normalizer': ['emoticon_normalize', 'remove_doublespace', 'repeat_normalize', 'only_hangle',
                          'only_hangle_number', 'only_text', 'normalize', 'remain_hangle_on_last',
                          'normalize_sent_for_lrgraph'],
    'soynlp.noun': ['extract_domain_pos_features'],
    'soynlp.pos': ['load_default_adverbs', 'stem_to_adverb'],
    'soynlp.tokenizer': ['normalize'],
    'soynlp.utils': ['get_available_memory', 'get_process_memory', 'sort_by_alphabet', 'check_dirs',
                     'most_similar', 'check_corpus', 'svd'],
    'soynlp.vectorizer': ['sent_to_word_contexts_matrix'],
    'soynlp.word': ['pmi'],
    'soynlp.word._pmi': ['pmi_memory_friendly'],
}

FKINDS = {
    'compose': {'chosung': 'str', 'jungsung': 'str', 'jongsung': 'str'},
    'levenshtein': {'cost': 'dict:tuple2:str:str:float'},
    'cosine_distance': {'unitfy': 'fn'}, 'jaccard_distance': {'unitfy': 'fn'},
    'normalize': {'remains': 'set:str'},
    'lemma_candidate': {'predefined': 'none|dict:tuple2:str:str:list:tuple2:str:str'},
    'lemma_candidate_chat': {'predefined': 'none|dict:tuple2:str:str:list:tuple2:str:str'},
    'stem_to_adverb': {'stems': 'set:str', 'suffixs': 'none|set:str'},
    'most_similar': {'item_to_idx': 'dict:str:int', 'idx_to_item': 'list:str'},
    'extract_domain_pos_features': {'prediction_scores': 'dict:str:tuple2:int:float', 'lrgraph': 'inst:LRGraph',
                                    'known_pos_features': 'set:str', 'ignore_features': 'none|set:str'},
    'check_corpus': {'corpus': 'list:str'},
    'svd': {'n_iter': 'int', 'n_components': 'int', 'random_state': 'any'},
}

PARAMS = {
    'sentence': 'str', 'sent': 'str', 's': 'str', 's1': 'str', 's2': 'str', 'word': 'str', 'eojeol': 'str',
    'token': 'str', 'doc': 'str', 'c': 'str', 'i': 'str', 'l': 'str', 'r': 'str', 'stem': 'str', 'ending': 'str',
    'tag': 'str', 'query': 'str',
    'sents': 'list:str|inst:DoublespaceLineCorpus', 'docs': 'list:str|inst:DoublespaceLineCorpus',
    'sentences': 'list:str|inst:DoublespaceLineCorpus',
    'inputs': 'list:str|inst:LRGraph|inst:EojeolCounter',
    'path': 'str', 'filename': 'str', 'fname': 'str', 'filepath': 'str', 'file_path': 'str', 'corpus_fname': 'str',
    'logpath': 'none|str', 'encoding': 'str', 'predictor_fnames': 'none|list:str',
    'count': 'int', 'value': 'float', 'scores': 'none|dict:str:float',
    'preference_l': 'none|dict:str:float', 'preference_r': 'none|dict:str:float',
    'stopwords': 'none|set:str', 'noun_candidates': 'none|set:str|list:str',
    'tokenizer': 'fn', 'condition': 'none|set:str',
    'X': 'any', 'py': 'none|any', 'vector': 'any',
}
# a loaded model brings the verbosity it was saved with
OWN_VERBOSITY = {('WordExtractor', 'load')}
# options whose values are decided by name and not by their default
FLAGS = {'verbose', 'debug'}
# an LR graph handed to these operations is a working graph by contract
WORKING = {('EomiExtractor', 'lrgraph'), ('StemExtractor', 'lrgraph'), ('LRNounExtractor_v2', 'inputs')}
