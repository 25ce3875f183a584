"""Which specification modules, generators, drivers and judges decide each property."""

DOC_ASSUME = ['documents are observed through the public constructors and accessors of babylondigger.datamodel']


def doc_mc(mode, quick, thorough, *inv):
    return dict(module='MC_Document', consts={'Mode': '"%s"' % mode, 'MaxT': {'quick': quick, 'thorough': thorough}}, INVARIANT=inv)


def doc_gen(mode, quick, thorough):
    return dict(name=mode, module='Gen_Document', spec='GSpec', POSTCONDITION=['Write'],
                consts={'Mode': '"%s"' % mode, 'MaxT': {'quick': quick, 'thorough': thorough}})


CHECKS = {
    'C01': dict(
        mc=[doc_mc('tokens', 3, 3, 'AlgorithmDecidesStructure', 'AcceptedIffDeclared', 'NothingLost', 'InOrder', 'OrderIndependent'),
            doc_mc('sents', 3, 5, 'AlgorithmDecidesStructure', 'AcceptedIffDeclared', 'SentencesPartition')],
        gen=[doc_gen('tokens', 3, 3), doc_gen('sents', 3, 4)],
        harness='dm', trace='T_DataModel', judge='JudgeC01', assumptions=DOC_ASSUME),
    'C02': dict(
        mc=[doc_mc('heads', 3, 4, 'HeadViewsAgree', 'GivenHeadKept', 'Rebuild', 'ReAnnotateSelf', 'AcceptedIffDeclared')],
        gen=[doc_gen('heads', 3, 4)],
        harness='dm', trace='T_DataModel', judge='JudgeC02', assumptions=DOC_ASSUME),
    'C03': dict(
        mc=[doc_mc('syntax', 4, 5, 'WalkDecidesTree')],
        gen=[doc_gen('syntax', 4, 5)],
        harness='dm', trace='T_DataModel', judge='JudgeC03', assumptions=DOC_ASSUME),
}


def heap_mc(mode, q, t, objs, cells):
    return dict(module='MC_Heap', consts={'Mode': '"%s"' % mode, 'Keep': 0, 'MaxOps': {'quick': q, 'thorough': t}, 'MaxObjs': objs, 'MaxCells': cells},
                INVARIANT=['DocsWellFormed'], PROPERTY=['ValuesNeverChange'], CONSTRAINT=['Small'], VIEW=['HView'])


def heap_gen(name, mode, ops, sim):
    g = dict(name=name, module='MC_Heap', spec='CSpec', POSTCONDITION=['Write'], INVARIANT=['Collect', 'DocsWellFormed'],
             consts={'Mode': '"%s"' % mode, 'Keep': 0, 'MaxOps': ops, 'MaxObjs': 99, 'MaxCells': 99})
    if sim:
        g['simulate'] = sim
    return g


HEAP_GEN = [heap_gen('heap', 'all', {'quick': 22, 'thorough': 40}, {'quick': 120, 'thorough': 4000}),
            heap_gen('rich', 'rich', {'quick': 33, 'thorough': 51}, {'quick': 120, 'thorough': 4000}),
            # every single derivation (thorough: every pair) from a heap where every field is set
            heap_gen('derive', 'derive', {'quick': 19, 'thorough': 20}, None)]
CHECKS['C04'] = dict(mc=[heap_mc('pos', 5, 7, 3, 3), heap_mc('ext', 5, 6, 3, 3)], gen=HEAP_GEN,
                     harness='dm', trace='T_Heap', judge='JudgeC04', init='HeapInit', assumptions=DOC_ASSUME)
CHECKS['C05'] = dict(mc=[heap_mc('doc', 4, 6, 4, 2)], gen=HEAP_GEN,
                     harness='dm', trace='T_Heap', judge='JudgeC05', init='HeapInit', assumptions=DOC_ASSUME)

CHECKS['C06'] = dict(mc=[doc_mc('heads', 3, 4, 'HeadViewsAgree', 'InOrder')], harness='dm', trace='T_DataModel', judge='JudgeC06', assumptions=DOC_ASSUME)
CHECKS['C07'] = dict(mc=[doc_mc('heads', 3, 4, 'ReAnnotateSelf', 'Rebuild')], harness='dm', trace='T_DataModel', judge='JudgeC07', assumptions=DOC_ASSUME)
CHECKS['C08'] = dict(mc=[doc_mc('heads', 2, 3, 'EqualityIsEquivalence')], harness='dm', trace='T_DataModel', judge='JudgeC08', assumptions=DOC_ASSUME)


def io_mc(heads, q, t, *inv):
    return dict(module='MC_ConlluIO', consts={'MaxLines': {'quick': q, 'thorough': t}, 'Heads': 'TRUE' if heads else 'FALSE', 'Mode': '"mc"'}, INVARIANT=inv)


def io_gen(name, heads, q, t):
    return dict(name=name, module='MC_ConlluIO', spec='CSpec', POSTCONDITION=['Write'], INVARIANT=['Collect'],
                consts={'MaxLines': {'quick': q, 'thorough': t}, 'Heads': 'TRUE' if heads else 'FALSE', 'Mode': '"gen"'})


IO_GEN = [io_gen('files', False, 4, 5), io_gen('synfiles', True, 4, 5)]
IO_INV = ('ReaderRejectsExactlyMalformed', 'LimitDoesNotMatter', 'ChunkSizes', 'Faithful', 'RoundTrip')
for _p, _inv in (('C09', ('Faithful',)), ('C10', ('LimitDoesNotMatter', 'ChunkSizes')), ('C11', ('ReaderRejectsExactlyMalformed',)),
                 ('C12', ('RoundTrip',)), ('C13', ('RoundTrip', 'Faithful'))):
    CHECKS[_p] = dict(mc=[io_mc(False, 5, 7, *_inv), io_mc(True, 5, 6, *_inv)], gen=IO_GEN if _p in ('C09', 'C11', 'C13') else [],
                      harness='io_conllu', trace='T_ConlluIO', judge={'C12': 'JudgeC12', 'C13': 'JudgeC13'}.get(_p, 'JudgeRead'),
                      assumptions=['files are rendered from abstract lines by the driver; FORM, LEMMA and tags contain no tab or line break'])

CHECKS['C14'] = dict(mc=[dict(module='MC_Dataset', consts={'N': {'quick': 3, 'thorough': 4}, 'M': 2, 'Passes': 2}, INVARIANT=['EveryItemOnceNearby', 'SameSeedSameOrder']),
                         dict(module='MC_Dataset', consts={'N': {'quick': 4, 'thorough': 5}, 'M': 3, 'Passes': 1}, INVARIANT=['EveryItemOnceNearby', 'SameSeedSameOrder'])],
                     harness='dataset', trace='T_Dataset', judge='JudgeC14', init='DsInit',
                     assumptions=['items of a shuffled source are distinct; seeds are non-negative integers'])

CHECKS['C15'] = dict(mc=[dict(module='MC_UDScore', consts={'NChars': {'quick': 3, 'thorough': 4}, 'Rich': 'FALSE'}, workers=4,
                              INVARIANT=['Monotone', 'AlignedPairsFit', 'AlignsWhatIsDeclared', 'NeverFewerThanDeclared', 'SelfIsPerfect', 'Symmetric', 'WordsSym', 'Bounded']),
                         dict(module='MC_UDScore', consts={'NChars': 3, 'Rich': 'TRUE'}, workers=4,
                              INVARIANT=['Monotone', 'AlignedPairsFit', 'AlignsWhatIsDeclared', 'NeverFewerThanDeclared', 'SelfIsPerfect', 'Symmetric', 'WordsSym', 'Bounded'])],
                     gen=[dict(name='pairs', module='MC_UDScore', spec='CSpec', POSTCONDITION=['Write'], INVARIANT=['Collect'],
                               consts={'NChars': 4, 'Rich': 'FALSE'})],
                     harness='evalud', trace='T_UDScore', judge='JudgeC15', jobs=6, assumptions=['treebanks are rendered to CoNLL-U by the driver; lower-casing of forms is taken from Python'])
CHECKS['C16'] = dict(mc=[dict(module='MC_UDLoad', consts={'MaxLines': {'quick': 4, 'thorough': 5}}, INVARIANT=['LoadsExactlyValid', 'CountsWords'], workers=4)],
                     gen=[dict(name='lines', module='MC_UDLoad', spec='CSpec', POSTCONDITION=['Write'], INVARIANT=['Collect'], consts={'MaxLines': {'quick': 4, 'thorough': 5}})],
                     harness='evalud', trace='T_UDScore', judge='JudgeC16', assumptions=['word IDs inside multiword ranges are not checked by the loader and not varied'])
CHECKS['C17'] = dict(mc=[dict(module='MC_UDScore', consts={'NChars': 3, 'Rich': 'FALSE'}, INVARIANT=['SelfIsPerfect', 'Bounded'], workers=4)],
                     harness='evalud', trace='T_UDScore', judge='JudgeC17', jobs=6,
                     assumptions=['gold files have comments at sentence starts only, features in the writer\'s order and at most 200 words per sentence'])


def ex_consts(np, ns, ne, top, dispose='TRUE'):
    return {'NP': np, 'NS': ns, 'NE': ne, 'Top': top, 'Dispose': dispose}


EX_INV = ('NothingNeededIsLost', 'NothingElseKept', 'KeepsAll', 'WinnerIsDeclared')
EX_MC = [dict(module='MC_Experiment', consts=ex_consts(2, 2, {'quick': 2, 'thorough': 3}, {'quick': 2, 'thorough': 1}), INVARIANT=EX_INV, workers=4),
         dict(module='MC_Experiment', consts=ex_consts(3, 1, 2, 2), INVARIANT=EX_INV, workers=4),
         dict(module='MC_Experiment', consts=ex_consts(2, 2, 2, 1, 'FALSE'), INVARIANT=EX_INV)]
EX_GEN = [dict(name='t222', module='MC_Experiment', spec='CSpec', POSTCONDITION=['Write'], INVARIANT=['Collect'], consts=ex_consts(2, 2, 2, {'quick': 1, 'thorough': 2})),
          dict(name='t312', module='MC_Experiment', spec='CSpec', POSTCONDITION=['Write'], INVARIANT=['Collect'], consts=ex_consts(3, 1, 2, {'quick': 1, 'thorough': 2})),
          dict(name='t114', module='MC_Experiment', spec='CSpec', POSTCONDITION=['Write'], INVARIANT=['Collect'], consts=ex_consts(1, 1, 4, 2))]
EX_ASSUME = ['network training is replaced by a scripted trainer that leaves a model directory per epoch; scores are multiples of 1/8 and averages are over 1, 2 or 4 seeds, so floating point is exact']
for _p in ('C18', 'C19'):
    CHECKS[_p] = dict(mc=EX_MC, gen=EX_GEN, harness='experiment', trace='T_Experiment', judge='Judge' + _p, assumptions=EX_ASSUME, shards=4)
CHECKS['C20'] = dict(mc=[dict(module='MC_Grid', consts={'MaxAxes': {'quick': 2, 'thorough': 3}, 'MaxLen': {'quick': 2, 'thorough': 1}},
                              INVARIANT=['CountIsProduct', 'EachIsTheChoice', 'EveryCombination', 'OneValuePerPlace'], workers=4)],
                     gen=[dict(name='grids', module='MC_Grid', spec='CSpec', POSTCONDITION=['Write'], INVARIANT=['Collect'], consts={'MaxAxes': 2, 'MaxLen': 2})],
                     harness='experiment', trace='T_Grid', judge='JudgeC20', shards=4,
                     assumptions=EX_ASSUME + ['grid elements change one setting each; axes whose paths contain each other are not specified'])


ENC_INV = ('LabelsAreDictionary', 'LabelsLossless', 'OneMeaning', 'VocabularyIsInjective', 'CharsReadBack', 'FitHasLength')
PAD_INV = ('PadIsRectangular', 'PadKeepsValues', 'PadIsIdempotent')


def enc_mc(mode, n, m, *inv):
    return dict(module='MC_Encode', consts={'Mode': '"%s"' % mode, 'N': n, 'M': m}, INVARIANT=inv, workers=4)


def enc_gen(name, mode, n, m):
    return dict(name=name, module='MC_Encode', spec='CSpec', POSTCONDITION=['Write'], INVARIANT=['Collect'], consts={'Mode': '"%s"' % mode, 'N': n, 'M': m})


LAB_MC = [enc_mc('labels', {'quick': 4, 'thorough': 6}, 2, *ENC_INV)]
LAB_GEN = [enc_gen('labels', 'labels', {'quick': 4, 'thorough': 5}, 2)]
FE_ASSUME = ['lower-casing of text is taken from Python']
CHECKS['C21'] = dict(mc=[dict(module='MC_Lemma', consts={'MaxPairs': 2, 'MaxWord': 3, 'MaxLemma': {'quick': 2, 'thorough': 3}, 'Th': {'quick': 1, 'thorough': 0}}, workers=4,
                              INVARIANT=['RuleRestoresLemma', 'RuleIsShortest', 'WalkIsDeclared', 'ReportedApplies', 'GoldIsReported', 'KeptIsLossless'])],
                     gen=[dict(name='pairs', module='MC_Lemma', spec='CSpec', POSTCONDITION=['Write'], INVARIANT=['Collect'],
                               consts={'MaxPairs': 2, 'MaxWord': 3, 'MaxLemma': 2, 'Th': 0})],
                     harness='features', trace='T_Lemma', judge='JudgeC21', jobs=6, assumptions=FE_ASSUME + ['every training word has a lemma'])
CHECKS['C22'] = dict(mc=LAB_MC, gen=LAB_GEN, harness='features', trace='T_Encode', judge='JudgeC22', assumptions=['every training word has a tag (the joint label also covers none); no feature is called UPOS or XPOS'])
CHECKS['C23'] = dict(mc=LAB_MC, gen=LAB_GEN, harness='features', trace='T_Encode', judge='JudgeC23', assumptions=['lemmas outside the training data have no label of their own and are not judged'])
CHECKS['C24'] = dict(mc=LAB_MC, gen=LAB_GEN, harness='features', trace='T_Encode', judge='JudgeC24',
                     assumptions=FE_ASSUME + ['the byte-pair model is replaced by a fixed segmentation (no model files here); Morfessor models are trained on the spot', 'words in embedding files contain no white space'])
CHECKS['C25'] = dict(mc=[enc_mc('pad', {'quick': 3, 'thorough': 4}, 2, *PAD_INV)], gen=[enc_gen('trees', 'pad', 3, 2)],
                     harness='features', trace='T_Encode', judge='JudgeC25', assumptions=['random.random() does not return exactly 0'])

TR_ASSUME = ['the network is symbolic: a stand-in for TensorFlow that keeps names, feeds, fetches and files but computes nothing']
TR_INV = ('ScheduleIsDeclared', 'RisingNeverCut', 'LevelIsCut', 'AtMostOnePerEpoch', 'EpochCovers')


def tr_mc(mode, epochs, top, size):
    return dict(module='MC_Train', consts={'Mode': '"%s"' % mode, 'Epochs': epochs, 'Top': top, 'Size': size}, INVARIANT=TR_INV, PROPERTY=['NeverAfterRise'], workers=2)


def tr_gen(name, epochs, top):
    return dict(name=name, module='MC_Train', spec='CSpec', POSTCONDITION=['Write'], INVARIANT=['Collect'], consts={'Mode': '"%s"' % name, 'Epochs': epochs, 'Top': top, 'Size': 1})


TR_MC = [tr_mc('accs', {'quick': 6, 'thorough': 8}, {'quick': 3, 'thorough': 4}, 1)] + [tr_mc('shapes', {'quick': 3, 'thorough': 4}, 3, k) for k in (1, 2, 3)]
CHECKS['C26'] = dict(mc=TR_MC[1:], gen=[tr_gen('shapes', {'quick': 2, 'thorough': 4}, {'quick': 3, 'thorough': 3})], harness='training', trace='T_Train', judge='JudgeC26', jobs=8, shards=3, assumptions=TR_ASSUME)
CHECKS['C27'] = dict(mc=TR_MC[:1], gen=[tr_gen('accs', {'quick': 4, 'thorough': 5}, 3)], harness='training', trace='T_Train', judge='JudgeC27', jobs=6, shards=3, assumptions=TR_ASSUME)
CHECKS['C28'] = dict(mc=TR_MC[1:2], harness='training', trace='T_Train', judge='JudgeC28', jobs=8, shards=3,
                     assumptions=TR_ASSUME + ['the stand-in answers with labels of training words chosen from the features it is fed with; words of one content get one answer'])


def pl_mc(mode, stages, docs):
    return dict(module='MC_Pipeline', consts={'Mode': '"%s"' % mode, 'MaxStages': stages, 'MaxDocs': docs}, workers=4,
                INVARIANT=['StreamingIsComposition', 'StreamingIsPrefix', 'NeededGrows', 'HeadsRoundTrip', 'MorphRoundTrip'])


def pl_gen(name, stages, docs):
    return dict(name=name, module='MC_Pipeline', spec='CSpec', POSTCONDITION=['Write'], INVARIANT=['Collect'], consts={'Mode': '"%s"' % name, 'MaxStages': stages, 'MaxDocs': docs})


CHECKS['C29'] = dict(mc=[pl_mc('chains', {'quick': 3, 'thorough': 5}, 4)], gen=[pl_gen('chains', {'quick': 3, 'thorough': 4}, 3)], harness='pipeline', trace='T_Pipeline', judge='JudgeC29',
                     assumptions=['stages are scripted processors; leaving a processor does not itself fail'])
CHECKS['C30'] = dict(mc=[pl_mc('heads', {'quick': 4, 'thorough': 5}, 4)], gen=[pl_gen('heads', {'quick': 3, 'thorough': 4}, 4)], harness='pipeline', trace='T_Pipeline', judge='JudgeC30',
                     assumptions=['the UDPipe model is scripted, its sentences are real; feature values contain no | and no ='])
CHECKS['C31'] = dict(mc=[pl_mc('heads', 3, 3)], harness='pipeline', trace='T_Pipeline', judge='JudgeC31', assumptions=DOC_ASSUME)


NET_INV = ('ReachIsWindow', 'WindowIsReach', 'SeesItself', 'SumKeepsWidth')
LIFE_INV = ('VersionsFromSeeds', 'FilesAreVersions', 'OneFilePerName', 'VersionsAreDeclared')


def net_mc(mode, n):
    return dict(module='MC_Network', consts={'Mode': '"%s"' % mode, 'N': n}, INVARIANT=NET_INV if mode == 'conf' else LIFE_INV, PROPERTY=[] if mode == 'conf' else ['OthersUntouched'], workers=4)


def net_gen(name, mode, n, sim=None):
    g = dict(name=name, module='MC_Network', spec='CSpec', POSTCONDITION=['Write'], INVARIANT=['Collect'], consts={'Mode': '"%s"' % mode, 'N': n})
    if sim:
        g['simulate'] = sim
    return g


NET_ASSUME = ['TensorFlow 2.21 through its version 1 interface, with the genuine legacy layers and cells; dilated convolutions, which this processor cannot train, are given as convolutions with a spread kernel']
LIFE_MC = [net_mc('life', {'quick': 5, 'thorough': 6}), net_mc('again', 8)]
for pid, mc, gen in (('C32', 'conf', []), ('C33', 'conf', [net_gen('confs', 'conf', 3)]), ('C34', 'life', [net_gen('lives', 'life', {'quick': 9, 'thorough': 12}, {'quick': 600, 'thorough': 6000}), net_gen('again', 'again', 8)]),
                     ('C35', 'conf', []), ('C36', 'conf', []), ('C37', 'conf', [])):
    CHECKS[pid] = dict(mc=LIFE_MC if mc == 'life' else [net_mc('conf', {'quick': 2, 'thorough': 3})], gen=gen, harness='netreal', trace='T_Network', judge='Judge' + pid, jobs=4, shards=6, assumptions=NET_ASSUME)
CHECKS['C34']['init'] = 'LifeSt'
FWD_MC = dict(module='MC_Forward', workers=4, INVARIANT=['OneByOne', 'ConvSees', 'CellsSeeThePast', 'Bounded', 'Mirrored', 'LayersAdd', 'GateBetween', 'AttentionIsMean', 'Curves'],
              consts={'N': {'quick': 3, 'thorough': 4}})
CHECKS['C38'] = dict(mc=[FWD_MC], gen=[], harness='forward', trace='T_Forward', judge='JudgeC38', jobs=8, shards=6, assumptions=NET_ASSUME)
CHECKS['C39'] = dict(mc=CHECKS['C18']['mc'], gen=[], harness='endtoend', trace='T_EndToEnd', judge='JudgeC39', jobs=8, shards=8, assumptions=NET_ASSUME)


XT_INV = ['ResultIsOwn', 'ResultIsComplete', 'EachOnce', 'OnlyOpen']


def xt_consts(ops, sents):
    return {'MaxOps': ops, 'MaxSents': sents}


def xt_gen(name, ops, sents):
    return dict(name=name, module='MC_External', spec='CSpec', POSTCONDITION=['Write'], INVARIANT=['Collect'], consts=xt_consts(ops, sents))


CHECKS['C40'] = dict(mc=[dict(module='MC_External', consts=xt_consts({'quick': 5, 'thorough': 6}, 2), INVARIANT=XT_INV, workers=4),
                         dict(module='MC_External', consts=xt_consts({'quick': 3, 'thorough': 4}, 3), INVARIANT=XT_INV, workers=4)],
                     gen=[xt_gen('long', 5, 2), xt_gen('wide', 3, 3)], harness='external', trace='T_External', judge='JudgeC40', init='XInit', jobs=6, shards=6,
                     assumptions=['the wrapped package is not here: a stand-in has its interface, a real TensorFlow graph and a checkpoint; it leaves out empty sentences, numbers sentences in the order given and may form batches of any composition and order',
                                  'what a word keeps of annotations that are no column of the network is not specified'])
