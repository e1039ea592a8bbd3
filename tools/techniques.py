"""Deciding method and level note of each check (tools/gen_meta.py puts them in MANIFEST.json)."""
H = 'property-based testing (Hypothesis, shrinking to a replay file): '
N = 'Bounds of the generated cases are in DESIGN.md. '
TECH = {
    'P01': (H + 'round trip against a list model of the write history', N + 'Up to 7 records of up to 9x6 values, plus records around the file-buffer boundaries; flush and close are judged on copies of the files.'),
    'P02': (H + 'differential, partial read against the slice of the full read', N + 'Matrices up to 14 rows, every compression method, several archives behind one script.'),
    'P03': (H + 'invariant over all the parts (disjoint cover, order, balance), every number of parts for small lists', N + 'Lists up to some hundred elements.'),
    'P04': (H + 'quantisation-error bound per format; differential between whole, partial, archive and HDF5 decoding', N + 'Up to 60x6 values with degenerate ranges.'),
    'P05': (H + 'stateful, operation sequences against a list of rows', N + 'Histories of up to a dozen operations, model compared after each.'),
    'P06': (H + 'stateful, operation sequences against a list of rows', N + 'Histories of up to a dozen operations, model compared after each.'),
    'P07': (H + 'stateful, operation sequences against a dictionary of (model, segment) entries; file round trips', N + 'Up to 6 models by 7 segments.'),
    'P08': (H + 'reference model: dictionary of scores per trial', N + 'Up to 6 models by 7 segments, missing and unscored entries.'),
    'P09': (H + 'stateful, operation sequences against lists of rows; brute-force coverage of time', N + 'Up to some 20 segments or turns.'),
    'P10': (H + 'partition invariants and per-class balance', N + 'Up to some 60 segments.'),
    'P11': (H + 'brute force over all the thresholds; metamorphic relations', N + 'Up to some 60 scores with ties and infinities.'),
    'P12': (H + 'min-max characterisation of isotonic regression; definition in extended precision; optimality by perturbation', N + 'Up to some 60 scores with ties.'),
    'P13': (H + 'counting loops', N + 'Up to 6 classes.'),
    'P14': (H + 'dense linear algebra and extended precision', N + 'Matrices up to 8x8 with controlled condition numbers.'),
    'P15': (H + 'direct DFT per frame; round trip', N + 'Signals of up to a few hundred samples.'),
    'P16': (H + 'stage-by-stage reference; differential between entry points of the pipeline', N + 'Known finding: the grid of the Mel filters (mel_grid).'),
    'P17': (H + 'per-frame reference loops', N + 'Up to a few hundred frames.'),
    'P18': (H + 'dense linear algebra, scipy densities, sample moments', N + 'Up to 5 dimensions.'),
    'P19': (H + "Bayes' rule by brute force; monotone likelihood over EM histories with the parameters checked after each step", N + 'Up to 5 components of up to 4 dimensions.'),
    'P20': (H + 'explicit joint Gaussian likelihoods of all the vectors of a trial', N + 'Up to 5 dimensions and 4 vectors per side.'),
    'P21': (H + 'explicit joint Gaussian: bound, posteriors and monotone likelihood over EM histories', N + 'Up to 4 dimensions and 6 speakers.'),
    'P22': (H + 'defining properties of the transforms in dense linear algebra', N + 'Up to 6 dimensions.'),
    'P23': (H + 'save/load round trip: parameters, options, outputs and continued training', N + 'Every class with a save and a load that can be built.'),
    'P24': (H + 'per-trial loops; metamorphic relations', N + 'Up to some 10 by 10 trials and as many cohort vectors.'),
    'P25': (H + 'direct evaluation of the models; optimality by gradient and perturbation', N + 'Up to 4 classes of up to 4 dimensions.'),
    'P26': (H + 'naive agglomeration and naive Lloyd iterations', N + 'Up to some 15 points.'),
    'P27': (H + 'model of the listed data', N + 'Up to 5 classes of 9 vectors; up to 5 models by 6 segments.'),
    'P28': (H + 'model of the listed data; invariants over the epochs; every length and first row drawn within many batches', N + 'Up to 9 utterances of up to 30 rows, three epochs.'),
    'P29': (H + 'round trip within the resolution of the audio format', N + 'Up to 6 recordings of up to 400 samples in 18 formats.'),
    'P30': (H + 'round trip and differential against direct writing', N + 'Up to 12 records.'),
    'P31': (H + 'differential, parsed options against constructor arguments', N + 'Every class with add_argparse_args and filter_args that imports.'),
    'P32': (H + 'differential, files written by each program against the library on the same inputs', N + 'The programs under hyperion/bin that run without Keras or PyTorch.'),
    'P33': (H + 'list of rows; time coverage; the listed vectors', N + 'Up to some 12 segments.'),
    'P34': (H + 'drawn coordinates against the defining equations', N + 'Matplotlib artists are inspected with the Agg back end.'),
    'P35': (H + 'differential against a set model of the directory', N + 'Kaldi programs are replaced by stand-ins with their documented behaviour; the scripts run as an unprivileged user in a scratch directory.'),
    'P36': (H + 'explicit joint Gaussian of frames and factor; exact EM steps', N + 'Up to 4 components of 3 dimensions, 4 factors, 9 recordings of up to 12 frames, 6 epochs.'),
    'P37': (H + 'enumeration of all state sequences', N + 'Up to 4 states and 6 frames (enumerated), 4 sequences, 4 epochs.'),
    'P38': (H + 'the rate of every batch from the formulas, over whole training histories and interruptions', N + 'Up to 3 parameter groups, 5 batches, some 12 epochs. PyTorch is replaced by a stand-in on numpy.'),
    'P39': (H + 'the same training written out; injected failures at any batch, then resumption; logs parsed back', N + 'Linear models of 3 inputs, up to 5 epochs of 5 batches. PyTorch is replaced by a stand-in on numpy.'),
    'P40': (H + 'definitions written out in numpy, layer by layer', N + 'Up to 3 hidden layers of 4 units. PyTorch is replaced by a stand-in on numpy.'),
    'P41': (H + 'loops over positions', N + 'Up to 40 samples of 3 dimensions, frames of 9, contexts of 4; 12 vectors, 6 sequences.'),
    'P42': (H + 'invariants over the deliveries of threads with generated delays and failures', N + 'Up to 4 workers, some 30 items; schedules are sampled by delays, not enumerated.'),
    'P43': (H + 'definitions written out in numpy, item by item; round trip through the configuration', N + 'Up to 4 items of some 6 frames of 4 dimensions. Keras and its backends are replaced by stand-ins on numpy.'),
    'P44': (H + 'metamorphic: chunked against whole recordings, padded batches against single sequences; round trip through files and options', N + 'Up to some 50 frames of 3 dimensions, encoders of two convolutions. Keras is replaced by a stand-in on numpy.'),
    'P45': (H + 'reference model over histories of metrics; data, options and files of the programs against those given', N + 'Up to 25 epochs for the callbacks, 3 epochs of 6 recordings for the programs; Keras is replaced by a stand-in on numpy that does not train.'),
    'P46': (H + 'reference composition of the layers in numpy from the configuration, with weights made from the names of the layers; influence of frames found with NaN; round trip through files', N + 'Up to 3 blocks, 8 frames (60 for contexts), 3 units; the large published networks are built and not run. Keras is replaced by a stand-in on numpy, dropout and normalisation as in the test phase.'),
}
