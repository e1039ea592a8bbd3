"""Source of properties.jsonl (tools/gen_meta.py writes it out)."""

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))


prop("P01", "Archives return exactly the keyed arrays that were written",
     'Every sequence of (key, vector or matrix) pairs written to a text, binary Kaldi-style or HDF5 archive, in any batching of write calls, is read back with the same keys, shapes and values, sequentially in the order of writing (HDF5 archives read without a script list their keys by name) or for any requested keys in any order and repetition, whether through the archive or its script file and with any field separator. '
     'Values are bit-exact to single precision for binary and HDF5 storage and accurate to the six printed decimals for text. '
     'A missing key raises an error, or yields an empty array when the reader is permissive, resetting a sequential reader restarts it from the first record, and the shapes, lengths and dimensions asked for are those of the arrays. '
     'What was written before a flush (or each write, with flushing writers) or before closing is complete on disk in the archive and its script, and a record that the writer refuses leaves the other records readable.',
     ["inputs", "histories", "configurations"],
     "All key lists, array shapes (including empty and single-element), values, write batchings, read batchings, key permutations/repetitions, storage formats, float precisions, specifier spellings and permissive/strict modes.",
     "The tests read a few fixed files and one fixed random dataset per format, always with full-size batches; they cannot cover arbitrary shapes, value ranges, batchings, key orders and option combinations.",
     ["hyperion/io/data_writer.py", "hyperion/io/ark_data_writer.py", "hyperion/io/h5_data_writer.py",
      "hyperion/io/ark_data_reader.py", "hyperion/io/h5_data_reader.py", "hyperion/io/rw_specifiers.py",
      "hyperion/io/data_rw_factory.py", "hyperion/utils/kaldi_matrix.py", "hyperion/utils/kaldi_io_funcs.py"],
     [("ArkDataWriter.write / H5DataWriter.write", "hyperion/io/ark_data_writer.py, hyperion/io/h5_data_writer.py"),
      ("Sequential*/RandomAccess* readers", "hyperion/io/ark_data_reader.py, hyperion/io/h5_data_reader.py"),
      ("specifier parsing and factories", "hyperion/io/rw_specifiers.py, hyperion/io/data_rw_factory.py")],
     ["values returned by reader.read()", "files on disk"])

prop("P02", "Partial reads equal slices of the full matrix",
     'Reading a stored matrix with a row offset and a number of rows (scalars or one per utterance), or through a script file whose entries carry a row range, or both combined, returns exactly the corresponding rows of the full matrix, for every storage format, compressed or not. '
     'Requests for more rows than there are from the offset are rejected, and the shapes and row counts that readers report without loading the data equal those of the arrays that a full read returns.',
     ["inputs", "configurations"],
     "All matrices, row offsets and counts within bounds, script ranges, compression methods, sequential and random-access readers.",
     "The tests use one offset pattern on fixed files; the arithmetic combining script range, offset and count has many corner cases (count 0 meaning 'to the end', last row, range of one row).",
     ["hyperion/io/ark_data_reader.py", "hyperion/io/h5_data_reader.py", "hyperion/utils/kaldi_matrix.py", "hyperion/utils/scp_list.py"],
     [("row-range combination", "hyperion/io/data_reader.py"), ("partial matrix decoding", "hyperion/utils/kaldi_matrix.py")],
     ["reader.read(..., row_offset, num_rows)", "reader.read_shapes / read_dims / read_num_rows"])

prop("P03", "Parallel partitions of a dataset cover every record exactly once",
     'Splitting a sequential reader, a list of utterances or a list of groups into N parts gives parts which together contain every record exactly once, for every N not larger than the number of units being divided, and whose sizes in units differ by at most one. '
     'Ungrouped parts concatenated in part order are the original sequence; when lists are split by group, no group straddles two parts and the records of a group keep their order.',
     ["inputs", "configurations"],
     "All dataset sizes, numbers of parts, group-size distributions and storage formats.",
     "Tests split fixed 10-100 item lists into 2-4 parts; uneven sizes, one-item parts and unusual group distributions are not reached.",
     ["hyperion/utils/list_utils.py", "hyperion/utils/scp_list.py", "hyperion/utils/utt2info.py", "hyperion/io/ark_data_reader.py", "hyperion/io/h5_data_reader.py"],
     [("split_list / split_list_group_by_key", "hyperion/utils/list_utils.py"), ("part_idx/num_parts handling in readers", "hyperion/io/ark_data_reader.py")],
     ["records delivered by each part"])

prop("P04", "Compressed matrices decode within the quantisation error of their format",
     "For each compression method, a matrix written compressed and read back has the same shape and every entry within the quantisation step that the format and the data range imply (values are clipped to the representable range for the fixed-range methods). "
     "Decoding a whole matrix and decoding a row range of it give identical values, and the archive and HDF5 back ends decode the same compressed data to the same values.",
     ["inputs", "configurations"],
     "All finite matrices (including constant columns, constant matrices, single rows, few rows, large ranges), all compression methods.",
     "Tests compare against pre-recorded files for one dataset; degenerate ranges and small row counts take different code paths and are not sampled.",
     ["hyperion/utils/kaldi_matrix.py", "hyperion/io/ark_data_writer.py", "hyperion/io/h5_data_writer.py"],
     [("KaldiCompressedMatrix.compress / to_matrix", "hyperion/utils/kaldi_matrix.py")],
     ["decoded matrices"])

prop("P05", "Script-file lists behave like ordered key-to-location maps",
     "Saving a script list and loading it back reproduces keys, file paths, byte offsets and row ranges. "
     "Splitting then merging is the identity, sorting permutes whole records, filtering keeps exactly the records selected (or exactly the others when inverted, by key, path or index), shuffling is a permutation, and lookup by key or by position returns the record of that key. "
     "Two lists compare equal exactly when all their records are equal.",
     ["inputs", "histories"],
     "All key/path lists with and without offsets and ranges, and all sequences of split, merge, sort, filter and shuffle operations.",
     "Unit tests run each operation once on a single fixed list.",
     ["hyperion/utils/scp_list.py"],
     [("SCPList", "hyperion/utils/scp_list.py")], ["SCPList public attributes and methods"])

prop("P06", "Utterance-attribute tables keep rows intact under every operation",
     "An utterance-to-attribute table loaded from what was saved equals the original, for any number of attribute columns. "
     "Sorting, filtering by key, by attribute value or by position (kept or inverted), splitting (optionally by group), merging and shuffling always move whole rows, so that each key keeps its own attributes, and lookups by key or position return them. "
     "The list helpers underneath (membership, sorting, intersection) return the right elements with their right positions.",
     ["inputs", "histories"],
     "All tables with one or more attribute columns and all operation sequences.",
     "Unit tests use a fixed two-column table and check single operations.",
     ["hyperion/utils/utt2info.py", "hyperion/utils/list_utils.py"],
     [("Utt2Info", "hyperion/utils/utt2info.py")], ["Utt2Info public attributes and methods"])

prop("P07", "Trial lists, keys and score matrices form a consistent relational algebra",
     'A trial index, trial key or score set saved to and loaded from HDF5 or text describes the same set of trials, labels and scores (text files hold the trials only). '
     'Sorting, filtering (kept or inverted), splitting into model/segment blocks and merging act on the set of (model, segment) entries: each surviving trial keeps its own label, score and per-trial conditions, splitting then merging restores the original, and conversion of a key to an index contains exactly the target and non-target trials. '
     'Equality holds exactly when the listed models, segments, trials, labels and scores are the same, merging score sets that score the same trial is rejected, and inconsistent inputs are rejected by validation.',
     ["inputs", "histories"],
     "All model/segment lists, all target/non-target/score masks, with or without model, segment and trial conditions, all numbers of parts, both storage formats.",
     "Tests run one fixed trial matrix through each operation and never exercise conditions together with split, merge and filter.",
     ["hyperion/utils/trial_ndx.py", "hyperion/utils/trial_key.py", "hyperion/utils/trial_scores.py", "hyperion/utils/list_utils.py"],
     [("TrialNdx/TrialKey/TrialScores", "hyperion/utils/trial_ndx.py, hyperion/utils/trial_key.py, hyperion/utils/trial_scores.py")],
     ["public attributes after each operation", "files written"])

prop("P08", "Scores are always attributed to the right trial",
     "Aligning a score set to a trial index or key puts the score of (model, segment) at that trial's position whatever the orders of the two lists, and marks a trial as scored only if it was scored; missing trials raise an error, or are filled with the requested value when asked for. "
     'Extracting target and non-target scores returns exactly the scores of trials labelled target and non-target, and score transformations touch only scored trials.',
     ["inputs"],
     "All score sets, keys and indexes with arbitrary order, supersets, missing models, segments or trials.",
     "Tests use a single matching pair of score and key.",
     ["hyperion/utils/trial_scores.py"],
     [("TrialScores.align_with_ndx / get_tar_non / set_missing_to_value / transform", "hyperion/utils/trial_scores.py")],
     ["aligned score matrices", "target and non-target score vectors"])

prop("P09", "Segment lists and diarization labels keep time and identity",
     'Segment lists and diarization turn files loaded from what was saved describe the same segments (recording, onset, offset or duration, label), and filtering, splitting, merging and lookup by segment, recording or position return exactly the matching rows in order. '
     'Segment-to-frame conversion marks as speech the frames inside segments and no others, to within one frame at the edges. '
     'Merging adjacent turns of a speaker keeps all its speech and fills only gaps up to the margin, removing overlaps splits each partial overlap at its middle, and speaker counts, names and activity matrices agree with the turns.',
     ["inputs", "histories"],
     "All sets of recordings and segments, labels, frame shifts and numbers of parts.",
     "Unit tests use small fixed lists and no round trip through files with arbitrary times and overlaps.",
     ["hyperion/utils/segment_list.py", "hyperion/utils/rttm.py"],
     [("SegmentList", "hyperion/utils/segment_list.py"), ("RTTM", "hyperion/utils/rttm.py")],
     ["SegmentList/RTTM public attributes", "files written"])

prop("P10", "Cross-validation folds and train/validation/evaluation lists are partitions",
     'For every requested number of folds, each segment is in the test part of exactly one fold and in the training part of all others; grouped folds never put two segments of one group (nested in its class when both are given) on different sides, and stratified folds keep class proportions as even as integer counts allow. '
     'Fold lists and train/validation/evaluation lists reproduce the assignments when saved and reloaded or aligned with a permuted key, their parts are disjoint and cover everything, and the same seed gives the same assignment.',
     ["inputs", "configurations"],
     "All segment lists, group labels, class labels, numbers of folds and seeds.",
     "Tests check one fixed list and one fold count.",
     ["hyperion/utils/fold_list.py", "hyperion/utils/train_val_eval_list.py"],
     [("FoldList.create", "hyperion/utils/fold_list.py"), ("TrainValEvalList.create", "hyperion/utils/train_val_eval_list.py")],
     ["get_fold / get_part results", "files written"])

prop("P11", "Error-rate metrics equal their definitions on every score set",
     'For any target and non-target scores, the miss and false-alarm rates of the ROC and of its convex hull, the area under the hull, the minimum detection cost over all thresholds, the actual detection cost at the Bayes threshold, the equal error rate on the convex hull, the precision-recall break-even point and the effective prior equal values computed directly from the definitions. '
     'They are invariant to reordering scores and (for minimum cost, EER and hull) to strictly increasing score transformations, the minimum cost never exceeds the actual cost nor the cost of the best default decision, and swapping classes with negated scores swaps the two error types.',
     ["inputs"],
     "All finite score vectors including ties, one-element classes, perfectly separated or reversed classes and all priors.",
     "Tests use well-behaved Gaussian samples or a few fixed vectors; ties and extreme priors are not sampled, and equalities with a brute-force oracle are not tested.",
     ["hyperion/metrics/roc.py", "hyperion/metrics/dcf.py", "hyperion/metrics/eer.py", "hyperion/metrics/utils.py"],
     [("compute_roc, compute_rocch", "hyperion/metrics/roc.py"), ("fast_eval_dcf_eer, compute_min_dcf, compute_act_dcf", "hyperion/metrics/dcf.py")],
     ["returned metrics"])

prop("P12", "Calibration metrics and isotonic regression are optimal and consistent",
     "The pool-adjacent-violators routine returns the monotone sequence closest in (weighted) squared error to its input together with the width and height of each constant block. "
     "Optimal log-likelihood ratios are non-decreasing in the scores and minimise the log-likelihood-ratio cost among monotone recalibrations, so the minimum cost never exceeds the actual cost, is unchanged by strictly increasing transformations, and the actual cost equals its definition.",
     ["inputs"],
     "All finite score vectors with ties, separation or inversion, and all priors.",
     "Tests compare to a handful of stored numbers.",
     ["hyperion/metrics/utils.py", "hyperion/metrics/cllr.py"],
     [("pavx, opt_loglr", "hyperion/metrics/utils.py"), ("compute_cllr, compute_min_cllr", "hyperion/metrics/cllr.py")],
     ["returned arrays and costs"])

prop("P13", "Confusion matrices and accuracies count what happened",
     'Entry (i, j) of a confusion matrix is the number (or per-true-class fraction when normalised) of samples of true class i predicted as j, for integer or string labels, any class order and with different class sets in rows and columns (cross-label), and the printed matrix shows the same entries. '
     'Accuracy equals the (weighted) fraction of correct predictions, and computing metrics does not modify the inputs.',
     ["inputs"],
     "All label sequences, class sets, weights and normalisation flags.",
     "Tests use one balanced example.",
     ["hyperion/metrics/confusion_matrix.py", "hyperion/metrics/acc.py"],
     [("compute_confusion_matrix, compute_xlabel_confusion_matrix", "hyperion/metrics/confusion_matrix.py"), ("compute_accuracy", "hyperion/metrics/acc.py")],
     ["returned matrices"])

prop("P14", "Matrix and log-domain helpers satisfy their algebraic identities",
     'Inverses, solvers, log-determinants and Cholesky factors of positive definite and positive-diagonal triangular matrices agree with dense linear algebra, and packing a symmetric or triangular matrix into a vector and unpacking it is the identity. '
     'Flooring a covariance returns a covariance not smaller than the floor in any direction that leaves directions already above it untouched. '
     'Log-sum-exp, softmax, sigmoid and log-sigmoids agree with high-precision evaluation without overflow, the Fisher ratio equals its definition, and integer labels convert to the matching one-hot rows.',
     ["inputs"],
     "All positive definite matrices of any dimension within floating-point reach, all log-probability vectors including -inf and large magnitudes, all label vectors.",
     "Tests use one random matrix per function.",
     ["hyperion/utils/math.py"],
     [("invert_pdmat, invert_trimat, fullcov_varfloor, symmat2vec, softmax, logsumexp ...", "hyperion/utils/math.py")],
     ["returned arrays"])

prop("P15", "Short-time Fourier analysis is exact and invertible",
     "The short-time spectrum of a signal equals the discrete Fourier transform of each windowed frame taken at the frame shift, with as many frames as fit, and short-time log energies equal the log of each frame's energy. "
     'The inverse transform with the same window recovers the signal wherever frames overlap with non-zero window weight, for real (even FFT length) and complex transforms, and analysis windows have the requested length, periodic or symmetric form and shape.',
     ["inputs", "configurations"],
     "All signals and all combinations of frame length, shift, FFT length and window type.",
     "Tests use one signal and two settings.",
     ["hyperion/feats/stft.py", "hyperion/feats/feature_windows.py"],
     [("stft/istft/strft/istrft/st_logE", "hyperion/feats/stft.py"), ("FeatureWindowFactory.create", "hyperion/feats/feature_windows.py")],
     ["returned arrays"])

prop("P16", "The acoustic feature pipeline is the composition of its stages",
     'Acoustic features computed from a waveform equal those obtained by entering the same pipeline at any later stage with the intermediate output (FFT, magnitude, log filter bank) and equal a direct evaluation of the definition of each stage for every configuration of frames, filters, cepstral order, liftering, energy and output stage. '
     'Feeding a waveform to a streaming extractor in consecutive chunks which start at multiples of the frame shift gives the same pre-emphasis and DC-offset removal as one call, and equal inputs with the same dither give equal outputs.',
     ["inputs", "histories", "configurations"],
     "All waveforms long enough for one frame and all valid configurations.",
     "Tests run a few configurations on one signal and mostly check that nothing crashes.",
     ["hyperion/feats/mfcc.py", "hyperion/feats/filter_banks.py", "hyperion/feats/feature_windows.py", "hyperion/feats/stft.py"],
     [("MFCC.compute", "hyperion/feats/mfcc.py"), ("FilterBankFactory.create", "hyperion/feats/filter_banks.py")],
     ["feature matrices"])

prop("P17", "Normalisation, energy VAD and frame selection act on exactly the stated frames",
     'Global and sliding-window mean/variance normalisation give every frame statistics computed from exactly the frames of its (possibly truncated) window, and all available algorithms agree. '
     'Energy voice-activity decisions equal the threshold-and-context-vote definition, with the DC-removal state carried from one chunk to the next until reset, and frame selection returns exactly the selected frames in order, tolerating at most the configured length mismatch. '
     'The options given on the command line are the ones that act.',
     ["inputs", "configurations"],
     "All feature matrices, left/right contexts (including infinite and longer than the utterance), VAD thresholds, contexts and proportions.",
     "Tests compare two implementations on one random matrix.",
     ["hyperion/feats/feature_normalization.py", "hyperion/feats/energy_vad.py", "hyperion/feats/frame_selector.py"],
     [("MeanVarianceNorm", "hyperion/feats/feature_normalization.py"), ("EnergyVAD.compute", "hyperion/feats/energy_vad.py"), ("FrameSelector.select", "hyperion/feats/frame_selector.py")],
     ["normalised features", "VAD decisions"])

prop("P18", "Gaussian models are consistent across parameterisations",
     'For full and diagonal Gaussians, mean, covariance, precision and natural parameters always describe the same distribution whichever set the model was built from, log-densities and (diagonal) cumulative probabilities equal reference values, and both density evaluation methods agree. '
     'Fitting gives the (weighted) sample mean and covariance (diagonal variances floored), sufficient statistics are additive over any batching and order of the data, and sampling is reproducible from a seed and matches the model moments.',
     ["inputs", "histories"],
     "All positive definite parameters, data sets, sample weights and batch sizes.",
     "Tests fit one data set per class.",
     ["hyperion/pdfs/core/pdf.py", "hyperion/pdfs/core/exp_family.py", "hyperion/pdfs/core/normal.py", "hyperion/pdfs/core/normal_diag_cov.py"],
     [("Normal / NormalDiagCov", "hyperion/pdfs/core/normal.py, hyperion/pdfs/core/normal_diag_cov.py"), ("ExpFamily accumulators", "hyperion/pdfs/core/exp_family.py")],
     ["model attributes", "log_prob values"])

prop("P19", "Mixture training never decreases likelihood and posteriors are consistent",
     'Every EM iteration of a Gaussian mixture (full, diagonal or tied covariance) whose variance floor is inactive leaves the average data log-likelihood no lower, keeps weights a probability distribution, and makes all later evaluations use the updated weights, means and covariances. '
     "Responsibilities sum to one and equal Bayes' rule, the mixture log-density equals the log-sum of weighted component densities under every evaluation method (including the n-best ones, over the listed components), and sufficient statistics, whole, by segment, by sliding window or normalised, equal their definitions and are additive over batches and sample weights. "
     'Splitting a component keeps its weight and mass centre, starved components are switched off, sampling follows the model, and initialisation puts one component on each separated group.',
     ["inputs", "histories", "configurations"],
     "All data sets, initialisations, numbers of components, covariance types, batch sizes, update flags and numbers of iterations.",
     "Tests train one mixture per class on data generated from the initial model, so weight updates and long EM histories go unchecked.",
     ["hyperion/pdfs/mixtures/exp_family_mixture.py", "hyperion/pdfs/mixtures/gmm.py", "hyperion/pdfs/mixtures/gmm_diag_cov.py", "hyperion/pdfs/mixtures/gmm_tied_diag_cov.py"],
     [("ExpFamilyMixture.fit/Estep/Mstep", "hyperion/pdfs/mixtures/exp_family_mixture.py")],
     ["log-likelihood trajectory", "posteriors", "model attributes"])

prop("P20", "PLDA scores are the true log-likelihood ratios of the model",
     'For every PLDA variant, the score of two vectors equals the log-ratio of the joint Gaussian likelihood under the same-speaker and different-speaker hypotheses computed by brute force from the model parameters, and multi-vector enrolment and test scores with the exact method equal the same ratio for the pooled vectors. '
     'Scores are symmetric in the two sides, do not depend on the order of vectors within or across speakers nor on which other trials are scored together, vector-averaging methods equal scoring the averages, score-averaging equals the average of scores, and precomputed statistics give the same scores. '
     'Scoring leaves its inputs unmodified.',
     ["inputs", "configurations"],
     "All valid model parameters, dimensions, subspace ranks, numbers of enrolment and test vectors per side, and scoring methods.",
     "Tests compare one model with stored values or only call the function.",
     ["hyperion/pdfs/plda/plda_base.py", "hyperion/pdfs/plda/frplda.py", "hyperion/pdfs/plda/splda.py", "hyperion/pdfs/plda/plda.py"],
     [("llr_1vs1 / llr_NvsM", "hyperion/pdfs/plda/*.py")],
     ["score matrices"])

prop("P21", "PLDA training is exact expectation-maximisation",
     'Every training iteration of every PLDA variant, with maximum-likelihood steps, minimum-divergence steps or both and no active floor, leaves the marginal likelihood of the training data no lower, the bound reported equals that exact marginal likelihood computed by brute force, and the posterior of each speaker variable equals Gaussian conditioning. '
     'Partial-update flags freeze exactly the parameters they name, results do not depend on the order of speakers or of vectors within a speaker, nor on how labels are given (indices or one-hot rows). '
     'Sampling follows the model, and the weighted average of models averages their parameters.',
     ["inputs", "histories", "configurations"],
     "All labelled data sets with speakers of unequal sizes, all subspace ranks, update flags and numbers of iterations.",
     "Tests train once on one balanced data set and check that it runs.",
     ["hyperion/pdfs/plda/plda_base.py", "hyperion/pdfs/plda/frplda.py", "hyperion/pdfs/plda/splda.py", "hyperion/pdfs/plda/plda.py"],
     [("Estep / elbo / MstepML / MstepMD", "hyperion/pdfs/plda/*.py")],
     ["elbo trajectory", "posterior means", "parameters"])

prop("P22", "Vector transforms equal their definitions and compose",
     'Fitting then applying a whitening, mean/variance, PCA, LDA, nearest-neighbour discriminant, within-class projection, length or Gaussianising transform yields data with the property that defines it (zero mean and unit covariance, unit or constant norm, decorrelated leading variance, maximal class separation, removed nuisance subspace, normal quantiles of the ranks), and between- and within-class scatter matrices, accumulated over any batching, equal their definitions. '
     'Applying a list of transforms equals applying each in order, every transform acts on each vector independently of the others in the batch, and none modifies its input.',
     ["inputs", "configurations"],
     "All data sets with enough vectors for the statistics to exist, all dimensions, class structures and update options.",
     "The repository's tests do not cover most transforms.",
     ["hyperion/transforms/transform_list.py", "hyperion/transforms/cent_whiten.py", "hyperion/transforms/lnorm.py", "hyperion/transforms/pca.py", "hyperion/transforms/lda.py", "hyperion/transforms/sb_sw.py", "hyperion/transforms/nda.py", "hyperion/transforms/mvn.py", "hyperion/transforms/nap.py", "hyperion/transforms/gaussianizer.py"],
     [("fit/predict of each transform", "hyperion/transforms/*.py")],
     ["transformed vectors"])

prop("P23", "Models survive saving and loading",
     'Every model or transform that is saved and loaded, trained or not, alone or inside a list or with other models sharing a file under different names, gives the same configuration and the same outputs on any data up to single precision, in HDF5 or, where offered, in MATLAB form. '
     'Loading by generic loader returns an object of the class that was saved.',
     ["inputs", "configurations"],
     "All model classes, configurations and trained parameters.",
     "Tests save one instance of a few classes; several loaders are never executed.",
     ["hyperion/hyp_model.py", "hyperion/pdfs/core", "hyperion/pdfs/mixtures", "hyperion/pdfs/plda", "hyperion/transforms", "hyperion/classifiers", "hyperion/calibration"],
     [("HypModel.save/load", "hyperion/hyp_model.py"), ("load_params of each class", "hyperion/pdfs, hyperion/transforms, hyperion/classifiers")],
     ["outputs of the loaded model"])

prop("P24", "Score normalisation equals its cohort-statistics definition",
     'Each score-normalisation method (T, Z, ZT, TZ, S, adaptive S) returns, for every trial, the raw score shifted and scaled by the mean and (floored) standard deviation of exactly the cohort scores that its definition names (all, masked-in, or the top-scoring ones after the discarded ones), and combined methods equal the composition or average of the simple ones. '
     'Results do not depend on cohort order or on which other trials are normalised together, are unchanged by a positive affine change applied to all scores, and inputs are not modified.',
     ["inputs", "configurations"],
     "All score matrices, cohort sizes, masks and top-N settings.",
     "The repository has no test of score normalisation.",
     ["hyperion/score_norm/score_norm.py", "hyperion/score_norm/t_norm.py", "hyperion/score_norm/z_norm.py", "hyperion/score_norm/zt_norm.py", "hyperion/score_norm/tz_norm.py", "hyperion/score_norm/s_norm.py", "hyperion/score_norm/adapt_s_norm.py"],
     [("predict of each normaliser", "hyperion/score_norm/*.py")],
     ["normalised scores"])

prop("P25", "Back-end classifiers and calibrators compute the posteriors of their models",
     "Gaussian, uncertainty-propagating, Q-scoring and linear discriminative back-ends return log-likelihoods, posteriors and likelihood ratios equal to direct evaluation of the fitted model (maximum-likelihood, MAP, Bayesian or predictive, with hard, soft or weighted labels), with posteriors summing to one and equal to Bayes' rule under the stated priors. "
     'Logistic regression with class priors minimises the prior-weighted regularised cross-entropy, and support vector machines their regularised hinge loss, so that no perturbation of the parameters reduces it; Gaussian calibration is the affine map of the maximum-likelihood Gaussians, its unsupervised iterations never lower the likelihood, and with positive slope it preserves the order of scores. '
     'Permuting samples or classes permutes results accordingly.',
     ["inputs", "configurations"],
     "All labelled data sets with at least the minimum samples per class, priors, regularisation strengths and evaluation methods.",
     "The repository tests only one Gaussian back-end path.",
     ["hyperion/classifiers/linear_gbe.py", "hyperion/classifiers/linear_gbe_up.py", "hyperion/classifiers/logistic_regression.py", "hyperion/classifiers/binary_logistic_regression.py", "hyperion/classifiers/linear_svmc.py", "hyperion/calibration/gauss_calibration.py"],
     [("fit / predict", "hyperion/classifiers/*.py")],
     ["predicted scores and posteriors"])

prop("P26", "Clustering returns valid partitions that follow the merge criterion",
     'Agglomerative clustering with average, complete, single, weighted or (for distances) Ward linkage over similarities (log-likelihood ratios, probabilities) or distances merges, at every step, the closest pair of clusters under that linkage, masked-out pairs last; its flat clusters for a threshold (merges that reach it, inclusive) or a number of clusters are nested partitions labelled from zero along the merge sequence, and relabelling the items relabels the result. '
     'Impurity, dispersion, homogeneity and completeness of every partition of the tree equal their definitions. '
     'Each K-means iteration assigns every point to its nearest centroid and moves the centroids to the means, from farthest-point seeds, with the loss never increasing.',
     ["inputs", "configurations"],
     "All score or distance matrices without ties (and with), linkage types, thresholds and data sets.",
     "Tests run a fixed small example.",
     ["hyperion/clustering/ahc.py", "hyperion/clustering/kmeans.py"],
     [("AHC.fit / get_flat_clusters", "hyperion/clustering/ahc.py"), ("KMeans.fit", "hyperion/clustering/kmeans.py")],
     ["linkage matrix", "flat labels", "loss trajectory"])

prop("P27", "Vector and trial readers deliver the listed data with the right labels",
     'Readers that combine archives of vectors with lists of utterances, classes or trials return each listed vector with the class or trial it is listed with, honour minimum and maximum counts per class and sequential or random splitting into sub-classes, and are reproducible from their seed. '
     'Reading a trial evaluation in model and segment parts yields sub-blocks whose assembly equals reading it in one part, for enrolment lists with one or several vectors per model, tests split in sub-segments, cohorts and classification trials. '
     'The same options given on the command line act the same.',
     ["inputs", "configurations"],
     "All vector sets, class structures, limits, numbers of parts and seeds.",
     "Tests use one balanced data set, one seed and a single part.",
     ["hyperion/helpers/vector_reader.py", "hyperion/helpers/vector_class_reader.py", "hyperion/helpers/trial_data_reader.py", "hyperion/helpers/multi_test_trial_data_reader.py", "hyperion/helpers/classif_trial_data_reader.py"],
     [("read() of each helper", "hyperion/helpers/*.py")],
     ["returned arrays, labels, trial indexes"])

prop("P28", "Training-batch generators sample correctly labelled data and are reproducible",
     'Every batch that a sequence reader or generator yields contains sub-sequences that are contiguous rows of the listed utterance (or its ordered random samples when asked for), with the class label of that utterance and a sample weight that marks its real frames, and with lengths within the configured bounds. '
     'Over a pass every eligible utterance is visited equally often (in proportion to its number of sub-sequences in the unbalanced sequential mode, and replicated as class balancing asks), pruned utterances are never used, and the requested number of examples per class and per utterance is honoured. '
     'The same seed, resetting or starting from a later epoch reproduces the same batches, and the parts of a list cover it once.',
     ["inputs", "histories", "configurations"],
     "All utterance length distributions, class structures, batch sizes, length bounds, weighting, shuffling and reset options.",
     "Tests use one data set and mostly inspect shapes of the first batches.",
     ["hyperion/generators/sequence_batch_generator_v1.py", "hyperion/generators/sequence_batch_generator_v2.py"],
     [("read() / reset()", "hyperion/generators/*.py")],
     ["batches over whole epochs"])

prop("P29", "Audio segments read back as the samples that were stored",
     'Waveforms written to audio files and read through the audio readers, sequentially or by key, whole or by listed segment, directly or through a pipe, return the same samples at the same sampling rate and requested scale to within the sample quantisation of the file format, for every time offset and duration. '
     'Segments that start after the end of their recording are rejected, and splitting an audio reader into parts covers every recording or segment exactly once.',
     ["inputs", "configurations"],
     "All waveforms, sampling rates, segment tables, batch sizes and numbers of parts.",
     "The repository has no test of audio reading by segment.",
     ["hyperion/io/audio_reader.py", "hyperion/io/audio_writer.py"],
     [("SequentialAudioReader / RandomAccessAudioReader", "hyperion/io/audio_reader.py"), ("AudioWriter.write", "hyperion/io/audio_writer.py")],
     ["returned samples and rates", "files on disk"])

prop("P30", "Copying, splitting and merging feature archives preserves content",
     'Copying features between archive formats keeps every key and matrix in order (compressing them as asked), merging several inputs appends them in order, and copying in parallel parts or chunks gives together the same content as copying at once. '
     'Merging HDF5 files yields the union of their contents, and the fields, slices and random samples read from HDF5 files of several fields per key are the stored rows.',
     ["inputs", "configurations"],
     "All feature sets, numbers of inputs, numbers of parts, chunk sizes and output formats.",
     "Tests copy one fixed archive.",
     ["hyperion/io/copy_feats.py", "hyperion/io/h5_merger.py"],
     [("CopyFeats", "hyperion/io/copy_feats.py"), ("H5Merger", "hyperion/io/h5_merger.py")],
     ["files written"])

prop("P31", "Command-line options reach the components they configure",
     'For every component that adds options to a command line and filters them back (readers, writers, generators, feature extractors, transforms, PLDA and classifiers), parsing any combination of its options and filtering the result gives exactly the arguments its constructor takes: every option that was given arrives with its value, every option that was not has the documented default, negative options switch their feature off, and true/false options understand both. '
     'Several components on one command line, told apart by prefixes, receive their own options and nothing of the others, and values of the wrong type or outside the choices are refused.',
     ["inputs", "configurations"],
     "All subsets, orders and values of the options of each component, with and without prefix, and all combinations of components.",
     "No test parses a command line.",
     ["hyperion/io/data_rw_factory.py", "hyperion/helpers/", "hyperion/generators/", "hyperion/feats/", "hyperion/classifiers/", "hyperion/transforms/"],
     [("add_argparse_args / filter_args", "hyperion/*/*.py")],
     ["arguments passed to constructors"])

prop("P32", "The command-line programs write what the library computes from their inputs",
     'Each command-line program that needs no neural-network toolkit (feature extraction, voice activity detection and its conversions, copying, merging and converting archives, training of transforms, PLDA and classifiers, scoring of trials and segments, score normalisation, performance, Gaussian-mixture posteriors) runs with every combination of its options and writes exactly the result that the library gives for its inputs: '
     'the trained model is the one fitted to the listed vectors after the pre-processing chain and with the requested options, saved alone or appended to the chain, every score is filed under its own model or class and segment, whatever the order of the input lists and archives, and running the parts of a job gives together the result of running it at once. '
     'Options can also come from a file, output directories are created, and inputs are not modified.',
     ["inputs", "configurations"],
     "All input archives and lists in any order and format, combinations of options, and numbers of parts.",
     "No test runs a program.",
     ["hyperion/bin/", "hyperion/helpers/", "hyperion/io/kaldi_data_reader.py"],
     [("programs", "hyperion/bin/*.py")],
     ["files written by the programs"])

prop("P33", "Extended segment lists keep segments, identities and series together",
     'An extended segment list relates segments (file, begin and end time) to extended segments (the name and score of an identity) and files to series. Creating a list from arrays or from a segment list and loading what was saved give these three tables back (times and scores to the three printed decimals), and the name and score given for each segment are those of its own extended segment. '
     'Filtering, splitting, looking up and iterating by file, series, extended segment or segment keep exactly the selected segments, each with its times, file, series, name and score, and merging the parts gives back the list. '
     'Merging adjacent segments joins exactly the maximal runs of consecutive segments of one file and one name, up to the given number per run, diarization labels made from a list carry its files, times, names and scores, and speaker-tracking readers return the enrolment and test vectors and trials that the lists name.',
     ["inputs", "histories", "configurations"],
     "All lists of files, segments, identities and series (also numeric names, unnamed and unscored identities), all units of selection, numbers of parts and run lengths.",
     "No test touches these classes.",
     ["hyperion/utils/ext_segment_list.py", "hyperion/utils/rttm.py", "hyperion/helpers/tracking_data_reader.py", "hyperion/utils/trial_ndx.py"],
     [("ExtSegmentList", "hyperion/utils/ext_segment_list.py"), ("TrackingDataReader.read", "hyperion/helpers/tracking_data_reader.py")],
     ["ExtSegmentList public attributes and methods", "arrays returned by TrackingDataReader.read()"])

prop("P34", "Plots draw the distributions and matrices they are given",
     'The one-dimensional plot of a Gaussian is its density over the stated number of standard deviations around its mean, the surface plot is the density of the two requested features over that interval, and ellipses and ellipsoids are the points at the stated number of standard deviations (Mahalanobis distance) from the mean. '
     'Plots of a mixture draw every component with its own mean and covariance, restricted to the requested features. '
     'Plots of confusion matrices show each entry in its own cell, rows labelled with the true and columns with the predicted classes.',
     ["inputs", "configurations"],
     "All means, covariances, numbers of components and points, feature choices and confusion matrices.",
     "Tests write figures to files that nobody compares.",
     ["hyperion/utils/plotting.py", "hyperion/pdfs/core/normal.py", "hyperion/pdfs/core/normal_diag_cov.py", "hyperion/pdfs/mixtures/gmm.py",
      "hyperion/pdfs/mixtures/gmm_diag_cov.py", "hyperion/pdfs/mixtures/gmm_tied_diag_cov.py", "hyperion/metrics/confusion_matrix.py"],
     [("plot_gaussian_*", "hyperion/utils/plotting.py"), ("plot_confusion_matrix", "hyperion/metrics/confusion_matrix.py")],
     ["lines, surfaces and texts in the figure"])

prop("P35", "Data-directory tools keep the same utterances in every file",
     'Fixing a data directory leaves exactly the utterances that are in all of its narrowing files (and whose recordings and speakers are listed), the same in every file, sorted and once, with the speaker map derived from them and the original contents in the backup; fixing twice changes nothing. '
     'Combining directories joins, for every file that all the sources have, exactly their lines (making one-to-one segments and identities where only some sources have them), and leaves the sources as they are. '
     'A subset by list, speakers, number per speaker, first, last, shortest or number has exactly the utterances asked for with all that the source says about them; tools that remove short utterances (fewer than the minimum of frames), speakers with few utterances or utterances without activity labels remove those and nothing else. '
     'Filtering trials prints the lines of the listed models and segments unchanged and in order, activity labels made in parallel jobs list every utterance once in order, and the device picker names as many different free devices as requested or fails.',
     ["inputs", "configurations"],
     "All directories (any subset of files, missing and extra entries, repeated and unsorted lines, with and without segments), all options, numbers of jobs and devices.",
     "No test runs the shell tools.",
     ["hyp_utils/fix_data_dir.sh", "hyp_utils/combine_data.sh", "hyp_utils/subset_data_dir.sh", "hyp_utils/remove_short_utts.sh", "hyp_utils/remove_spk_few_utts.sh",
      "hyp_utils/remove_utts_wo_vad.sh", "hyp_utils/filter_trials.awk", "hyp_utils/rttm_to_bin_vad.sh", "hyp_utils/segments_to_bin_vad.sh", "hyp_utils/free-gpu"],
     [("fix_data_dir.sh", "hyp_utils/fix_data_dir.sh"), ("combine_data.sh", "hyp_utils/combine_data.sh"), ("subset_data_dir.sh", "hyp_utils/subset_data_dir.sh"),
      ("filter_trials.awk", "hyp_utils/filter_trials.awk")],
     ["files of the directories, exit codes and output of the programs"])

prop("P36", "Factor analysis of mixture statistics matches its Gaussian model",
     'For the total-variability model, in which the frames of every mixture component of a recording are Gaussian around the projection of one factor, posterior means and covariances of the factor, the accumulated moments and the likelihood computed from the component counts and first-order statistics of a recording are those of the joint Gaussian distribution of its frames, whatever the other recordings, also with fractional counts. '
     'Training is exact expectation-maximisation: each maximum-likelihood and minimum-divergence step, alone or together and in the epochs asked for, is the maximiser of its objective, the reported training and validation likelihoods are those of the models of each epoch, and the training likelihood never falls. '
     'Likelihoods do not change under rotation of the factor, normalised loadings explain whitened statistics as the loadings explain the original ones, saved models come back, and inputs are not modified.',
     ["inputs", "configurations", "histories"],
     "All factor loadings, counts (whole and fractional, also zero), statistics, numbers of components, dimensions, recordings and epochs, and kinds of step.",
     "No test touches the class.",
     ["hyperion/pdfs/jfa/jfa_total.py"],
     [("JFATotal.compute_py_g_x", "hyperion/pdfs/jfa/jfa_total.py"), ("JFATotal.fit", "hyperion/pdfs/jfa/jfa_total.py")],
     ["arrays returned by compute_py_g_x, Estep and fit", "JFATotal.T"])

prop("P37", "Hidden Markov models compute the probabilities of their state sequences",
     'Given the log-likelihoods of every frame in every state, the forward and backward values, state posteriors, expected transition counts, log-likelihood and one-step predictions of a hidden Markov model equal the sums over all state sequences, for frame likelihoods of any magnitude. Decoding returns the most probable sequence with its log-probability, and with more than one requested, the best sequence for each of the best last states in order. '
     'Training re-estimates the initial and transition probabilities from the expected counts of all the sequences, only those asked for, keeps them distributions, keeps forbidden transitions (mask, left-to-right) at zero and tied transitions tied, reports the likelihoods of the models of each epoch, and without tying never lowers the likelihood. '
     'Sampled sequences are one state per step and follow the initial and transition probabilities, the same for the same seed, and saved models come back with their configuration.',
     ["inputs", "configurations", "histories"],
     "All initial and transition probabilities (also zeros), frame log-likelihoods, lengths, numbers of states and sequences, and training options.",
     "No test touches the class.",
     ["hyperion/pdfs/hmm/hmm.py", "hyperion/utils/math.py"],
     [("HMM.forward / backward / compute_pz", "hyperion/pdfs/hmm/hmm.py"), ("HMM.viterbi_decode", "hyperion/pdfs/hmm/hmm.py"), ("HMM.fit", "hyperion/pdfs/hmm/hmm.py")],
     ["arrays returned by forward, backward, compute_pz, log_predictive, viterbi_decode, sample and fit", "HMM.pi, HMM.trans"])

prop("P38", "Learning-rate schedules give every batch its stated rate",
     'During the warm-up the rate of every parameter group grows linearly, batch by batch, from its minimum to its base rate; after it the exponential schedule holds the base rate and then multiplies it by the decay rate every decay epochs (or batches, gradually in between), the cosine schedules anneal it to the minimum along half a cosine per period, with periods multiplied and restart rates scaled as configured (when updated by batch, periods are rounded up to whole epochs), and the plateau schedule multiplies it by the factor after more epochs than the patience without an improvement beyond the threshold, then waits for the cool-down; never below the minimum rate of the group. '
     'A schedule whose state is saved after an epoch and loaded into a new one continues as if it had not been stopped. '
     'Schedules made from command-line options or by the factory are those of the options, and settings that make no sense are refused.',
     ["inputs", "histories", "configurations"],
     "All schedules, settings, numbers of parameter groups, batches, epochs, histories of monitored metrics and points of interruption.",
     "No test touches the schedules.",
     ["hyperion/torch/lr_schedulers/lr_scheduler.py", "hyperion/torch/lr_schedulers/exp_lr.py", "hyperion/torch/lr_schedulers/cos_lr.py",
      "hyperion/torch/lr_schedulers/red_lr_on_plateau.py", "hyperion/torch/lr_schedulers/factory.py"],
     [("LRScheduler.batch_step", "hyperion/torch/lr_schedulers/lr_scheduler.py"), ("CosineLR.get_lr", "hyperion/torch/lr_schedulers/cos_lr.py"),
      ("ReduceLROnPlateau", "hyperion/torch/lr_schedulers/red_lr_on_plateau.py"), ("LRSchedulerFactory", "hyperion/torch/lr_schedulers/factory.py")],
     ["learning rates of the parameter groups of the optimizer before each batch", "state_dict of the schedule"])

prop("P39", "Training runs log what happened and resume from their last checkpoint",
     'The trainer runs every epoch over all the batches, updating the model in training mode after each, and evaluates it in evaluation mode without changing it; the losses and metrics that it logs are averages over the samples of the epoch, and the rates are those of the schedule. '
     'A training stopped at any batch and started again from its last checkpoint ends with the model, optimizer, schedule, checkpoints and log of an uninterrupted one, and saved models hold their configuration and parameters. '
     'Loggers receive every event once, in order; the CSV log has one line per epoch under one header, readable after each epoch, appended or replaced as configured; progress lines appear at every interval with the right counts, metrics and durations.',
     ["inputs", "histories", "crash_points", "configurations"],
     "All numbers of epochs and batches (of different sizes), accumulation lengths, metrics, loggers, schedules and batches at which a training is stopped.",
     "No test touches the trainer or the loggers.",
     ["hyperion/torch/torch_trainer.py", "hyperion/torch/torch_model.py", "hyperion/torch/loggers/loggers.py", "hyperion/torch/loggers/csv_logger.py",
      "hyperion/torch/loggers/prog_logger.py", "hyperion/torch/utils/metric_acc.py"],
     [("TorchTrainer.fit / load_last_checkpoint", "hyperion/torch/torch_trainer.py"), ("CSVLogger", "hyperion/torch/loggers/csv_logger.py"),
      ("ProgLogger", "hyperion/torch/loggers/prog_logger.py"), ("MetricAcc", "hyperion/torch/utils/metric_acc.py")],
     ["parameters of the model", "checkpoints", "log files and lines of the log"])

prop("P40", "Network building blocks are what their configuration says",
     'Categorical accuracy is the (weighted) proportion of samples whose largest score is at their class, and binary accuracy the proportion of decisions (probability over the threshold, or logit over the logit of the threshold) that agree with the targets, as means, sums or per sample. '
     'An activation, optimizer or fully connected network made from its name, configuration or command-line options is the one named with every setting in its place, a network is the composition of its layers (normalisation, affine transform, activation, dropout), and a configuration taken from an activation or network makes the same again. '
     'One-dimensional dropout removes whole channels in training and nothing otherwise, and the devices made visible are those named, or as many free ones as asked for.',
     ["inputs", "configurations"],
     "All scores, targets, weights and reductions, activations, optimizers and their settings, network configurations and device lists.",
     "No test touches these modules.",
     ["hyperion/torch/metrics/accuracy.py", "hyperion/torch/metrics/accuracy_functional.py", "hyperion/torch/helpers/activation_factory.py",
      "hyperion/torch/helpers/optimizer_factory.py", "hyperion/torch/archs/fcnet.py", "hyperion/torch/layers/dropout.py", "hyperion/torch/utils/devices.py"],
     [("categorical_accuracy / binary_accuracy", "hyperion/torch/metrics/accuracy_functional.py"), ("ActivationFactory.create", "hyperion/torch/helpers/activation_factory.py"),
      ("OptimizerFactory.create", "hyperion/torch/helpers/optimizer_factory.py"), ("FCNetV1.forward", "hyperion/torch/archs/fcnet.py")],
     ["returned values, modules and their attributes", "CUDA_VISIBLE_DEVICES"])

prop("P41", "Frames, spliced contexts and padded tensors hold the samples of their positions",
     'Framing a signal returns, in order, the windows of the given length every shift samples that fit in the signal, padded on the stated side by the configured mode; splicing returns, for every shift frames, the frames at the stated offsets around it, concatenated in order of offset, also past the ends when padding is configured. '
     'Arranging vectors by class or sequences of frames by sequence in a three-dimensional array keeps them in their order with weight one, followed by zeros with weight zero, in the requested or the smallest sufficient length. '
     'Inputs are not modified and results do not depend on the signals seen before.',
     ["inputs", "configurations"],
     "All signals (vectors and matrices of any type and memory layout), frame lengths and shifts, contexts, padding modes up to the length of the signal, class and sequence lengths.",
     "No test touches these modules; two of them did not compile.",
     ["hyperion/utils/framing.py", "hyperion/utils/splicing.py", "hyperion/utils/tensors.py"],
     [("Framing.create_frames", "hyperion/utils/framing.py"), ("Splicing.splice", "hyperion/utils/splicing.py"), ("to3D_by_class / to3D_by_seq", "hyperion/utils/tensors.py")],
     ["returned arrays"])

prop("P42", "Data queues and shared generators deliver the data once and in order",
     'Threads that share a thread-safe generator get every item exactly once, each thread in order, and all of them see its end; a queue of a generator delivers only its items, none twice, in order with one worker, never more than the queue size and the items in the hands of the workers ahead of the consumer, and a queue of a sequence delivers its elements in order whichever worker ends first, or all of them once per round when shuffled. '
     'An error in a worker ends the consumer (a queue of a sequence hands it the error) and stopping ends the workers; nobody waits for ever. '
     'Worker processes draw from different, repeatable random streams.',
     ["inputs", "schedules", "configurations", "fault_sequences"],
     "All numbers of threads, workers, items and queue sizes, delays of the workers, items (also None) and points of failure.",
     "No test touches the queues.",
     ["hyperion/utils/multithreading.py", "hyperion/utils/queues.py", "hyperion/io/queues.py"],
     [("ThreadSafeIter", "hyperion/utils/multithreading.py"), ("GeneratorQueue", "hyperion/io/queues.py"), ("OrderedQueue", "hyperion/io/queues.py")],
     ["items returned by the queues, threads alive"])

prop("P43", "Keras layers compute their statistics, densities and divergences",
     'Every layer of the Keras part gives, for each item of a batch, the quantity it is named after, in every format of its parameters it offers (natural or mean, variance, precision, log, logit): weighted and masked statistics over time, dictionary encoding, products of Gaussian posteriors, covariances and constants, divergences, likelihoods, samples with the stated mean and covariance, scores of identities, cepstra and activations; frames of weight or mask zero and the other items of the batch do not count. '
     'The output shape a layer announces is that of its output, a layer made from its configuration (also inside a saved model) gives the same output, and inputs are not modified. '
     'Functions that the backends lack (inverse, Cholesky factor, diagonal, maximum with mask) satisfy their definitions with either backend.',
     ["inputs", "configurations"],
     "All batches, lengths, weights, masks, dimensions, parameter formats and options of the layers, losses, constraints and backend functions.",
     "No test touches the Keras part.",
     ["hyperion/keras/layers/pooling.py", "hyperion/keras/layers/cov.py", "hyperion/keras/layers/losses.py", "hyperion/keras/layers/sampling.py", "hyperion/keras/layers/scoring.py",
      "hyperion/keras/layers/core.py", "hyperion/keras/layers/feats.py", "hyperion/keras/layers/tensor_manipulation.py", "hyperion/keras/losses.py", "hyperion/keras/objectives.py", "hyperion/keras/constraints.py",
      "hyperion/keras/backend_addons/theano_backend.py", "hyperion/keras/backend_addons/tensorflow_backend.py"],
     [("GlobalWeightedMeanStdPooling1D.call", "hyperion/keras/layers/pooling.py"), ("GlobalDiagNormalPostStdPriorPooling1D.call", "hyperion/keras/layers/pooling.py"), ("NormalSampler.call", "hyperion/keras/layers/sampling.py"),
      ("CatQScoringDiagNormalPostStdPrior.call", "hyperion/keras/layers/scoring.py"), ("KLDivNormalVsDiagNormal.call", "hyperion/keras/layers/losses.py")],
     ["outputs and output shapes of the layers", "configurations"])

prop("P44", "Sequence embeddings in Keras do not depend on how a sequence is cut or padded",
     'The embedding, posterior or class scores that a sequence embedding network gives for a recording are those of the network and the pooling applied to the whole recording without the frames of the configured begin and end contexts, whatever the length of the chunks it is processed by, the reduction of frames in the encoder and the last short chunk, provided the contexts cover the receptive field. '
     'In training, the outputs for each sequence of a padded batch depend on its frames that are not zero only, with the losses, weights and frozen layers asked for. '
     'A saved model, or one made from command-line options, has the same configuration and outputs.',
     ["inputs", "configurations"],
     "All recordings longer than their contexts, chunk lengths, contexts, encoders with any receptive field and reduction, poolings, parameter formats, embedding layers and options.",
     "No test touches the Keras part; the embeddings of long recordings were wrong.",
     ["hyperion/keras/embed/seq_embed.py", "hyperion/keras/embed/seq_embed_lde.py", "hyperion/keras/embed/seq_q_embed.py", "hyperion/keras/embed/seq_meta_embed.py", "hyperion/keras/vae/tied_dvae_qy.py"],
     [("SeqEmbed.predict_embed", "hyperion/keras/embed/seq_embed.py"), ("SeqQEmbed.predict_embed / predict_eval", "hyperion/keras/embed/seq_q_embed.py"), ("TiedDVAE_QY.build", "hyperion/keras/vae/tied_dvae_qy.py")],
     ["returned embeddings, posteriors and scores", "model files"])

prop("P45", "Keras training programs train, schedule, save and resume as configured",
     'The training programs hand Keras the data of the listed recordings with their classes, the optimizer, loss and frozen layers of the options, and write the model that was trained; the extraction and evaluation programs write, for each recording in order, what the model gives for it. '
     'Over any history of the monitored metric, models are saved at the epochs that improve it in its direction (or at all, every period), the last one saved is found again to go on with, and the learning rate follows the steps given, or falls after the configured number of epochs without improvement and rises with improvement, within its limits and pauses. '
     'Losses evaluated by batches are those of each sample.',
     ["inputs", "histories", "configurations", "programs"],
     "All histories of metrics (also missing ones), directions, patience, pauses and limits, options of optimizers and callbacks, batch sizes, and the training, extraction and evaluation programs of sequence embeddings.",
     "No test touches the Keras part; several of its programs failed.",
     ["hyperion/keras/callbacks/lr_schedulers.py", "hyperion/keras/callbacks/checkpointers.py", "hyperion/keras/helpers/callbacks_factory.py", "hyperion/keras/helpers/optimizer_factory.py", "hyperion/keras/keras_model_loader.py", "hyperion/keras/keras_utils.py",
      "hyperion/bin/keras-train-cat-seq-embed-gen-v1.py", "hyperion/bin/keras-train-cat-seq-embed-gen-v2.py", "hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py", "hyperion/bin/keras-train-cat-seq-q-embed.py", "hyperion/bin/keras-train-cat-tied-dvae.py",
      "hyperion/bin/keras-extract-seq-embed.py", "hyperion/bin/keras-extract-seq-q-embed.py", "hyperion/bin/keras-eval-seq-embed.py", "hyperion/bin/keras-eval-seq-q-embed.py"],
     [("ReduceLROnPlateauIncreaseOnImprovement.on_epoch_end", "hyperion/keras/callbacks/lr_schedulers.py"), ("HypModelCheckpoint.on_epoch_end", "hyperion/keras/callbacks/checkpointers.py"), ("KerasModelLoader.load_checkpoint", "hyperion/keras/keras_model_loader.py"),
      ("train_embed", "hyperion/bin/keras-train-cat-seq-embed-gen-v2.py")],
     ["learning rates, saved models", "data and options that arrive at Keras", "files written"])

prop("P46", "Keras network architectures compute the composition of their configuration within the context they state",
     'A network built by one of the Keras architectures (feed-forward, time-delay with its residual, transposed and embedding-input variants, two-dimensional convolutional, VGG and residual networks) is the composition of the layers its options ask for: as many blocks as given, each normalised, convolved or multiplied with its size, dilation and strides, activated and dropped out in that order, residual blocks added to their (projected) input, with one output for each number of output units. '
     'Every layer has its stated name, initializers, regularizers and constraints; the output has the shape announced, and a network that is saved gives the same output when it is read back. '
     'The context returned with a time-delay or residual network is the number of frames on each side that an output depends on (kernels of odd size). The networks named after publications have the layers of these, for any input shape, number of filters and other option given.',
     ["inputs", "configurations"],
     "All architectures and their options (lists or single values), numbers of layers and units, kernel sizes, dilations, strides, padding, poolings, activations and inputs.",
     "No test touches the Keras part; several architectures could not be built, and one left out layers.",
     ["hyperion/keras/archs/tdnn.py", "hyperion/keras/archs/ffnet.py", "hyperion/keras/archs/convnet.py", "hyperion/keras/archs/vgg.py", "hyperion/keras/archs/resnet.py"],
     [("TDNNV1 / ResTDNNV1 / TDNNV1Transpose", "hyperion/keras/archs/tdnn.py"), ("FFNetV1", "hyperion/keras/archs/ffnet.py"), ("TDConv2DNetV1", "hyperion/keras/archs/convnet.py"), ("TDVGGNetV1", "hyperion/keras/archs/vgg.py"), ("ResNetV1", "hyperion/keras/archs/resnet.py")],
     ["outputs, shapes, layers and contexts of the networks", "model files"])
