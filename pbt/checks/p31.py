"""P31: command-line options reach the components they configure."""
import argparse
import contextlib
import inspect
import io

from pbt.core import *
from hyperion.io import (DataWriterFactory as DWF, SequentialDataReaderFactory as SDRF, RandomAccessDataReaderFactory as RDRF,
                         CopyFeats, SequentialAudioReader)
from hyperion.io.audio_reader import AudioReader
from hyperion.helpers import (VectorReader, VectorClassReader, TrialDataReader, ClassifTrialDataReader,
                              SequenceReader, SequencePostReader, PLDAFactory)
from hyperion.helpers.multi_test_trial_data_reader import MultiTestTrialDataReader
from hyperion.generators.sequence_batch_generator_v1 import SequenceBatchGeneratorV1
from hyperion.generators.sequence_batch_generator_v2 import SequenceBatchGeneratorV2
from hyperion.classifiers import LinearGBE, BinaryLogisticRegression, LogisticRegression, LinearSVMC, QScoringHomoGBE
from hyperion.transforms import CentWhiten, PCA, Gaussianizer
from hyperion.feats import MFCC, MeanVarianceNorm, FrameSelector
from hyperion.feats.energy_vad import EnergyVAD

RULE = 'at least two options are given'

I, F, S = 'int', 'float', 'str'
SEPS = [' ', ',', '=', '\t']
METHODS = ['auto', 'speech-feat', '2byte-auto', '2byte-signed-integer', '1byte-auto', '1byte-unsigned-integer', '1byte-0-1']


def o(opt, kw, default, kind):
    """kind: int/float/str, a list of choices, 'flag' (kw becomes True), 'neg' (kw becomes False), 'bool', 'ints', 'auto'"""
    return dict(opt=opt, kw=kw, default=default, kind=kind)


PARTS = [o('part-idx', 'part_idx', 1, I), o('num-parts', 'num_parts', 1, I)]
SCP = [o('scp-sep', 'scp_sep', ' ', SEPS)]
PATH = [o('path-prefix', 'path_prefix', None, S)]
COMP = [o('compress', 'compress', False, 'flag'), o('compression-method', 'compression_method', 'auto', METHODS)]
TLIST = [o('tlist-sep', 'tlist_sep', ' ', SEPS), o('model-part-idx', 'model_idx', 1, I), o('num-model-parts', 'num_model_parts', 1, I),
         o('seg-part-idx', 'seg_idx', 1, I), o('num-seg-parts', 'num_seg_parts', 1, I)]
EVALSET = [o('eval-set', 'eval_set', 'enroll-test', ['enroll-test', 'enroll-coh', 'coh-test', 'coh-coh'])]
FRAMES = [o('sample-frequency', 'fs', 16000, I), o('frame-length', 'frame_length', 25, I), o('frame-shift', 'frame_shift', 10, I),
          o('dither', 'dither', 1, F), o('snip-edges', 'snip_edges', True, 'bool')]
SEQ_EVAL = [o('scp-sep', 'scp_sep', '=', SEPS), o('seq-field', 'seq_field', '', S)] + PARTS
SEQ = SEQ_EVAL + [o('no-shuffle-seqs', 'shuffle_seqs', True, 'neg'), o('subsample', 'subsample', 100, F),
                  o('min-seq-length', 'min_seq_length', 1, I), o('max-seq-length', 'max_seq_length', None, I),
                  o('seq-split-mode', 'seq_split_mode', 'random_slice', ['sequential', 'random_slice', 'random_samples', 'random_slice_1seq', 'random_samples_1seq']),
                  o('seq-split-overlap', 'seq_split_overlap', 0, I), o('seqr-seed', 'seqr_seed', 1024, I)]
GEN = SCP + PARTS + [o('path-prefix', 'path_prefix', '', S), o('batch-size', 'batch_size', 128, I), o('class-list', 'class_list', None, S),
                     o('iters-per-epoch', 'iters_per_epoch', 'auto', 'auto'), o('min-seq-length', 'min_seq_length', None, I),
                     o('max-seq-length', 'max_seq_length', None, I), o('prune-min-length', 'prune_min_length', 0, I),
                     o('class-weight', 'class_weight', None, ['balanced', 'unbalanced']), o('init-epoch', 'init_epoch', 0, I), o('sg-seed', 'sg_seed', 1024, I)]
NAME = lambda d: [o('name', 'name', d, S)]
LR = [o('penalty', 'penalty', 'l2', ['l2', 'l1']), o('lambda-reg', 'lambda_reg', 1e-5, F), o('no-use-bias', 'use_bias', True, 'neg'),
      o('bias-scaling', 'bias_scaling', 1.0, F), o('lr-seed', 'lr_seed', 1024, I), o('solver', 'solver', 'lbfgs', ['newton-cg', 'lbfgs', 'liblinear', 'sag', 'saga']),
      o('max-iter', 'max_iter', 100, I), o('dual', 'dual', False, 'flag'), o('tol', 'tol', 1e-4, F), o('verbose', 'verbose', 0, I),
      o('no-warm-start', 'warm_start', True, 'neg')] + NAME('lr')
CW = [o('update-mu', 'update_mu', True, 'bool'), o('update-t', 'update_T', True, 'bool')]
MODEL = [o('model-file', 'model_file', None, 'required')]


def c(name, add, filt, ctor, opts, extra=()):
    return name, dict(add=add, filter=filt, ctor=ctor, opts=opts, extra=list(extra))


# ctor: callable whose parameters the filtered options have to name (None: the options are consumed by the programs)
COMPONENTS = dict([
    c('copy_feats', CopyFeats.add_argparse_args, CopyFeats.filter_args, CopyFeats, SCP + PATH + PARTS + COMP),
    c('writer', DWF.add_argparse_args, DWF.filter_args, DWF.create, SCP + COMP),
    c('seq_reader', SDRF.add_argparse_args, SDRF.filter_args, SDRF.create, SCP + PATH + PARTS),
    c('random_reader', RDRF.add_argparse_args, RDRF.filter_args, RDRF.create, SCP + PATH),
    c('audio_seq', SequentialAudioReader.add_argparse_args, SequentialAudioReader.filter_args, SequentialAudioReader, PARTS + [o('wav-scale', 'wav_scale', 2. ** 15, F)]),
    c('vector_reader', VectorReader.add_argparse_args, VectorReader.filter_args, VectorReader, [o('vlist-sep', 'vlist_sep', ' ', SEPS)]),
    c('vector_class_reader', VectorClassReader.add_argparse_args, VectorClassReader.filter_args, VectorClassReader, [
        o('vlist-sep', 'vlist_sep', ' ', SEPS), o('class2int-file', 'class2int_file', None, S), o('min-spc', 'min_spc', 1, I), o('max-spc', 'max_spc', None, I),
        o('spc-pruning-mode', 'spc_pruning_mode', 'random', ['random', 'first', 'last']), o('csplit-min-spc', 'csplit_min_spc', 1, I),
        o('csplit-max-spc', 'csplit_max_spc', None, I), o('csplit-mode', 'csplit_mode', 'random', ['sequential', 'random', 'random_1part']),
        o('csplit-overlap', 'csplit_overlap', 0, I), o('no-csplit-once', 'csplit_once', True, 'neg'), o('vcr-seed', 'vcr_seed', 1024, I)]),
    c('trials', TrialDataReader.add_argparse_args, TrialDataReader.filter_args, TrialDataReader, TLIST + EVALSET),
    c('multi_test_trials', MultiTestTrialDataReader.add_argparse_args, MultiTestTrialDataReader.filter_args, MultiTestTrialDataReader, TLIST + EVALSET),
    c('classif_trials', ClassifTrialDataReader.add_argparse_args, ClassifTrialDataReader.filter_args, ClassifTrialDataReader, [
        o('v-field', 'v_field', '', S), o('seg-part-idx', 'seg_idx', 1, I), o('num-seg-parts', 'num_seg_parts', 1, I)]),
    c('sequence_reader', SequenceReader.add_argparse_args, SequenceReader.filter_args, SequenceReader, SEQ),
    c('sequence_reader_eval', SequenceReader.add_argparse_eval_args, SequenceReader.filter_eval_args, SequenceReader, SEQ_EVAL),
    c('sequence_post_reader', SequencePostReader.add_argparse_args, SequencePostReader.filter_args, (SequencePostReader, SequenceReader), SEQ + [o('num-comp', 'num_comp', 2048, I)]),
    c('sequence_post_reader_eval', SequencePostReader.add_argparse_eval_args, SequencePostReader.filter_eval_args, (SequencePostReader, SequenceReader), SEQ_EVAL + [o('num-comp', 'num_comp', 2048, I)]),
    c('generator_v1', SequenceBatchGeneratorV1.add_argparse_args, SequenceBatchGeneratorV1.filter_args, SequenceBatchGeneratorV1, GEN + [
        o('gen-method', 'gen_method', 'random', ['full_seqs', 'sequential', 'random']), o('seq-overlap', 'seq_overlap', 0, I),
        o('seq-weight', 'seq_weight', 'balanced', ['balanced', 'unbalanced'])]),
    c('generator_v2', SequenceBatchGeneratorV2.add_argparse_args, SequenceBatchGeneratorV2.filter_args, SequenceBatchGeneratorV2, GEN + [
        o('num-egs-per-class', 'num_egs_per_class', 1, I), o('num-egs-per-utt', 'num_egs_per_utt', 1, I)]),
    c('plda_train', PLDAFactory.add_argparse_train_args, PLDAFactory.filter_train_args, PLDAFactory.create_plda, [
        o('plda-type', 'plda_type', 'splda', ['frplda', 'splda', 'plda']), o('y-dim', 'y_dim', 150, I), o('z-dim', 'z_dim', 400, I), o('diag-W', 'fullcov_W', True, 'neg'),
        o('no-update-mu', 'update_mu', True, 'neg'), o('no-update-V', 'update_V', True, 'neg'), o('no-update-U', 'update_U', True, 'neg'),
        o('no-update-B', 'update_B', True, 'neg'), o('no-update-w', 'update_W', True, 'neg'), o('no-update-d', 'update_D', True, 'neg'), o('floor-id', 'floor_iD', 1e-5, F)] + NAME('plda'),
        [o('epochs', 'epochs', 40, I), o('ml-md', 'ml_md', 'ml+md', ['ml+md', 'ml', 'md']), o('md-epochs', 'md_epochs', None, 'ints')]),
    c('plda_eval', PLDAFactory.add_argparse_eval_args, PLDAFactory.filter_eval_args, PLDAFactory.load_plda, [o('plda-type', 'plda_type', 'splda', ['frplda', 'splda', 'plda'])] + MODEL),
    c('gbe_train', LinearGBE.add_argparse_train_args, LinearGBE.filter_train_args, LinearGBE, [
        o('no-update-mu', 'update_mu', True, 'neg'), o('no-update-W', 'update_W', True, 'neg'), o('balance-class-weight', 'balance_class_weight', False, 'flag'),
        o('prior', 'prior', None, S), o('prior-beta', 'prior_beta', 16, F), o('prior-nu', 'prior_nu', 16, F), o('post-beta', 'post_beta', None, F), o('post-nu', 'post_nu', None, F)] + NAME('lgbe')),
    c('gbe_eval', LinearGBE.add_argparse_eval_args, LinearGBE.filter_eval_args, None, MODEL + [
        o('normalize', 'normalize', False, 'flag'), o('eval-method', 'eval_method', 'linear', ['linear', 'llk', 'predictive'])]),
    c('binary_lr', BinaryLogisticRegression.add_argparse_train_args, BinaryLogisticRegression.filter_train_args, BinaryLogisticRegression, LR + [o('prior', 'prior', 0.1, F)]),
    c('lr_train', LogisticRegression.add_argparse_train_args, LogisticRegression.filter_train_args, LogisticRegression, LR + [
        o('multi-class', 'multi_class', 'ovr', ['ovr', 'multinomial']), o('num-jobs', 'num_jobs', 1, I)]),
    c('lr_eval', LogisticRegression.add_argparse_eval_args, LogisticRegression.filter_eval_args, None, MODEL + [o('eval-type', 'eval_type', 'logit', ['logit', 'log-post', 'post'])]),
    c('svm_train', LinearSVMC.add_argparse_train_args, LinearSVMC.filter_train_args, LinearSVMC, [
        o('penalty', 'penalty', 'l2', ['l2', 'l1']), o('c', 'C', 1.0, F), o('loss', 'loss', 'squared_hinge', ['hinge', 'squared_hinge']), o('no-use-bias', 'use_bias', True, 'neg'),
        o('bias-scaling', 'bias_scaling', 1.0, F), o('lr-seed', 'lr_seed', 1024, I), o('max-iter', 'max_iter', 100, I), o('no-dual', 'dual', True, 'neg'), o('tol', 'tol', 1e-4, F),
        o('multi-class', 'multi_class', 'ovr', ['ovr', 'crammer_singer']), o('verbose', 'verbose', 0, I), o('balance-class-weight', 'balance_class_weight', False, 'flag')] + NAME('svc')),
    c('svm_eval', LinearSVMC.add_argparse_eval_args, LinearSVMC.filter_eval_args, None, MODEL + [
        o('eval-type', 'eval_type', 'logit', ['logit', 'bin-logpost', 'bin-post', 'cat-logpost', 'cat-post'])]),
    c('q_train', QScoringHomoGBE.add_argparse_train_args, QScoringHomoGBE.filter_train_args, QScoringHomoGBE, [
        o('balance-class-weight', 'balance_class_weight', False, 'flag'), o('prior', 'prior', None, S), o('prior-n', 'prior_N', None, F), o('post-n', 'post_N', None, F)] + NAME('q_scoring')),
    c('q_eval', QScoringHomoGBE.add_argparse_eval_args, QScoringHomoGBE.filter_eval_args, None, MODEL + [o('normalize', 'normalize', False, 'flag')]),
    c('cent_whiten', CentWhiten.add_argparse_args, CentWhiten.filter_args, CentWhiten, CW + NAME('lnorm')),
    c('pca', PCA.add_argparse_args, PCA.filter_args, PCA, CW + [o('pca-dim', 'pca_dim', None, I)] + NAME('pca')),
    c('gaussianizer', Gaussianizer.add_argparse_args, Gaussianizer.filter_args, Gaussianizer, [o('max-vectors', 'max_vectors', None, I)] + NAME('gauss')),
    c('mfcc', MFCC.add_argparse_args, MFCC.filter_args, MFCC, FRAMES + [
        o('fft-length', 'fft_length', 512, I), o('remove-dc-offset', 'remove_dc_offset', True, 'bool'), o('preemphasis-coeff', 'preemph_coeff', 0.97, F),
        o('window-type', 'window_type', 'povey', ['hamming', 'hanning', 'povey', 'rectangular', 'blackman']), o('use-fft2', 'use_fft2', True, 'bool'),
        o('fb-type', 'fb_type', 'mel_kaldi', ['mel_kaldi', 'mel_etsi', 'linear']), o('low-freq', 'low_freq', 20, F), o('high-freq', 'high_freq', 0, F),
        o('num-filters', 'num_filters', 23, I), o('norm-filters', 'norm_filters', False, 'bool'), o('num-ceps', 'num_ceps', 13, I), o('energy-floor', 'energy_floor', 0, F),
        o('raw-energy', 'raw_energy', True, 'bool'), o('use-energy', 'use_energy', True, 'bool'), o('cepstral-lifter', 'cepstral_lifter', 22, F),
        o('input-step', 'input_step', 'wave', ['wave', 'fft', 'fft_mag', 'log_spec', 'logfb']), o('output-step', 'output_step', 'cepstrum', ['fft', 'fft_mag', 'log_spec', 'logfb', 'cepstrum'])]),
    c('vad', EnergyVAD.add_argparse_args, EnergyVAD.filter_args, EnergyVAD, FRAMES + [
        o('vad-energy-mean-scale', 'vad_energy_mean_scale', 0.5, F), o('vad-energy-threshold', 'vad_energy_threshold', 5, F), o('vad-frames-context', 'vad_frames_context', 0, I),
        o('vad-proportion-threshold', 'vad_proportion_threshold', 0.6, F)]),
    c('cmvn', MeanVarianceNorm.add_argparse_args, MeanVarianceNorm.filter_args, MeanVarianceNorm, [
        o('no-norm-mean', 'norm_mean', True, 'neg'), o('norm-var', 'norm_var', False, 'flag'), o('left-context', 'left_context', 300, I), o('right-context', 'right_context', 300, I)]),
    c('frame_selector', FrameSelector.add_argparse_args, FrameSelector.filter_args, FrameSelector, [o('tol-num-frames', 'tol_num_frames', 3, I)]),
])
NAMES = sorted(COMPONENTS)


def params(ctor):
    """names of the parameters and their defaults"""
    d = {}
    for f in (ctor if isinstance(ctor, tuple) else (ctor,)):
        for n, p in inspect.signature(f).parameters.items():
            if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY):
                d.setdefault(n, p.default)
            elif p.kind == p.VAR_KEYWORD:
                d['**'] = True
    return d


@st.composite
def value_st(draw, kind):
    if isinstance(kind, list):
        return draw(st.sampled_from(kind))
    if kind == I:
        return draw(st.integers(0, 5000))
    if kind == F:
        return draw(st.sampled_from([0.0, 0.25, 1.0, 2.5, 7.0, 1e-3, 0.999, 16.0]))
    if kind == 'bool':
        return draw(st.sampled_from(['true', 'false', 'True', 'False', 'yes', 'no', 't', 'f', 'y', 'n', 'TRUE']))
    if kind == 'ints':
        return draw(st.lists(st.integers(0, 40), min_size=1, max_size=4))
    if kind == 'auto':
        return draw(st.sampled_from(['auto', 3, 100]))
    if kind in ('flag', 'neg'):
        return None
    return draw(st.sampled_from(['a', 'x/y.h5', 'Some-Name', 'b c', 'f.txt']))


@st.composite
def component_st(draw, names=NAMES):
    n = draw(st.sampled_from(names))
    os_ = COMPONENTS[n]['opts'] + COMPONENTS[n]['extra']
    idx = draw(st.lists(st.integers(0, len(os_) - 1), unique=True, max_size=len(os_)))
    for i, x in enumerate(os_):
        if x['kind'] == 'required' and i not in idx:
            idx = [i] + idx
    return dict(name=n, prefix=draw(st.sampled_from([None, None, 'val', 'x', 'my_net'])), given=[[i, draw(value_st(os_[i]['kind'])), draw(st.booleans())] for i in idx])


def argv(k):
    os_ = COMPONENTS[k['name']]['opts'] + COMPONENTS[k['name']]['extra']
    p = '--' if k['prefix'] is None else '--' + k['prefix'] + '-'
    a = []
    for i, v, joined in k['given']:
        if os_[i]['kind'] in ('flag', 'neg'):
            a.append([p + os_[i]['opt']])
        elif os_[i]['kind'] == 'ints':
            a.append([p + os_[i]['opt']] + [str(x) for x in v])
        elif joined:
            a.append([p + os_[i]['opt'] + '=' + str(v)])
        else:
            a.append([p + os_[i]['opt'], str(v)])
    return a


def wanted(k):
    """values of the keywords of the component"""
    os_ = COMPONENTS[k['name']]['opts'] + COMPONENTS[k['name']]['extra']
    w = {x['kw']: x['default'] for x in os_}
    for i, v, _ in k['given']:
        x = os_[i]
        w[x['kw']] = {'flag': True, 'neg': False}.get(x['kind']) if x['kind'] in ('flag', 'neg') else \
            (v.lower() in ('true', 'yes', 't', 'y') if x['kind'] == 'bool' else float(v) if x['kind'] == F else v)
    return w


def parse(ks):
    p = argparse.ArgumentParser(fromfile_prefix_chars='@')
    for k in ks:
        COMPONENTS[k['name']]['add'](p, **({} if k['prefix'] is None else dict(prefix=k['prefix'])))
    a = sum(sum((argv(k) for k in ks), []), [])
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err):
            return vars(p.parse_args(a))
    except SystemExit:
        raise Violation('%s: the options %s are refused: %s' % ([k['name'] for k in ks], a, err.getvalue().strip().split('\n')[-1]))


def check(k, args):
    comp = COMPONENTS[k['name']]
    before = dict(args)
    d = comp['filter'](prefix=k['prefix'], **args)
    eq(args, before, '%s: the options after filtering' % k['name'])
    w = wanted(k)
    kinds = {x['kw']: x['kind'] for x in comp['opts']}
    extra = {x['kw'] for x in comp['extra']}
    if comp['ctor'] is None:
        eff = d
    else:
        sig = params(comp['ctor'])
        bad = [n for n in d if n not in sig and '**' not in sig]
        require(not bad, '%s does not take the arguments %s that its options give', k['name'], bad)
        eff = {n: v for n, v in sig.items() if n != '**'}
        eff.update(d)
    for n, v in w.items():
        if n in extra:   # used by the program itself
            p = '' if k['prefix'] is None else k['prefix'] + '_'
            eq(args.get(p + n), v, '%s: option %s' % (k['name'], n))
            continue
        require(n in eff, '%s: %s is not passed on', k['name'], n)
        require(kinds[n] != I or eff[n] is None or isinstance(eff[n], int), '%s: %s is %r, not an integer', k['name'], n, eff[n])
        require(eff[n] == v and (v is None) == (eff[n] is None) and isinstance(eff[n], bool) == isinstance(v, bool), '%s: %s is %r, want %r', k['name'], n, eff[n], v)


@sub('P31', component_st(), quick=900, nontrivial=lambda k: len(k['given']) >= 2)
def options(k, ctx):
    """the options of a component give its constructor the values of the command line, and the documented defaults for the rest"""
    ctx.label(k['name'], 'prefix' if k['prefix'] else 'no prefix')
    check(k, parse([k]))


@st.composite
def several_st(draw):
    n = draw(st.integers(2, 3))
    ks = [draw(component_st()) for _ in range(n)]
    for k, p in zip(ks, draw(st.permutations(['val', 'train', 'x', 'xx', 'a', 'a_b']))):
        k['prefix'] = p
    return dict(ks=ks)


@sub('P31', several_st(), quick=400, nontrivial=lambda k: sum(len(c['given']) for c in k['ks']) >= 2)
def prefixes(k, ctx):
    """components on one command line take their own options and no other's"""
    ks = k['ks']
    p = [c['prefix'] for c in ks]
    # prefixes that start another one would make "--a-b-c" ambiguous only if a component had an option "b-c"; none has
    args = parse(ks)
    for c in ks:
        check(c, args)


@st.composite
def wrong_st(draw):
    k = draw(component_st())
    os_ = COMPONENTS[k['name']]['opts'] + COMPONENTS[k['name']]['extra']
    cand = [i for i, x in enumerate(os_) if isinstance(x['kind'], list) and x['kind'] is not SEPS or x['kind'] in (I, F, 'bool', 'ints')]
    k['given'] = [g for g in k['given'] if os_[g[0]]['kind'] == 'required']
    k['bad'] = draw(st.sampled_from(cand)) if cand else None
    return k


@sub('P31', wrong_st(), quick=200, nontrivial=lambda k: k['bad'] is not None)
def wrong_values(k, ctx):
    """values of the wrong type or not among the choices are refused"""
    if k['bad'] is None:
        return
    os_ = COMPONENTS[k['name']]['opts'] + COMPONENTS[k['name']]['extra']
    x = os_[k['bad']]
    k['given'].append([k['bad'], ['zz'] if x['kind'] == 'ints' else 'zz', False])
    try:
        parse([k])
    except Violation:
        return
    raise Violation('%s: --%s zz is accepted' % (k['name'], x['opt']))


@sub('P31', component_st(names=['cmvn', 'plda_train', 'gbe_train', 'lr_train', 'binary_lr', 'mfcc', 'vad', 'sequence_reader', 'vector_class_reader', 'svm_train', 'generator_v1', 'generator_v2']), quick=200)
def partial_dictionaries(k, ctx):
    """a dictionary that has only some of the options (a program that defines fewer) gives only those"""
    comp = COMPONENTS[k['name']]
    args = parse([k])
    r = rng(len(json.dumps(k)))
    parser = argparse.ArgumentParser()
    comp['add'](parser, **({} if k['prefix'] is None else dict(prefix=k['prefix'])))
    dash = '--' if k['prefix'] is None else '--' + k['prefix'] + '-'
    keep = {n: v for n, v in args.items() if r.rand() < .6}
    d = comp['filter'](prefix=k['prefix'], **keep)
    w = wanted(k)
    for x in comp['opts']:
        if parser._option_string_actions[dash + x['opt']].dest in keep:
            eq(d.get(x['kw']), w[x['kw']], '%s: %s' % (k['name'], x['kw']))
        else:
            require(x['kw'] not in d, '%s: %s appears from nowhere', k['name'], x['kw'])
