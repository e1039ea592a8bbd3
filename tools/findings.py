"""Genuine defects recorded rather than repaired."""
KNOWN = [
    dict(property='P16', status='known', sub='mel_grid', case=dict(nfft=512, fs=16000),
         what='FilterBankFactory.make_mel_kaldi evaluates the triangular filters at j*fs/(fft_length-1) instead of the DFT bin '
              'frequencies j*fs/fft_length (repairing it would change the features every trained model expects)'),
]
