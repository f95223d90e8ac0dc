"""D01: prompts are kept, decodes end cleanly."""
import numpy as np
from core import Sub, require
from checks import dec_common as dc

BUDGET = (30, 1500)


def check(case, rec):
  b, l, eos, nd = case['b'], case['l'], case['eos'], case['nd']
  for d in case['data']:
    r = dc.run_sample(case, d)
    dec, lp, x = r['dec'], r['lp'], r['x']
    require(dec.shape == (b, nd, l) and lp.shape == (b, nd), f'shape {dec.shape} {lp.shape}')
    require(np.isfinite(lp).all(), f'scores {lp}')
    require(((dec >= 0) & (dec < case['v'])).all(), f'out of vocabulary: {dec}')
    for i in range(b):
      p = d['lens'][i]
      for j in range(nd):
        seq, lim = dec[i, j], r['limit'][i]
        ctx = f'row {i}.{j}: prompt {x[i].tolist()} limit {lim} eos {eos} -> {seq.tolist()}'
        require((seq[:p] == x[i, 1:1 + p]).all(), 'prompt changed; ' + ctx)
        gen = seq[p:lim]
        require((seq[lim:] == 0).all(), 'generated past the limit; ' + ctx)
        ends = np.flatnonzero(gen == eos)
        if len(ends):
          require((gen[ends[0] + 1:] == 0).all(), 'tokens after end-of-sequence; ' + ctx)
          body = gen[:ends[0]]
        else:
          body = gen
        if not d['pad']:
          require((body != 0).all(), 'decode stopped early; ' + ctx)
        rec.nontrivial(p > 0 and lim < l or len(ends) and ends[0] + 1 < len(gen) or (lim > p > 0))
        rec.label('ended by eos', len(ends))
        rec.label('step limit inside buffer', lim < l)
        rec.label('prefilled mixed starts', case['prefill'] and len(set(r['start'])) > 1)


SUBS = [Sub('sampling-shape', check, strategy=dc.sample_case('shape'), quick=400, thorough=20000)]
