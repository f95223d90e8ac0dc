"""D02: tokens follow the model; log-probabilities are its own."""
import numpy as np
from core import Sub, require
from checks import dec_common as dc

BUDGET = (32, 1800)


def logsoftmax(z):
  z = z - z.max()
  return z - np.log(np.exp(z).sum())


def adjusted(logits, mode, d, t):
  """Candidate sets (must, may) and the log-probability function after cutoffs."""
  z = logits / max(t, 1e-4)
  v = len(z)
  order = np.sort(z)[::-1]
  k = {'k1': 1, 'kt': d['k']}.get(mode, 0)
  if k:
    thr = order[min(k, v) - 1]
    keep = z >= thr
    return [keep]
  if mode in ('p', 'pt') and d['p'] < 1.0:
    probs = np.exp(logsoftmax(z))
    o = np.argsort(-probs, kind='stable')
    cum = np.cumsum(probs[o])
    sets = []
    for eps in (-2e-6, 2e-6):
      n = int(np.searchsorted(cum, d['p'] + eps, side='left')) + 1
      sets.append(probs >= probs[o[min(n, v) - 1]] * (1 - 1e-6))
    return sets if (sets[0] != sets[1]).any() else sets[:1]
  return [np.ones(v, bool)]


def check(case, rec):
  b, l, eos, nd, mode = case['b'], case['l'], case['eos'], case['nd'], case['mode']
  for d in case['data']:
    r = dc.run_sample(case, d)
    dec, lp, x = r['dec'], r['lp'], r['x']
    require(dec.shape == (b, nd, l) and lp.shape == (b, nd), f'shape {dec.shape} {lp.shape}')
    for i in range(b):
      require((np.diff(lp[i]) >= 0).all(), f'not sorted by score: {lp[i]}')
      p, lim, t = d['lens'][i], r['limit'][i], float(r['temp'][i])
      for j in range(nd):
        seq = dec[i, j]
        full = np.concatenate([[0], seq])
        ref = dc.RefModel(r['table'], int(r['h0'][i]), case['offset'])
        hs, pos = ref.init, r['start'][i]
        lo = hi = 0.0
        slack = 1e-3
        n = 0
        step = 0
        while pos < lim:
          tok = full[pos] if pos > 0 else 0
          hs, logits = ref.next(hs, tok, pos)
          logits = logits.copy()
          if case['cb']:
            logits[step % 2 + 1] += 2.0
          step += 1
          pos += 1
          if pos <= p:
            continue
          got = int(full[pos])
          n += 1
          ctx = (f'row {i}.{j} position {pos}: token {got}, logits {np.round(logits, 4).tolist()}, '
                 f'temperature {t}, mode {mode} k={d["k"]} p={d["p"]}, sequence {seq.tolist()}')
          if t <= 1e-4:
            require(logits[got] >= logits.max() - 1e-4, 'not the most likely token; ' + ctx)
            a = c = 0.0 if case['rescale'] else logsoftmax(logits)[got]
          else:
            sets = adjusted(logits, mode, d, t)
            require(any(s[got] for s in sets), 'token outside the cutoff; ' + ctx)
            if mode == 'k1' or (mode == 'kt' and d['k'] == 1):
              require(logits[got] >= logits.max() - 1e-4, 'not the most likely token; ' + ctx)
            if case['rescale']:
              vals = [logsoftmax(np.where(s, logits / t, -1e7))[got] for s in sets if s[got]]
              a, c = min(vals), max(vals)
            else:
              a = c = logsoftmax(logits)[got]
          lo += a
          hi += c
          slack += 1e-4 * (1 + abs(a)) * (1 / max(t, .3))
          if got == eos:
            break
        require(lo - slack <= lp[i, j] <= hi + slack,
                f'row {i}.{j}: reported score {lp[i, j]} but the model gives [{lo}, {hi}]; sequence '
                f'{seq.tolist()} prompt {p} start {r["start"][i]}, temperature {t}, mode {mode}, rescale {case["rescale"]}')
        rec.nontrivial(n >= 2)
        rec.label('greedy', t <= 1e-4 or mode == 'k1')
        rec.label('several decodes', nd > 1)
        rec.label('prefilled', case['prefill'])
        rec.label(mode)
        rec.label('per-example temperature', case['tvec'])


SUBS = [Sub('sampling-scores', check, strategy=dc.sample_case('logp'), quick=600, thorough=20000)]
