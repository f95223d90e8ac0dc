"""M01: metrics over parts merge to the metric over the whole."""
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from core import Sub, require

BUDGET = (30, 600)

vals = st.one_of(st.integers(-50, 50).map(float), st.floats(-100, 100, width=32))


@st.composite
def case(draw):
  n = draw(st.integers(1, 6))
  parts = [dict(values=draw(st.one_of(vals, st.lists(vals, min_size=1, max_size=4),
                                      st.lists(st.lists(vals, min_size=2, max_size=2), min_size=1, max_size=2))),
                steps=draw(st.integers(1, 5))) for _ in range(n)]
  order = draw(st.permutations(list(range(n))))
  cuts = draw(st.lists(st.integers(0, 10), min_size=n, max_size=n))
  return dict(parts=parts, order=order, cuts=cuts, steps=draw(st.integers(1, 50)),
              duration=draw(st.floats(0.0625, 1024, width=32)), jit=draw(st.booleans()))


def tree_merge(ms, cuts):
  """Merges left-to-right neighbours in an order decided by cuts (associativity)."""
  ms = list(ms)
  for c in cuts:
    if len(ms) == 1:
      break
    i = c % (len(ms) - 1)
    ms[i:i + 2] = [ms[i].merge(ms[i + 1])]
  while len(ms) > 1:
    ms[0:2] = [ms[0].merge(ms[1])]
  return ms[0]


def close(a, b, scale=1.0):
  return abs(float(a) - float(b)) <= 2e-4 * (1 + abs(float(b)) + scale * 1e-2)


def check(c, rec):
  from t5x import metrics as M
  parts = c['parts']
  arr = [np.asarray(p['values'], np.float32) for p in parts]
  total = float(sum(a.astype(np.float64).sum() for a in arr))
  mag = float(sum(np.abs(a).sum() for a in arr))
  nsteps = sum(p['steps'] for p in parts)
  wrap = jax.jit if c['jit'] else (lambda f: f)
  # Sum
  build = lambda cls, i, **k: wrap(lambda a: cls.from_model_output(a, **k))(arr[i])
  for order in (range(len(parts)), c['order']):
    s = tree_merge([build(M.Sum, i) for i in order], c['cuts'])
    require(close(s.compute(), total, mag), f'Sum of {parts} is {s.compute()}, want {total}')
    a = tree_merge([M.AveragePerStep.from_model_output(arr[i], steps=parts[i]['steps']) for i in order], c['cuts'])
    require(int(a.steps) == nsteps and close(a.compute(), total / nsteps, mag),
            f'AveragePerStep {a.compute()} want {total}/{nsteps}')
    r = tree_merge([M.TimeRate.from_model_output(arr[i].sum()) for i in order], c['cuts'])
    r = r.replace_duration(c['duration'])
    require(close(r.compute(), total / c['duration'], mag / c['duration']), f'TimeRate {r.compute()} want {total}/{c["duration"]}')
    st_ = tree_merge([M.StepsPerTime.from_model_output(steps=parts[i]['steps']) for i in order], c['cuts'])
    st_ = st_.replace_duration(c['duration'])
    require(close(st_.compute(), nsteps / c['duration']), f'StepsPerTime {st_.compute()} want {nsteps}/{c["duration"]}')
    tm = tree_merge([M.Time() for _ in order], c['cuts']).replace_duration(c['duration'])
    require(close(tm.compute(), c['duration']), 'Time')
  # The empty metric, derived from shapes, is neutral.
  for m in (M.Sum.from_model_output(arr[0]), M.AveragePerStep.from_model_output(arr[0], steps=parts[0]['steps']),
            M.TimeRate.from_model_output(arr[0].sum())):
    shape = jax.eval_shape(lambda: m)
    zero = M.shape_obj_to_defined_obj(shape)
    require(type(zero) is type(m), 'empty metric has another type')
    for a, b in ((zero, m), (m, zero)):
      u = a.merge(b)
      for x, y in zip(jax.tree.leaves(u), jax.tree.leaves(m)):
        require(close(x, y), f'merging with the empty {type(m).__name__} changed {m} to {u}')
  # Setting steps and durations over a whole collection.
  tree = dict(avg=M.AveragePerStep.from_model_output(arr[0]), rate=M.TimeRate.from_model_output(arr[0].sum()),
              spt=M.StepsPerTime.from_model_output(), t=M.Time(), sum=M.Sum.from_model_output(arr[0]),
              nested=dict(avg2=M.AveragePerStep.from_model_output(arr[-1])))
  out = M.set_step_metrics_num_steps(tree, c['steps'])
  out = M.set_time_metrics_duration(out, c['duration'])
  s0, s1 = float(arr[0].astype(np.float64).sum()), float(arr[-1].astype(np.float64).sum())
  want = dict(avg=s0 / c['steps'], rate=s0 / c['duration'], spt=c['steps'] / c['duration'], t=c['duration'], sum=s0)
  for k, w in want.items():
    require(close(out[k].compute(), w, mag + mag / c['duration']), f'{k}: {out[k].compute()} want {w}')
  require(close(out['nested']['avg2'].compute(), s1 / c['steps'], mag), 'nested metric')
  require(tree['t'].duration is None and tree['spt'].duration is None and tree['spt'].steps == 1, 'the input collection was modified')
  d = M.create_metrics_dict({f'k{i}': float(a.sum()) for i, a in enumerate(arr)})
  for i, a in enumerate(arr):
    require(close(d[f'k{i}'].compute(), a.sum(), mag), 'create_metrics_dict')
  rec.nontrivial(len(parts) > 1 and nsteps > len(parts))


def check_unset(c, rec):
  """Rates cannot be computed, nor finished rates merged, without their parts."""
  from core import raises
  from t5x import metrics as M
  require(raises(M.Time().compute, ValueError) is not None, 'Time without a duration computed')
  require(raises(M.TimeRate.from_model_output(c['x']).compute, ValueError) is not None, 'TimeRate without duration')
  require(raises(M.StepsPerTime.from_model_output(steps=2).compute, ValueError) is not None, 'StepsPerTime without duration')
  require(raises(M.StepsPerTime(steps=None, duration=c['x']).compute, ValueError) is not None, 'StepsPerTime without steps')
  require(raises(M.AveragePerStep(steps=3).compute, ValueError) is not None, 'AveragePerStep without total')
  require(raises(M.AveragePerStep(steps=None, total=jnp.array(1.0)).compute, ValueError) is not None, 'AveragePerStep without steps')
  a = M.TimeRate.from_model_output(c['x'])
  for p, q in ((a.replace_duration(1.0), a), (a, a.replace_duration(2.0))):
    require(raises(lambda: p.merge(q), AssertionError) is not None, 'rates with durations were merged')
  rec.nontrivial()


SUBS = [
    Sub('merge-laws', check, strategy=case(), quick=60, thorough=2000),
    Sub('unset-parts', check_unset, strategy=st.fixed_dictionaries(dict(x=st.floats(0.5, 100))), quick=10, thorough=50, weight=0.2, shards=1),
]
