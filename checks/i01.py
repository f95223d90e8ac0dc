"""I01: batched inference returns one result per example, in dataset order, as the model gives for it alone."""
import functools
import json
import os
import shutil
import tempfile
import threading

import flax
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import seqio
import tensorflow as tf
from jax.experimental import multihost_utils
from jax.sharding import PartitionSpec as P

from checks import infer_common as ic
from core import Sub, Violation, require
from t5x import infer, partitioning, train_state as ts, utils

BUDGET = (30, 1200)
L = 3

STEPS = ['plain', 'rng', 'mutables', 'both']
OUTPUTS = ['tokens', 'score', 'dict', 'pair', 'aux', 'aux-nested', 'bool']


def compute(out, params, batch, rng, mutables, xp):
  """The model: each answer is a function of its example (and of the state)."""
  a = params['a'] + (mutables['m'] if mutables is not None else 0)
  x, w = batch['x'], batch['y']['w']
  tokens = x * a + w[:, None].astype(x.dtype)
  score = x.sum(-1) * 0.5 + w
  return {'tokens': lambda: tokens, 'score': lambda: score, 'bool': lambda: (x.sum(-1) % 2) == 0, 'dict': lambda: {'t': tokens, 's': {'v': score}},
          'pair': lambda: (tokens, score), 'aux': lambda: (tokens, {'scores': score}),
          'aux-nested': lambda: (score, {'scores': score, 'deep': {'first': x[:, 0], 'all': xp.stack([tokens, x], 1)}})}[out]()


@functools.lru_cache(None)
def step(kind, out, noisy):
  def body(params, batch, rng=None, mutables=None):
    r = compute(out, params, batch, rng, mutables, jnp)
    if noisy and rng is not None:  # a recorded sample, to see which keys were used
      b = batch['x'].shape[0]
      r = r[0], dict(r[1], noise=jnp.broadcast_to(jax.random.randint(rng, (), 0, 2**30), (b,)))
    return r
  if kind == 'plain':
    return lambda params, batch: body(params, batch)
  if kind == 'rng':
    return lambda params, batch, rng: body(params, batch, rng)
  if kind == 'mutables':
    return lambda params, batch, flax_mutables: body(params, batch, None, flax_mutables)
  return lambda params, batch, rng, flax_mutables: body(params, batch, rng, flax_mutables)


def rows(n, seed):
  r = np.random.default_rng(seed)
  return {'x': r.integers(0, 50, (n, L)).astype(np.int32), 'y': {'w': r.integers(0, 40, n).astype(np.float32)}}


def dataset(n, seed):
  return tf.data.Dataset.from_tensor_slices(rows(n, seed)).enumerate()


def state(mutables):
  v = {'params': {'a': jnp.int32(3)}}
  return ts.InferenceState(jnp.int32(0), v['params'], flax_mutables=flax.core.freeze({'m': jnp.int32(2)}) if mutables else flax.core.freeze({}))


def check_result(c, got, what):
  n = c['n']
  want = compute(c['out'], {'a': np.int32(3)}, rows(n, c['seed']), None, {'m': np.int32(2)} if c['step'] in ('mutables', 'both') else None, np)
  aux = None
  if c['out'].startswith('aux'):
    require(isinstance(got, tuple) and len(got) == 2, f'{what}: no pair of results and auxiliary values')
    got, aux = got
    want, want_aux = want
  require(len(got) == n, lambda: f'{what}: {len(got)} results for {n} examples')
  ix = [int(i) for i, _ in got]
  require(sorted(ix) == list(range(n)), lambda: f'{what}: results are for examples {ix}')
  def pick(tree, i):
    return jax.tree.map(lambda v: v[i], tree)
  def eq(a, b):
    fa, ta = jax.tree.flatten(jax.tree.map(lambda v: np.asarray(v), a, is_leaf=lambda v: isinstance(v, list)))
    fb, tb = jax.tree.flatten(jax.tree.map(lambda v: np.asarray(v), b, is_leaf=lambda v: isinstance(v, list)))
    return ta == tb and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(fa, fb))
  for k, (i, r) in enumerate(got):
    require(eq(r, pick(want, int(i))), lambda: f'{what}: example {int(i)} got {r}, the model gives {pick(want, int(i))}')
  if aux is not None:
    noise = aux.get('noise')
    aux = {k: v for k, v in aux.items() if k != 'noise'}
    leaves = jax.tree.leaves(aux, is_leaf=lambda v: isinstance(v, list))
    require(all(isinstance(v, list) and len(v) == n for v in leaves), lambda: f'{what}: auxiliary values of lengths {[len(v) for v in leaves]} for {n} examples')
    for k, i in enumerate(ix):
      a = jax.tree.map(lambda v: v[k], aux, is_leaf=lambda v: isinstance(v, list))
      require(eq(a, pick(want_aux, i)), lambda: f'{what}: auxiliary values at the place of example {i} are {a}, the model gives {pick(want_aux, i)}')
    # What inference writes: in dataset order.
    tokens, ordered = infer._extract_tokens_and_aux_values((got, aux))
    for i in range(n):
      a = jax.tree.map(lambda v: v[i], ordered, is_leaf=lambda v: isinstance(v, list))
      require(eq(tokens[i], pick(want, i)) and eq(a, pick(want_aux, i)), lambda: f'{what}: after ordering, example {i} has {tokens[i]}, {a}')
    return noise and dict(zip(ix, noise))
  tokens, _ = infer._extract_tokens_and_aux_values(got)
  require(all(eq(t, pick(want, i)) for i, t in enumerate(tokens)) and len(tokens) == n, f'{what}: results are out of order')


# --- one process, several devices -------------------------------------------------------------------------------------


@functools.lru_cache(None)
def partitioner(kind, parts):
  if kind == 'activations':
    return partitioning.PjitPartitioner(num_partitions=parts, logical_axis_rules=partitioning.standard_logical_axis_rules('1D', 'activations'))
  return partitioning.PjitPartitioner(num_partitions=parts)


@functools.lru_cache(None)
def infer_fn(kind, parts, stepk, out, noisy, batch, keep):
  p = partitioner(kind, parts)
  m = stepk in ('mutables', 'both')
  axes = jax.tree.map(lambda x: None, state(m)) if not m else jax.tree.map(lambda x: P(), state(m))
  s = state(m)
  axes = s.replace(params=P(), flax_mutables=P() if m else flax.core.freeze({}))
  return utils.get_infer_fn(step(stepk, out, noisy), batch, axes, p, keep_aux_as_numpy=keep)


@st.composite
def local_case(draw):
  parts = draw(st.sampled_from([1, 2, 4, 8]))
  stepk = draw(st.sampled_from(STEPS))
  out = draw(st.sampled_from(OUTPUTS))
  batch = 8 // parts * draw(st.sampled_from([1, 1, 2]))
  n = draw(st.one_of(st.integers(1, 40), st.integers(1, 4).map(lambda k: k * batch), st.integers(1, 3).map(lambda k: k * batch + 1)))
  return dict(parts=parts, step=stepk, out=out, batch=batch, n=n, seed=draw(st.integers(0, 99)), rng=draw(st.booleans()) if stepk in ('rng', 'both') else draw(st.sampled_from([False, False, True])),
              keep=draw(st.booleans()), key=draw(st.integers(0, 9)), again=draw(st.booleans()))


def local(c, rec):
  noisy = c['rng'] and c['out'].startswith('aux') and c['step'] in ('rng', 'both')
  f = infer_fn('params', c['parts'], c['step'], c['out'], noisy, c['batch'], c['keep'])
  s = state(c['step'] in ('mutables', 'both'))
  kw = dict(rng=jax.random.PRNGKey(c['key'])) if c['rng'] else {}
  what = f'{c["n"]} examples, batches of {c["batch"]}, {c["parts"]} partitions'
  got = f(dataset(c['n'], c['seed']), train_state=s, **kw)
  noise = check_result(c, got, what)
  if noisy:
    groups = {}
    for i, v in noise.items():
      groups.setdefault(int(v), []).append(i)
    batches = -(-c['n'] // c['batch'])
    require(len(groups) == batches, lambda: f'{what}: {batches} batches used {len(groups)} different random keys')
    rec.label('randomness')
  if c['again']:
    again = f(dataset(c['n'], c['seed']), train_state=s, **kw)
    flat = lambda g: [np.asarray(v).tolist() for v in jax.tree.leaves(g)]
    require(flat(again) == flat(got), f'{what}: the same call gave other results')
  rec.nontrivial(c['n'] > c['batch'])
  rec.label('padded', c['n'] % c['batch'] != 0)
  rec.label('smaller than a batch', c['n'] < c['batch'])
  rec.label(c['out'])


# --- several simulated hosts ------------------------------------------------------------------------------------------


class Hosts:
  """Threads that act as the processes of a job; collective operations are rendezvous between them."""

  def __init__(self, shard_of, order):
    self.n = len(shard_of)
    self.shard_of, self.order = shard_of, order
    self.barrier = threading.Barrier(self.n, timeout=60)
    self.lock = threading.Lock()
    self.slots = [None] * self.n
    self.result = None
    self.problem = None
    self.me = threading.local()

  def meet(self, value, combine):
    self.slots[self.me.i] = value
    if self.barrier.wait() == 0:
      try:
        self.result = combine(list(self.slots)), None
      except BaseException as e:  # pylint: disable=broad-except
        self.result = None, e
    self.barrier.wait()
    r, e = self.result
    self.barrier.wait()
    if e is not None:
      raise e
    return r

  def assert_equal(self, x, fail_message=''):
    def combine(xs):
      flats = [[np.asarray(v).tolist() for v in jax.tree.leaves(v)] for v in xs]
      require(all(f == flats[0] for f in flats), f'hosts disagree: {fail_message} {flats}')
    self.meet(x, combine)

  def partition(self, fn, in_axis_resources, out_axis_resources, **kw):
    def call(*args):
      def combine(all_args):
        blocks = {}
        for h, a in enumerate(all_args):
          s = self.shard_of[h]
          if s in blocks:
            one, two = jax.tree.leaves(blocks[s][1::2]), jax.tree.leaves(a[1::2])
            require(all(np.array_equal(np.asarray(u), np.asarray(v)) for u, v in zip(one, two)), 'hosts of one shard feed different data')
          else:
            blocks[s] = a
        whole = [blocks[s] for s in self.order]
        cat = lambda j: jax.tree.map(lambda *v: np.concatenate(v), *[b[j] for b in whole])
        keys = [None if a[2] is None else np.asarray(a[2]).tolist() for a in all_args]
        require(all(k == keys[0] for k in keys), 'hosts use different random keys for one batch')
        return jax.tree.map(np.asarray, fn(all_args[0][0], cat(1), all_args[0][2], cat(3), all_args[0][4]))
      return self.meet(args, combine)
    return call


class HostPartitioner:
  data_partition_spec = P('data')
  mesh = None

  def __init__(self, hosts):
    self.hosts = hosts

  def get_data_layout(self, batch_size=None, host_index=None):
    h = self.hosts.me.i if host_index is None else host_index
    s = self.hosts.shard_of[h]
    return partitioning.DataLayout(batch_size=batch_size, shard_id=s, num_shards=len(self.hosts.order), is_first_host_in_replica_set=self.hosts.shard_of.index(s) == h)

  def partition(self, *a, **k):
    return self.hosts.partition(*a, **k)


@st.composite
def hosts_case(draw):
  shards = draw(st.integers(1, 4))
  extra = draw(st.integers(0, 2))
  shard_of = draw(st.permutations(list(range(shards)) + [draw(st.integers(0, shards - 1)) for _ in range(extra)]))
  if len(shard_of) < 2:
    shard_of = shard_of + [0]
  per = draw(st.integers(1, 3))
  stepk = draw(st.sampled_from(STEPS))
  return dict(shard_of=list(shard_of), order=list(draw(st.permutations(range(shards)))), batch=per * shards, n=draw(st.integers(1, 25)), step=stepk, out=draw(st.sampled_from(OUTPUTS)), seed=draw(st.integers(0, 99)),
              rng=draw(st.booleans()), key=draw(st.integers(0, 9)), keep=draw(st.booleans()), same_ds=draw(st.booleans()))


def hosts(c, rec):
  h = Hosts(c['shard_of'], c['order'])
  p = HostPartitioner(h)
  s = state(c['step'] in ('mutables', 'both'))
  saved = [(m, k, getattr(m, k)) for m, k in ((jax, 'process_count'), (jax, 'process_index'), (multihost_utils, 'assert_equal'), (multihost_utils, 'host_local_array_to_global_array'), (multihost_utils, 'global_array_to_host_local_array'))]
  new = [lambda *a: h.n, lambda *a: getattr(h.me, 'i', 0), h.assert_equal, lambda x, *a, **k: x, lambda x, *a, **k: x]
  results = [None] * h.n

  def work(i):
    h.me.i = i
    try:
      f = utils.get_infer_fn(step(c['step'], c['out'], False), c['batch'], s.replace(params=None, flax_mutables=None), p, keep_aux_as_numpy=c['keep'])
      kw = dict(rng=jax.random.PRNGKey(c['key'])) if c['rng'] else {}
      results[i] = f(dataset(c['n'], c['seed']), train_state=s, **kw)
    except BaseException as e:  # pylint: disable=broad-except
      results[i] = e
      h.barrier.abort()

  try:
    for (m, k, _), v in zip(saved, new):
      setattr(m, k, v)
    threads = [threading.Thread(target=work, args=(i,)) for i in range(h.n)]
    for t in threads:
      t.start()
    for t in threads:
      t.join()
  finally:
    for m, k, v in saved:
      setattr(m, k, v)
  errors = [r for r in results if isinstance(r, BaseException)]
  errors.sort(key=lambda e: isinstance(e, threading.BrokenBarrierError))
  if errors:
    if isinstance(errors[0], Violation):
      raise errors[0]
    require(False, lambda: f'{h.n} hosts: {type(errors[0]).__name__}: {errors[0]}')
  for i, r in enumerate(results):
    check_result(c, r, f'host {i} of {h.n}, {len(c["order"])} shards, {c["n"]} examples, batches of {c["batch"]}')
  rec.nontrivial(len(c['order']) > 1 and c['n'] > 1)
  rec.label('several hosts per shard', h.n > len(c['order']))
  rec.label('padded', c['n'] % c['batch'] != 0)


# --- files ------------------------------------------------------------------------------------------------------------

FIELDS = ['inputs', 'targets', 'inputs_pretokenized', 'targets_pretokenized', 'extra']


@st.composite
def write_case(draw):
  n = draw(st.integers(1, 6))
  return dict(n=n, mode=draw(st.sampled_from(['predict', 'score', 'predict_with_aux'])), seed=draw(st.integers(0, 99)), which=draw(st.sampled_from(['default', 'all', 'some'])),
              some=draw(st.lists(st.sampled_from(['inputs', 'targets', 'extra']), max_size=3, unique=True)), ids=draw(st.booleans()), fields=draw(st.lists(st.sampled_from(FIELDS), min_size=1, max_size=5, unique=True)),
              aux=draw(st.lists(st.sampled_from(['scores', 'deep', 'list']), max_size=3, unique=True)), order=draw(st.permutations(range(n))), numpy=draw(st.booleans()))


def write(c, rec):
  n, r = c['n'], np.random.default_rng(c['seed'])
  data = {}
  for f in c['fields']:
    if f.endswith('pretokenized'):
      data[f] = np.array([f'{f} {i} ü"\\n'.encode() for i in range(n)])
    else:
      data[f] = r.integers(1, 99, (n, 3)).astype(np.int32) if f != 'extra' else r.integers(0, 9, n).astype(np.float32) / 4
  tokens = r.integers(0, 6, (n, 5))
  scores = (r.integers(-99, 99, n) / 8).tolist()
  aux = {}
  if c['mode'] != 'predict':
    for k in c['aux']:
      v = (np.arange(n) + r.integers(0, 9)) / 4
      aux[k] = {'scores': v, 'deep': {'a': v + 1, 'b': {'c': np.stack([v, -v], 1)}}, 'list': np.stack([v, v * 2, v], 1)}[k]
  results = scores if c['mode'] == 'score' else tokens.tolist()
  # Through the step that orders inference results.
  o = list(c['order'])
  pairs = [(i, results[i]) for i in o]
  conv = (lambda v: list(v[o])) if c['numpy'] else (lambda v: v[o].tolist())
  inferences = infer._extract_tokens_and_aux_values((pairs, jax.tree.map(conv, aux)) if aux else pairs)
  kw = {}
  if c['which'] == 'all':
    kw['include_all_inputs'] = True
  elif c['which'] == 'some':
    kw['input_fields_to_include'] = c['some']
  d = tempfile.mkdtemp(prefix='i01-')
  try:
    path = os.path.join(d, 'out')
    infer.write_inferences_to_file(path, inferences, tf.data.Dataset.from_tensor_slices(data), c['mode'], ic.VOCAB, output_ids=c['ids'], **kw)
    with open(path, encoding='utf-8') as f:
      lines = f.read().split('\n')
    require(lines[-1] == '' and len(lines) == n + 1, lambda: f'{len(lines) - 1} lines for {n} examples')
    got = [json.loads(l) for l in lines[:-1]]
  finally:
    shutil.rmtree(d)
  for i in range(n):
    want_in = {}
    for f in c['fields']:
      pre = f.endswith('_pretokenized')
      if c['which'] == 'all' or (c['which'] == 'default' and pre) or (c['which'] == 'some' and (f in c['some'] or pre and f[:-len('_pretokenized')] in c['some'])):
        v = data[f][i]
        want_in[f] = v.decode() if isinstance(v, bytes) else np.asarray(v).tolist()
    want = {'inputs': want_in}
    if c['mode'] == 'score':
      want['score'] = scores[i]
    else:
      t = tokens[i].tolist()
      want['prediction'] = t
      if c['ids']:
        want['prediction_tokens'] = t[:t.index(0)] if 0 in t else t
    if aux or c['mode'] == 'predict_with_aux':
      want['aux'] = jax.tree.map(lambda v: v[i].tolist(), aux)
    require(ic.same(want, got[i]), lambda: f'line {i} is {got[i]}, expected {want}')
  rec.nontrivial(n > 1 and o != sorted(o))
  rec.label(c['mode'])
  rec.label('auxiliary values', bool(aux))


# --- whole jobs -------------------------------------------------------------------------------------------------------


@st.composite
def job_case(draw):
  return dict(n=draw(st.lists(st.integers(1, 7), min_size=1, max_size=2)), shards=draw(st.sampled_from([1, 1, 2, 3])), batch=draw(st.integers(1, 3)), period=draw(st.integers(1, 3)),
              mode=draw(st.sampled_from(['predict', 'score', 'predict_with_aux'])), ds_iter=draw(st.booleans()))


def job(c, rec):
  ns = [max(n, c['shards']) for n in c['n']]
  names = [ic.task(n, 10 + i) for i, n in enumerate(ns)]
  d = tempfile.mkdtemp(prefix='i01-job-')
  mixture = None
  try:
    if len(names) > 1:
      mixture = 'verif_mix_' + '_'.join(map(str, ns))
      if mixture not in seqio.MixtureRegistry.names():
        seqio.MixtureRegistry.add(mixture, names, default_rate=1)
    for s in range(c['shards']):
      ic.run_named(mixture or names[0], d, mode=c['mode'], batch=c['batch'], period=c['period'], ds_iter=c['ds_iter'], shard=(s, c['shards']))
    for i, n in enumerate(ns):
      for s in range(c['shards']):
        f = os.path.join(d, ic.output_name(c['mode'], n, 10 + i, (s, c['shards'])))
        want = [ic.answer(c['mode'], 10 + i, k) for k in range(s, n, c['shards'])]
        got = ic.read(f) if os.path.exists(f) else None
        require(got is not None and len(got) == len(want) and all(map(ic.same, want, got)), lambda: f'task {i} ({n} examples), shard {s} of {c["shards"]}: {got}, expected {want}')
    rec.nontrivial(max(ns) > c['batch'])
    rec.label('mixture', len(ns) > 1)
    rec.label('several jobs', c['shards'] > 1)
  finally:
    shutil.rmtree(d)


SUBS = [Sub('devices', local, strategy=local_case(), quick=80, thorough=4000, timeout=200, weight=1.5),
        Sub('hosts', hosts, strategy=hosts_case(), quick=100, thorough=6000, timeout=200),
        Sub('files', write, strategy=write_case(), quick=100, thorough=4000, timeout=100),
        Sub('jobs', job, strategy=job_case(), quick=15, thorough=600, timeout=200)]
