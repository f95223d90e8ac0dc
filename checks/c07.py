"""C07: an incompatible checkpoint is refused, never silently loaded."""
import os

import hypothesis.strategies as st
import jax
import numpy as np

from checks import ckpt_common as cc
from checks import state_common as sc
from core import Skip, Sub, require
from t5x import checkpoints, utils

BUDGET = (28, 1200)
N = jax.device_count()  # on CPU the whole mesh is the model axis
EDITS = ['none', 'dim', 'dim', 'rank', 'transpose', 'rename', 'add', 'remove', 'mut_add', 'mut_remove', 'mut_dim', 'opt', 'nest', 'reshape']


@st.composite
def case(draw):
  opt = draw(st.sampled_from(sc.OPTS))
  return dict(state=draw(sc.state_case(opts=[opt])), opt=draw(st.one_of(st.just(opt), st.just('inference'), st.sampled_from(sc.OPTS))),
              edits=draw(st.lists(st.tuples(st.sampled_from(EDITS), st.integers(0, 9), st.integers(1, 3)).map(list), max_size=3)),
              writer=draw(st.sampled_from(['classic', 'classic', 'orbax'])), reader=draw(st.sampled_from(['classic', 'classic', 'legacy', 'orbax'])),
              loader=draw(st.sampled_from(['devices', 'host', 'lazy'])), n=draw(st.sampled_from([1, 2])),
              fallback=draw(st.booleans()), step=draw(st.integers(0, 5)))


def edit(params, mut, edits):
  params, mut = [dict(p) for p in params], [dict(p) for p in mut]
  for kind, i, k in edits:
    src = mut if kind.startswith('mut') else params
    if kind in ('add', 'mut_add'):
      src.append(dict(path=[f'extra{i}', 'w'], shape=[2 * k], axes=['stack'], dtype='float32'))
      continue
    if not src:
      continue
    j = i % len(src)
    p = src[j]
    if kind in ('dim', 'mut_dim') and p['shape']:
      s = list(p['shape'])
      s[k % len(s)] *= 1 + k
      src[j] = dict(p, shape=s)
    elif kind == 'rank':
      if k % 2 and p['shape']:
        src[j] = dict(p, shape=p['shape'][1:], axes=p['axes'][1:])
      else:
        free = [a for a in ('stack', 'layers', 'kv') if a not in p['axes']]
        src[j] = dict(p, shape=[1] + p['shape'], axes=free[:1] + p['axes'])
    elif kind == 'transpose' and len(p['shape']) > 1:
      src[j] = dict(p, shape=p['shape'][::-1], axes=p['axes'][::-1])
    elif kind == 'reshape' and len(p['shape']) > 1 and p['shape'][0] % 2 == 0:
      src[j] = dict(p, shape=[p['shape'][0] // 2, p['shape'][1] * 2] + p['shape'][2:])
    elif kind == 'rename':
      src[j] = dict(p, path=p['path'][:-1] + [p['path'][-1] + '_new'])
    elif kind == 'nest':
      src[j] = dict(p, path=p['path'] + ['inner'])
    elif kind in ('remove', 'mut_remove') and len(src) > (kind == 'remove'):
      del src[j]
  def uniq(lst):
    out = {}
    for p in lst:
      out.setdefault('/'.join(p['path']), p)
    return list(out.values())
  return uniq(params), uniq(mut)


def check(c, rec):
  sd = dict(c['state'], params=sc.pad_shapes(c['state']['params'], N), mut=sc.pad_shapes(c['state']['mut'], N), specials=False)
  if not sd['params']:
    raise Skip()
  params, mut = edit(sd['params'], sd['mut'], c['edits'])
  params, mut = sc.pad_shapes(params, N), sc.pad_shapes(mut, N)
  rng = np.random.default_rng(sd['seed'])
  a = sc.fill(sc.make_state(sd, rng), rng).replace_step(np.int32(c['step']))
  try:
    b = sc.fill(sc.make_state(dict(sd, params=params, mut=mut, opt=c['opt']), rng), rng).replace_step(np.int32(77))
  except (ValueError, TypeError) as e:
    if 'axes' in str(e) or 'logical' in str(e):
      raise Skip()
    raise
  writer = c['writer']
  reader = 'orbax' if writer == 'orbax' else c['reader']
  part = sc.make_partitioner(c['n'], params_on_devices=c['loader'] == 'devices' or reader == 'orbax')
  fa, fb = sc.flat(a.state_dict()), sc.flat(b.state_dict())
  saved, fresh = cc.snapshot(a), cc.snapshot(b)
  ax_a, ax_b = (sc.flat(part.get_mesh_axes(s).state_dict()) for s in (a, b))
  arrays = [k for k, v in fb.items() if sc.is_array(v)]
  missing = [k for k in arrays if not sc.is_array(fa.get(k))]
  mism = [k for k in arrays if k not in missing and fa[k].shape != fb[k].shape]
  # Placeholder slots and counters live in the index file; the code documents that their shapes are not checked.
  hard = [k for k in mism if ax_a.get(k) is not None and ax_b.get(k) is not None]
  must_fail = hard or (missing and not c['fallback'])
  if mism and not must_fail:
    raise Skip()
  with cc.Scratch() as d:
    if writer == 'classic':
      checkpoints.Checkpointer(a, part, d, save_dtype=None).save(a)
    else:
      given = sc.place(a, part).replace_step(jax.numpy.int32(c['step']))
      m = checkpoints.OrbaxCheckpointManagerInterface(d, cc.abstract(a), part)
      m.save(given)
      m.wait_until_finished()
      m.close()
    path = os.path.join(d, f"checkpoint_{c['step']}")
    fb_state = b.state_dict() if c['fallback'] else None
    kw = dict(path=path, fallback_state=fb_state)

    def run():
      if reader == 'classic':
        r = checkpoints.Checkpointer(cc.abstract(b), part, d).restore(lazy_parameters=c['loader'] == 'lazy', **kw)
      elif reader == 'legacy':
        cfg = utils.RestoreCheckpointConfig(path=path, mode='specific')
        r = utils.LegacyCheckpointManager(save_cfg=None, restore_cfg=cfg, train_state_shape=cc.abstract(b), partitioner=part, model_dir=d).restore([path], cfg, fb_state)
      else:
        m = checkpoints.OrbaxCheckpointManagerInterface(d, cc.abstract(b), part)
        try:
          r = m.restore(**kw)
        finally:
          m.close()
      got = cc.get_lazy(sc.flat(r.state_dict()))
      return {k: np.asarray(v) if sc.is_array(v) or isinstance(v, (int, float)) else v for k, v in got.items()}

    if must_fail:
      try:
        got = run()
      except Exception as e:  # pylint: disable=broad-except
        # A wrong shape is reported under the parameter's name.
        msg = str(e)
        named = any(k in msg for k in mism)
        rec.label('named', named)
        require(missing or not set(fb) <= set(fa) or reader == 'orbax' or set(mism) != set(hard) or named, lambda: f'the error for misshapen {hard[:3]} names none of them: {type(e).__name__}: {msg[:300]}')
        rec.nontrivial()
        rec.label('refused shape', hard)
        rec.label('refused missing', missing and not hard)
        rec.label(f'refused {writer}/{reader}')
        return
      bad = [k for k in hard if got[k].shape != fb[k].shape]
      require(False, f'missing {missing[:3]}, misshapen {hard[:3]}: restored without an error; wrong shapes returned for {bad[:3]}')
    try:
      got = run()
    except Exception:  # pylint: disable=broad-except
      # Entries that hold no array (parameters no optimizer touches) may be refused when the checkpoint has none of them.
      if all(k in fa and not sc.is_array(fa[k]) for k in fb if not sc.is_array(fb[k])) or (writer == 'classic' and all(k in fa or any(x.startswith(k + '/') for x in fa) for k in fb)):
        raise
      rec.label('refused empty')
      return
    want = {k: (fresh[k] if k in missing or not sc.is_array(fb[k]) else saved[k]) for k in fb}
    got['state/step'] = np.int32(got['state/step'])
    cc.compare(got, want, f'{writer} checkpoint of {c["state"]["opt"]} restored by {reader} into {c["opt"]}')
  rec.nontrivial(missing or set(fa) - set(fb))
  rec.label('initialised missing', missing)
  rec.label('extra ignored', set(fa) - set(fb))
  rec.label(f'loaded {writer}/{reader}')


SUBS = [Sub('fit', check, strategy=case(), quick=260, thorough=10000)]
