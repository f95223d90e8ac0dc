"""G01: configuration given on the command line keeps its meaning, and what is logged can be read back."""
import copy
import os
import string

from absl import flags
from fiddle.experimental import serialization
import fiddle as fdl
import gin
import hypothesis.strategies as st

from checks import ckpt_common as cc
from core import Skip, Sub, raises, require
from t5x import config_utils, gin_utils

BUDGET = (14, 600)


@gin.configurable('alpha', module='g01')
def alpha(x='unset', y='unset', batch_size='unset'):
  return ['alpha', x, y, batch_size]


@gin.configurable('beta', module='g01.sub')
def beta(x='unset', y='unset', batch_size='unset'):
  return ['beta', x, y, batch_size]


@gin.configurable('train_gin', module='g01')
def gamma(x='unset', y='unset', batch_size='unset'):
  return ['gamma', x, y, batch_size]


FNS = {'alpha': alpha, 'beta': beta, 'train_gin': gamma}
NAMES = ['alpha', 'g01.alpha', 'beta', 'sub.beta', 'g01.sub.beta', 'train_gin']
SCOPES = ['', '', 'a/', 'a/b/', 'gin/', 'eval/']
MACROS = ['LR', 'MODEL_DIR', 'TASK']
text = st.one_of(st.text(alphabet=string.ascii_letters + string.digits + ' =\'"\\/#@%.,:{}()[]-_\n\t', max_size=12),
                 st.sampled_from(['', 'a = b', '--gin.x=1', '%LR', '@alpha', 'x=1', '"', "'", 'c4_v220:1.0', 'gs://a/b=c d', '${X}', 'é', ' ']))
scalar = st.one_of(st.integers(-10**6, 10**6), st.booleans(), st.none(), text, st.sampled_from([0.0, -1.5, 1e-9, 3e300, 0.1]))
literal = st.recursive(scalar, lambda s: st.one_of(st.lists(s, max_size=3), st.lists(s, max_size=3).map(lambda v: {'t': v}), st.dictionaries(text, s, max_size=3).map(lambda v: {'d': list(v.items())})), max_leaves=5)


def thaw(v):
  """JSON form of a literal to the Python value."""
  if isinstance(v, list):
    return [thaw(x) for x in v]
  if isinstance(v, dict):
    if 't' in v:
      return tuple(thaw(x) for x in v['t'])
    return {thaw(k): thaw(x) for k, x in v['d']}
  return v


def spell(v, how):
  if how == 'plain':
    return repr(v)
  if how == 'double' and isinstance(v, str) and not set(v) & set('"\\\n\t'):
    return f'"{v}"'
  if how == 'lines' and isinstance(v, (list, tuple, dict)) and v:
    r = repr(v)
    return r[0] + '\n    ' + r[1:-1] + '\n' + r[-1]
  return repr(v) + ('  ' if how == 'spaces' else '')


@st.composite
def binding(draw):
  macro = draw(st.integers(0, 4)) == 0
  name = draw(st.sampled_from(MACROS)) if macro else draw(st.sampled_from(SCOPES)) + draw(st.sampled_from(NAMES)) + '.' + draw(st.sampled_from(['x', 'y', 'batch_size']))
  # References only point from alpha to beta to train_gin, so that no evaluation is cyclic.
  refs = []
  if not macro:
    refs = ['%' + m for m in MACROS]
    if 'alpha' in name:
      refs += ['@beta', '@beta()', '@a/beta()', '@train_gin()', '[@beta(), 1]']
    elif 'beta' in name:
      refs += ['@train_gin', '@train_gin()', '@eval/train_gin()', "{'k': @train_gin()}"]
  kind = draw(st.sampled_from(['literal'] * 3 + ['ref'] * bool(refs)))
  return dict(name=name, lit=draw(literal) if kind == 'literal' else None, ref=draw(st.sampled_from(refs)) if kind == 'ref' else None,
              how=draw(st.sampled_from(['plain', 'plain', 'double', 'lines', 'spaces'])))


def value(b):
  return b['ref'] or spell(thaw(b['lit']), b['how'])


@st.composite
def args_case(draw):
  bs = st.lists(binding(), max_size=4)
  argv = draw(st.lists(st.one_of(
      st.fixed_dictionaries(dict(kind=st.just('gin'), b=binding(), sep=st.sampled_from(['=', '=', '=', '= ', ' =', ' = ']))),
      st.fixed_dictionaries(dict(kind=st.just('bindings'), b=binding(), split=st.booleans())),
      st.fixed_dictionaries(dict(kind=st.just('other'), text=text, split=st.booleans())),
      st.fixed_dictionaries(dict(kind=st.just('pos'), text=st.sampled_from(['gin.alpha.x=1', 'pos', 'a b', 'x=--gin.y', '', 'gin']))),
      st.fixed_dictionaries(dict(kind=st.just('flag'), on=st.booleans()))), min_size=1, max_size=7))
  files = draw(st.lists(st.fixed_dictionaries(dict(name=st.sampled_from(['m.gin', 'sub/r.gin', 'e.gin']), dirs=st.lists(st.integers(0, 2), min_size=1, max_size=3, unique=True), body=st.lists(bs, min_size=3, max_size=3), abs=st.booleans())), max_size=3))
  return dict(argv=argv, files=files, scopes=draw(st.lists(st.sampled_from(['', 'a', 'a/b', 'eval', 'gin']), min_size=2, max_size=2)))


def reset():
  gin.clear_config()
  gin.config._LOCATION_PREFIXES[:] = ['']  # pylint: disable=protected-access


def outcome(scopes):
  """What the configured functions receive, called in several scopes."""
  def norm(v):
    if callable(v):
      return ['called', norm(v())]
    if isinstance(v, dict):
      return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
      return type(v)(norm(x) for x in v)
    return v
  out = {}
  for s in scopes:
    for n, f in FNS.items():
      with gin.config_scope(s or None):
        try:
          out[s, n] = norm(f())
        except Exception as e:  # pylint: disable=broad-except
          out[s, n] = f'{type(e).__name__}'
  return out


def line(b):
  return f'{b["name"]} = {value(b)}'


def flag_values():
  fv = flags.FlagValues()
  flags.DEFINE_multi_string('gin_file', None, '', flag_values=fv)
  flags.DEFINE_multi_string('gin_bindings', [], '', flag_values=fv)
  flags.DEFINE_list('gin_search_paths', ['.'], '', flag_values=fv)
  flags.DEFINE_multi_string('note', [], '', flag_values=fv)
  flags.DEFINE_bool('dry_run', False, '', flag_values=fv)
  return fv


def args(c, rec):
  argv, notes, pos, binds, on = ['prog'], [], [], [], False
  for a in c['argv']:
    if a['kind'] == 'gin':
      argv.append(f'--gin.{a["b"]["name"]}{a["sep"]}{value(a["b"])}')
      binds.append(a['b'])
    elif a['kind'] == 'bindings':
      argv += ['--gin_bindings', line(a['b'])] if a['split'] else ['--gin_bindings=' + line(a['b'])]
      binds.append(a['b'])
    elif a['kind'] == 'other':
      split = a['split'] and not a['text'].startswith('--gin.')
      argv += ['--note', a['text']] if split else ['--note=' + a['text']]
      notes.append(a['text'])
    elif a['kind'] == 'flag':
      argv.append('--dry_run' if a['on'] else '--nodry_run')
      on = a['on']
    else:
      pos.append(a['text'])
  argv += pos
  seen = {}
  files = [f for f in c['files'] if seen.setdefault(f['name'], f) is f]
  with cc.Scratch() as d:
    dirs = [os.path.join(d, f'p{i}') for i in range(3)]
    effective, paths = [], []
    for f in files:
      for i in f['dirs']:
        p = os.path.join(dirs[i], f['name'])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as fh:
          fh.write('\n'.join(line(b) for b in f['body'][i]) + '\n')
      first = f['dirs'][0] if f['abs'] else min(f['dirs'])
      effective += f['body'][first]
      paths.append(os.path.join(dirs[first], f['name']) if f['abs'] else f['name'])
    for p in paths:
      argv.insert(1, None)
    argv[1:1 + len(paths)] = ['--gin_file=' + p for p in paths]
    argv.insert(1, '--gin_search_paths=' + ','.join(dirs[:2]))
    given = list(argv)
    fv = flag_values()
    rewritten = gin_utils.rewrite_gin_args(argv)
    require(argv == given, 'the argument list given was modified')
    require(len(rewritten) == len(argv), lambda: f'{len(argv)} arguments became {len(rewritten)}')
    for x, y in zip(argv, rewritten):
      require(x.startswith('--gin.') or x == y, lambda: f'{x!r} was rewritten to {y!r}')  # pylint: disable=cell-var-from-loop
    rest = fv(list(rewritten))
    require(rest[1:] == pos, lambda: f'positional arguments {pos} became {rest[1:]}')
    require(fv.note == notes and fv.dry_run == on, lambda: f'other flags {notes} {on} became {fv.note} {fv.dry_run}')
    # The meaning: all files in order, then all bindings in the order of the command line.
    reset()
    try:
      gin.parse_config('\n'.join(line(b) for b in effective + binds))
      undefined = raises(gin.finalize, ValueError)
      want, text_ = outcome(c['scopes']), gin.config_str()
    finally:
      reset()
    if undefined:
      try:
        require(raises(lambda: gin_utils.parse_gin_flags(fv.gin_search_paths + dirs[2:], fv.gin_file, fv.gin_bindings), ValueError), 'a value that refers to nothing is accepted')
      finally:
        reset()
      rec.label('undefined reference')
      return
    literal_bind = {}
    for b in effective + binds:
      literal_bind[b['name']] = b
    try:
      gin_utils.parse_gin_flags(fv.gin_search_paths + dirs[2:], fv.gin_file, fv.gin_bindings)
      got = outcome(c['scopes'])
      require(got == want, lambda: f'{argv[1:]}: the functions receive {got}, expected {want}')
      require(gin.config_str() == text_, 'other configuration than that of the bindings in order')
      for n, b in literal_bind.items():
        if b['ref'] is None and not any(x is not b and x['name'].split('.')[-1] == n.split('.')[-1] for x in literal_bind.values()):
          q = gin.query_parameter(n) if n not in MACROS else gin.query_parameter(n + '/macro.value')
          require(q == thaw(b['lit']) and type(q) is type(thaw(b['lit'])), lambda: f'{n} is {q!r}, given {b["lit"]!r}')  # pylint: disable=cell-var-from-loop
      require(raises(lambda: gin.bind_parameter('alpha.x', 1), RuntimeError), 'the configuration can still be changed')
      # Logged and read back.
      seen_text = []
      class Writer:
        def write_texts(self, step, texts):
          seen_text.append((step, dict(texts)))
        def flush(self):
          seen_text.append('flush')
      model_dir = os.path.join(d, 'deep', 'model')
      gin_utils.summarize_gin_config(model_dir, Writer() if len(pos) % 2 == 0 else None, 7)
      logged = open(os.path.join(model_dir, 'config.gin')).read()
      if len(pos) % 2 == 0:
        require(len(seen_text) == 2 and seen_text[0][0] == 7 and list(seen_text[0][1]) == ['config'] and seen_text[1] == 'flush', lambda: f'summary {seen_text}')
        body = '\n'.join(x.strip() for x in seen_text[0][1]['config'].splitlines())
        for ln in logged.splitlines():
          if ln.strip() and not ln.startswith('#'):
            require(ln.strip() in body, lambda: f'the summary lacks {ln!r}')  # pylint: disable=cell-var-from-loop
      reset()
      gin_utils.parse_gin_flags([], [os.path.join(model_dir, 'config.gin')], [])
      again = outcome(c['scopes'])
      require(again == want, lambda: f'config.gin read back gives {again}, expected {want}:\n{logged}')
    finally:
      reset()
  rec.nontrivial(len(binds) > 1 or (files and binds))
  rec.label('files', bool(files))
  rec.label('several places', any(len(f['dirs']) > 1 for f in files))
  rec.label('references', any(b['ref'] for b in binds))
  rec.label('same name again', len({b['name'] for b in effective + binds}) < len(effective + binds))
  rec.label('equals sign in value', any('=' in value(b) for b in binds))
  rec.label('positional', pos)


@st.composite
def bad_case(draw):
  return dict(good=draw(st.lists(binding(), max_size=2)), unknown=draw(st.sampled_from([None, 'nothing.x = 1', 'alpha.nope = 1', 'a/missing.y = [1]'])), where=draw(st.sampled_from(['file', 'flag'])),
              skip=draw(st.sampled_from([False, False, True, 'list', 'other'])), bare=draw(st.sampled_from(['--gin.alpha.x', '--gin.', '--gin.a/beta.y'])), pos=draw(st.integers(0, 2)), finalize=draw(st.booleans()))


def bad(c, rec):
  """Malformed and unknown settings are reported, never dropped."""
  argv = ['--gin.' + b['name'] + '=' + value(b) for b in c['good']]
  argv.insert(min(c['pos'], len(argv)), c['bare'])
  e = raises(lambda: gin_utils.rewrite_gin_args(argv), ValueError)
  require(e and c['bare'] in str(e), f'{c["bare"]} without a value is accepted, or not named: {e}')
  lines = [line(b) for b in c['good']]
  if c['unknown']:
    lines.append(c['unknown'])
  skip = {'list': ['nothing', 'missing'], 'other': ['unrelated']}.get(c['skip'], c['skip'])
  unknown_fn = c['unknown'] and 'alpha' not in c['unknown']
  must_fail = c['unknown'] and (not unknown_fn or skip is False or c['skip'] == 'other')
  reset()
  try:
    gin.parse_config('\n'.join(line(b) for b in c['good']))
    want = outcome(['', 'a'])
    if raises(gin.finalize, ValueError) and c['finalize']:
      raise Skip()
    reset()
    with cc.Scratch() as d:
      files, binds = [], lines
      if c['where'] == 'file':
        files, binds = [os.path.join(d, 'f.gin')], []
        with open(files[0], 'w') as f:
          f.write('\n'.join(lines) + '\n')
      def run():
        gin_utils.parse_gin_flags([], files, binds, skip_unknown=skip, finalize_config=c['finalize'])
      if must_fail:
        require(raises(run, Exception), f'{c["unknown"]} is accepted with skip_unknown={skip}')
      else:
        run()
        got = outcome(['', 'a'])
        require(got == want, lambda: f'{lines} with skip_unknown={skip}: the functions receive {got}, expected {want}')
        locked = bool(raises(lambda: gin.bind_parameter('alpha.x', 1), RuntimeError))
        require(locked == c['finalize'], f'finalize_config={c["finalize"]}, locked: {locked}')
  finally:
    reset()
  rec.nontrivial(c['unknown'])
  rec.label('refused', must_fail)
  rec.label('ignored', c['unknown'] and not must_fail)


# ---------------------------------------------------------------- Fiddle
def launcher(model_dir, size=1, inner=None, summarize=None, options=None):
  summarize(model_dir=model_dir, summary_writer=None, step=3)
  return [size, inner, options]


def part(a=None, b=None):
  return ['part', a, b]


def plain(v):
  if isinstance(v, fdl.Buildable):
    return {k: plain(x) for k, x in v.__arguments__.items()}
  if isinstance(v, (list, tuple)):
    return type(v)(plain(x) for x in v)
  if isinstance(v, dict):
    return {k: plain(x) for k, x in v.items()}
  return v


@st.composite
def fdl_case(draw):
  return dict(size=draw(scalar), opts=draw(literal), tree=draw(st.recursive(scalar, lambda s: st.fixed_dictionaries(dict(a=s, b=s, p=st.booleans())), max_leaves=5)), shared=draw(st.booleans()), runs=draw(st.integers(1, 2)))


def fiddle(c, rec):
  """A Fiddle configuration is logged as it is: the file rebuilds the same configuration."""
  def tree(v):
    if isinstance(v, dict):
      return fdl.Config(part, a=tree(v['a']), b=tree(v['b']))
    return v
  inner = tree(c['tree'])
  with cc.Scratch() as d:
    model_dir = os.path.join(d, 'x', 'm')
    cfg = fdl.Partial(launcher, model_dir=model_dir, size=c['size'], options=thaw(c['opts']), inner=[inner, inner] if c['shared'] else inner, summarize=copy.deepcopy(config_utils.summarize_fiddle_config))
    before = copy.deepcopy(cfg)
    ready = config_utils.prepare_to_summarize(cfg)
    require(cfg == before, 'preparing the configuration changed the one given')
    for _ in range(c['runs']):
      run = fdl.build(ready)
      got = run()
    want_inner = fdl.build(inner) if isinstance(inner, fdl.Buildable) else inner
    require(got == [c['size'], [want_inner, want_inner] if c['shared'] else want_inner, thaw(c['opts'])], lambda: f'the prepared configuration runs with {got}')
    back = serialization.load_json(open(os.path.join(model_dir, 'fiddle_config.json')).read())
    stripped = config_utils.sanitize_summary_getter(ready)
    require(plain(back) == plain(stripped), lambda: f'logged configuration {plain(back)}, ran {plain(stripped)}')
    back.summarize.get_current_fiddle_config = None
    want = copy.deepcopy(cfg)
    want.summarize.get_current_fiddle_config = None
    require(back == want, lambda: f'the logged configuration is {back}, given {cfg}')
    require(open(os.path.join(model_dir, 'fiddle_config.txt')).read() == str(stripped), 'the text file differs from the configuration')
    unready = fdl.build(cfg)
    require(raises(unready, ValueError), 'a configuration that was not prepared is summarised')
  rec.nontrivial(isinstance(inner, fdl.Buildable))


# ---------------------------------------------------------------- helper functions for gin files
@st.composite
def helper_case(draw):
  return dict(a=draw(st.integers(-99, 99)), b=draw(st.integers(-99, 99)), v=draw(literal), text=draw(st.text(alphabet='ab/,', max_size=10)), sep=draw(st.sampled_from(['/', ',', 'ab'])), maxsplit=draw(st.sampled_from([-1, 0, 1, 2])), index=draw(st.sampled_from([None, 0, -1, 1])))


def helpers(c, rec):
  reset()
  try:
    gin.parse_config(f"""
alpha.x = @sum_fn()
sum_fn.var1 = {c['a']}
sum_fn.var2 = {c['b']}
alpha.y = @bool_fn()
bool_fn.var1 = {thaw(c['v'])!r}
alpha.batch_size = @string_split_fn
string_split_fn.text = {c['text']!r}
string_split_fn.separator = {c['sep']!r}
string_split_fn.maxsplit = {c['maxsplit']}
string_split_fn.index = {c['index']}
""")
    _, x, y, f = alpha()
    require(x == c['a'] + c['b'] and y is bool(thaw(c['v'])), f'sum {x}, bool {y}')
    # Splitting by hand.
    parts, rest, n = [], c['text'], 0
    while c['sep'] in rest and (c['maxsplit'] < 0 or n < c['maxsplit']):
      i = rest.index(c['sep'])
      parts.append(rest[:i])
      rest = rest[i + len(c['sep']):]
      n += 1
    parts.append(rest)
    if c['index'] == 1 and len(parts) == 1:
      require(raises(f, IndexError), 'an index outside the parts is accepted')
    else:
      want = parts if c['index'] is None else parts[c['index']]
      require(f() == want, lambda: f'split {c["text"]!r} by {c["sep"]!r}: {f()}, expected {want}')
    rec.nontrivial(len(parts) > 1)
  finally:
    reset()


SUBS = [
    Sub('args', args, strategy=args_case(), quick=8000, thorough=200000, weight=6),
    Sub('bad', bad, strategy=bad_case(), quick=2000, thorough=40000, weight=2),
    Sub('fiddle', fiddle, strategy=fdl_case(), quick=1500, thorough=30000, weight=2),
    Sub('helpers', helpers, strategy=helper_case(), quick=1000, thorough=20000),
]
