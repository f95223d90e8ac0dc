"""What a check module uses: Sub, Violation, require, and case bookkeeping."""
import hashlib
import json
import os
import random
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(AssertionError):
  """The property does not hold. `key` identifies a specific finding."""

  def __init__(self, msg, key=None):
    super().__init__(msg)
    self.key = key


class Skip(Exception):
  """The generated case is outside the property's domain."""


def require(cond, msg='', key=None):
  if not cond:
    raise Violation(msg() if callable(msg) else str(msg), key)


def note(*a):
  print(*a, file=sys.stderr, flush=True)


class Rec:
  """Per-case record: what the case exercised."""

  def __init__(self):
    self.nt = False
    self.labels = {}

  def nontrivial(self, cond=True):
    self.nt = self.nt or bool(cond)

  def label(self, name, cond=True):
    if cond:
      self.labels[name] = self.labels.get(name, 0) + 1


class Sub:
  """A sub-check.

  Args:
    name: identifier.
    fn: fn(case, rec); raises Violation/AssertionError when the property fails.
    strategy: Hypothesis strategy of JSON-able cases; or
    cases: function (rng, tier) -> iterable of cases (enumerated, sharded).
    quick/thorough: Hypothesis examples per worker.
    weight: share of the wall-clock budget.
    shards: how many of the workers run it (None: all).
  """

  def __init__(self, name, fn, strategy=None, cases=None, quick=50, thorough=1000,
               weight=1.0, shards=None, timeout=150):
    self.name, self.fn, self.strategy, self.cases = name, fn, strategy, cases
    self.quick, self.thorough = quick, thorough
    self.weight, self.shards, self.timeout = weight, shards, timeout


def canon(case):
  return json.dumps(case, sort_keys=True, default=str)


def digest(case):
  return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


def is_code_failure(exc):
  """Whether an exception is the code under test's: its own assertion, or raised below a /repo frame."""
  if isinstance(exc, AssertionError):
    return True
  tb = exc.__traceback__
  while tb is not None:
    fn = tb.tb_frame.f_code.co_filename
    if fn.startswith(REPO + '/'):
      return True
    tb = tb.tb_next
  for nxt in (exc.__cause__, exc.__context__):
    if nxt is not None and nxt is not exc and is_code_failure(nxt):
      return True
  return False


def describe(exc):
  return ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-6000:]


def raises(fn, *types):
  """Runs fn; returns the exception if it is one of types, else None."""
  try:
    fn()
  except types as e:
    return e
  return None


def seed_for(*parts):
  return int(hashlib.sha1(repr(parts).encode()).hexdigest()[:12], 16)


def rng_for(*parts):
  return random.Random(seed_for(*parts))
