"""Counts file-system and array-store operations of library functions and cuts or fails them at a chosen one.

Patches library entry points (tf.io.gfile, os, shutil, jax array serialization,
tensorstore) while active; nothing of t5x.
"""
import os
import shutil

import tensorflow as tf
from tensorflow.io import gfile


class Crash(BaseException):
  """The process stops here."""


class Faults:

  def __init__(self, root, at=None, phase='before', kind='crash', salt=0):
    self.root, self.at, self.phase, self.kind, self.salt = os.path.realpath(root), at, phase, kind, salt
    self.n = 0
    self.dead = False
    self.fired = None
    self.deleting = []
    self.log = []

  def mine(self, path):
    try:
      p = os.fspath(path)
    except TypeError:
      return False
    if isinstance(p, bytes):
      p = p.decode()
    return os.path.realpath(p).startswith(self.root)

  def fail(self):
    if self.kind == 'crash':
      self.dead = True
      raise Crash()
    if self.kind == 'oserror':
      raise OSError(5, 'injected I/O error')
    raise tf.errors.UnavailableError(None, None, 'injected I/O error')

  def op(self, name, path, do, partial=None):
    """Runs one operation, possibly cutting it."""
    if self.dead:
      raise Crash()
    i = self.n
    self.n += 1
    self.log.append(f'{name} {os.path.relpath(os.fspath(path), self.root) if path else ""}')
    if self.at is None or i != self.at:
      return do()
    self.fired = self.log[-1] + ' ' + self.phase
    if self.phase == 'before':
      self.fail()
    if self.phase == 'mid' and partial is not None:
      partial()
      self.fail()
    r = do()
    del r
    self.fail()

  # -- partial effects
  def partial_rmtree(self, path):
    files = sorted(os.path.join(d, f) for d, _, fs in os.walk(path) for f in fs)
    for i, f in enumerate(files):
      if (i + self.salt) % 2 == 0:
        os.remove(f)

  def __enter__(self):
    self.saved = []
    me = self

    def patch(mod, name, fn):
      self.saved.append((mod, name, getattr(mod, name)))
      setattr(mod, name, fn)

    def wrap(mod, name, label=None, partial=None, track=False):
      real = getattr(mod, name)

      def f(path, *a, **k):
        if not me.mine(path):
          return real(path, *a, **k)
        if track:
          me.deleting.append(os.path.basename(os.fspath(path).rstrip('/')))
        return me.op(label or name, path, lambda: real(path, *a, **k),
                     (lambda: partial(path)) if partial else None)
      patch(mod, name, f)

    wrap(gfile, 'makedirs')
    wrap(gfile, 'mkdir')
    wrap(gfile, 'rename')
    wrap(gfile, 'remove', track=True)
    wrap(gfile, 'rmtree', partial=self.partial_rmtree, track=True)
    wrap(gfile, 'exists')
    wrap(gfile, 'isdir')
    wrap(gfile, 'glob')
    wrap(gfile, 'listdir')
    wrap(gfile, 'copy')
    for n in ('rename', 'replace', 'makedirs', 'mkdir', 'unlink', 'remove', 'rmdir'):
      if n not in ('unlink', 'remove', 'rmdir'):
        wrap(os, n, 'os.' + n)
    wrap(shutil, 'rmtree', 'shutil.rmtree', partial=self.partial_rmtree, track=True)
    real_gfile = gfile.GFile

    class File:
      """A GFile whose effects can be cut."""

      def __init__(self, name, mode='r'):
        self.w = any(m in mode for m in 'wa+') and me.mine(name)
        self.name = name
        if self.w:
          def create():
            f = real_gfile(name, mode)
            f.write(b'' if 'b' in mode else '')
            f.flush()
            return f
          self.f = me.op('open', name, create)
        else:
          self.f = real_gfile(name, mode)

      def __getattr__(self, a):
        return getattr(self.f, a)

      def __iter__(self):
        return iter(self.f)

      def write(self, data):
        if not self.w:
          return self.f.write(data)

        def part():
          self.f.write(data[:len(data) // 2])
          self.f.flush()
        def full():
          self.f.write(data)
          self.f.flush()
        return me.op('write', self.name, full, part)

      def close(self):
        self.f.close()

      def __enter__(self):
        return self

      def __exit__(self, *a):
        # The operating system closes the file of a dead process, too.
        self.f.close()

    patch(gfile, 'GFile', File)

    from jax.experimental.array_serialization import serialization as ser
    real_ser = ser.async_serialize

    async def async_serialize(arr, spec, *a, **k):
      path = me.spec_path(spec)
      if path is None or not me.mine(path):
        return await real_ser(arr, spec, *a, **k)
      return await me.aop('serialize', path, lambda: real_ser(arr, spec, *a, **k))
    patch(ser, 'async_serialize', async_serialize)

    import tensorstore as ts
    real_open = ts.open

    def ts_open(spec, *a, **k):
      path = me.spec_path(spec)
      if not k.get('create') or path is None or not me.mine(path):
        return real_open(spec, *a, **k)

      async def go():
        async def real():
          return await real_open(spec, *a, **k)
        t = await me.aop('ts.open', path, real)
        return Store(t, path)
      return go()

    class Store:

      def __init__(self, t, path):
        self.t, self.path = t, path

      def __getattr__(self, a):
        return getattr(self.t, a)

      def write(self, arr):
        async def go():
          async def real():
            return await self.t.write(arr)
          return await me.aop('ts.write', self.path, real)
        return go()
    patch(ts, 'open', ts_open)
    return self

  def spec_path(self, spec):
    try:
      d = spec if isinstance(spec, dict) else spec.to_json()
      while 'base' in d:
        d = d['base']
      kv = d['kvstore']
      return kv.get('path') or d.get('path')
    except (KeyError, AttributeError, TypeError):
      return None

  async def aop(self, name, path, co):
    if self.dead:
      raise Crash()
    i = self.n
    self.n += 1
    self.log.append(f'{name} {os.path.relpath(path, self.root)}')
    if self.at is None or i != self.at:
      return await co()
    self.fired = self.log[-1] + ' ' + self.phase
    if self.phase == 'before':
      self.fail()
    await co()
    if self.phase == 'mid' and os.path.isdir(path):
      # Only part of the array reached the store.
      for j, f in enumerate(sorted(os.listdir(path))):
        if not f.startswith('.') and (j + self.salt) % 2 == 0:
          os.remove(os.path.join(path, f))
    self.fail()

  def __exit__(self, *a):
    for mod, name, v in reversed(self.saved):
      setattr(mod, name, v)
    return False
