"""Builds the Rust half of /repo (its src/ as it is now) against the pyo3
stand-in in ../rustbridge and loads it as tm.rust_stuff.

Nothing here looks at the Rust text: the exported names, their parameters and
defaults come from the attributes the sources carry."""
from __future__ import annotations

import ctypes
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import types

REPO = os.environ.get('BBS_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BRIDGE = os.path.join(VERIF, 'rustbridge')
BUILD = os.environ.get('BBS_BUILD', os.path.join(VERIF, '.build'))


class HarnessError(Exception):
    pass


class PanicException(BaseException):
    """What pyo3 raises in Python when the Rust code panics."""


CARGO = '''[package]
name = "rust-stuff"
version = "0.1.0"
edition = "2024"
[lib]
name = "rust_stuff"
crate-type = ["cdylib"]
[dependencies]
rayon = "*"
pyo3 = {{ path = "{bridge}/pyo3mini", features = ["extension-module"] }}
[profile.release]
codegen-units = 16
debug = false
'''


def _tree_hash(*roots: str, extra: str = '') -> str:
    h = hashlib.sha256(extra.encode())
    for root in roots:
        for dp, dn, fn in sorted(os.walk(root)):
            dn.sort()
            if '/target' in dp:
                continue
            for f in sorted(fn):
                p = os.path.join(dp, f)
                h.update(p[len(root):].encode() + b'\0')
                with open(p, 'rb') as fp:
                    h.update(fp.read())
                h.update(b'\0')
    return h.hexdigest()[:24]


def build_rust(extra: str = '') -> str:
    """Path of the built extension; cached by the content of its sources."""
    kind = 'x' + extra if extra else 'ext'
    key = _tree_hash(os.path.join(REPO, 'src'), BRIDGE, extra=kind)
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, f'rust_{kind}_{key}.so')
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        work = os.path.join(BUILD, f'crate_{kind}')
        shutil.rmtree(os.path.join(work, 'src'), ignore_errors=True)
        os.makedirs(work, exist_ok=True)
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(work, 'src'))
        with open(os.path.join(work, 'Cargo.toml'), 'w') as fp:
            fp.write(CARGO.format(bridge=BRIDGE))
        shutil.copy(os.path.join(BRIDGE, 'Cargo.lock'), work)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'target'))
        flags = '--cap-lints=allow'
        if extra:
            with open(os.path.join(BRIDGE, f'extra_{extra}.rs')) as src, \
                    open(os.path.join(work, 'src', 'lib.rs'), 'a') as fp:
                fp.write('\n' + src.read())
        env['RUSTFLAGS'] = flags
        proc = subprocess.run(
            ['cargo', 'build', '--offline', '--release', '--quiet'],
            cwd=work, env=env, capture_output=True, text=True)
        if proc.returncode:
            raise HarnessError('cargo build failed:\n' + proc.stderr[-6000:])
        lib = os.path.join(env['CARGO_TARGET_DIR'], 'release', 'librust_stuff.so')
        tmp = out + '.tmp'
        shutil.copy(lib, tmp)
        os.replace(tmp, out)
        for f in os.listdir(BUILD):  # older builds of the same kind
            if f.startswith(f'rust_{kind}_') and f.endswith('.so') \
                    and os.path.join(BUILD, f) != out:
                try:
                    os.unlink(os.path.join(BUILD, f))
                except OSError:
                    pass
    return out


# ------------------------------------------------------------------------

MISSING = object()


class Lib:
    def __init__(self, path: str, prefix: str = 'rust_stuff'):
        self.lib = lib = ctypes.CDLL(path)
        self.init = getattr(lib, f'bbs_{prefix}_init')
        self._call = getattr(lib, f'bbs_{prefix}_call')
        self._desc = getattr(lib, f'bbs_{prefix}_describe')
        self._free = getattr(lib, f'bbs_{prefix}_free')
        self._call.restype = ctypes.c_void_p
        self._call.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.POINTER(ctypes.c_size_t)]
        self._desc.restype = ctypes.c_void_p
        self._desc.argtypes = [ctypes.POINTER(ctypes.c_size_t)]
        self._free.restype = None
        self._free.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
        self.init()
        self.classes: dict[str, type] = {}
        self.enums: dict[str, type] = {}

    def _take(self, ptr: int, n: int) -> str:
        s = ctypes.string_at(ptr, n).decode('ascii')
        self._free(ptr, n)
        return s

    def describe(self):
        n = ctypes.c_size_t()
        p = self._desc(ctypes.byref(n))
        return json.loads(self._take(p, n.value))

    def enc(self, v) -> str:
        if v is MISSING:
            return '{"m":[]}'
        if v is None:
            return 'null'
        if v is True:
            return 'true'
        if v is False:
            return 'false'
        if isinstance(v, int):
            return str(int(v)) if -2**120 < v < 2**120 else \
                ('-' if v < 0 else '') + '9' * 60
        if isinstance(v, str):
            return json.dumps(v)
        if isinstance(v, tuple):
            return '{"t":[' + ','.join(map(self.enc, v)) + ']}'
        if isinstance(v, list):
            return '[' + ','.join(map(self.enc, v)) + ']'
        if isinstance(v, dict):
            return '{"d":[' + ','.join(
                f'[{self.enc(k)},{self.enc(x)}]' for k, x in v.items()) + ']}'
        h = getattr(v, '_bbs_enc', None)
        if h is not None:
            return h
        raise TypeError(f'cannot convert {type(v).__name__}')

    def dec(self, v):
        if isinstance(v, list):
            return [self.dec(x) for x in v]
        if isinstance(v, dict):
            (tag, body), = v.items()
            if tag == 't':
                return tuple(self.dec(x) for x in body)
            if tag == 'd':
                return {self.dec(k): self.dec(x) for k, x in body}
            if tag == 'o':
                cls = self.classes[body[0]]
                obj = object.__new__(cls)
                obj._bbs_bind(body[1])
                return obj
            if tag == 'e':
                return getattr(self.enums[body[0]], body[1])
            raise HarnessError(f'tag {tag}')
        return v

    def call(self, name: str, args):
        req = ('["' + name + '",' + ','.join(map(self.enc, args)) + ']'
               if args else '["' + name + '"]').encode('ascii')
        n = ctypes.c_size_t()
        p = self._call(req, len(req), ctypes.byref(n))
        r = json.loads(self._take(p, n.value))
        if 'ok' in r:
            return self.dec(r['ok'])
        kind, msg = r['err'], r['msg']
        if kind == 'panic':
            raise PanicException(msg)
        raise {'TypeError': TypeError, 'OverflowError': OverflowError,
               'AttributeError': AttributeError}.get(kind, RuntimeError)(msg)


def _wrap(lib: Lib, fn, qual: str, method: bool):
    names = [n for n, _ in fn['params']]

    def call(*args, **kw):
        self_args = ()
        if method:
            self_args, args = args[:1], args[1:]
        vals = list(args)
        if len(vals) > len(names):
            raise TypeError(f'{qual}() takes {len(names)} arguments')
        for n in names[len(vals):]:
            vals.append(kw.pop(n, MISSING))
        if kw:
            raise TypeError(f'{qual}() got unexpected {sorted(kw)}')
        return lib.call(qual, [*self_args, *vals])

    call.__name__ = fn['name']
    call.__qualname__ = qual
    return call


def _make_class(lib: Lib, name: str, defs) -> type:
    ns: dict = {'__slots__': ('_bbs_enc', '_bbs_id', '__weakref__')}

    def bind(self, i):
        self._bbs_id = i
        self._bbs_enc = '{"o":["%s",%d]}' % (name, i)

    def delete(self):
        try:
            lib.call('__drop__', [self])
        except BaseException:  # interpreter shutdown
            pass

    ns['_bbs_bind'] = bind
    ns['__del__'] = delete
    for d in defs:
        qual = f'{name}.{d["name"]}'
        if d['kind'] == 'new':
            mk = _wrap(lib, d, qual, False)

            def __new__(cls, *a, _mk=mk, **k):
                return _mk(*a, **k)
            ns['__new__'] = __new__
        elif d['kind'] == 'getter':
            ns[d['name']] = property(_wrap(lib, d, qual, True))
        elif d['kind'] == 'static':
            ns[d['name']] = staticmethod(_wrap(lib, d, qual, False))
        else:
            ns[d['name']] = _wrap(lib, d, qual, True)
    return type(name, (), ns)


def _make_enum(name: str, variants) -> type:
    class Var:
        __slots__ = ('n', 'i', '_bbs_enc')

        def __eq__(self, o):
            if isinstance(o, int):
                return self.i == o
            return isinstance(o, Var) and self.i == o.i

        def __int__(self):
            return self.i

        def __hash__(self):
            return hash((name, self.i))

        def __repr__(self):
            return f'{name}.{self.n}'
    Var.__name__ = name
    for i, v in enumerate(variants):
        x = Var()
        x.n, x.i = v, i
        x._bbs_enc = json.dumps({'e': [name, v]})
        setattr(Var, v, x) if v not in Var.__slots__ else None
    return Var


def make_module(path: str, modname: str, prefix: str) -> types.ModuleType:
    lib = Lib(path, prefix)
    mod = types.ModuleType(modname)
    for item in lib.describe():
        if 'func' in item:
            d = item['func']
            setattr(mod, d['name'], _wrap(lib, d, d['name'], False))
        elif 'class' in item:
            cls = _make_class(lib, item['class'], item['defs'])
            lib.classes[item['class']] = cls
            setattr(mod, item['class'], cls)
        else:
            en = _make_enum(item['enum'], item['variants'])
            lib.enums[item['enum']] = en
            setattr(mod, item['enum'], en)
    mod.__dict__['_bbs_lib'] = lib
    return mod


def use_repo() -> None:
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)


def load_rust():
    """tm.rust_stuff, and with it every Python module of the repository."""
    if 'tm.rust_stuff' in sys.modules:
        return sys.modules['tm.rust_stuff']
    use_repo()
    mod = make_module(build_rust(), 'tm.rust_stuff', 'rust_stuff')
    sys.modules['tm.rust_stuff'] = mod
    import tm
    tm.rust_stuff = mod
    return mod


_extras: dict = {}


def load_extra(kind: str):
    """Rust internals through the glue in rustbridge/extra_KIND.rs; None when
    the glue does not fit them (they are not public API, so that is no
    failure: what they do is also seen through the public functions)."""
    if kind not in _extras:
        try:
            _extras[kind] = make_module(build_rust(extra=kind), 'bbs_extra_' + kind, 'extra')
        except HarnessError as err:
            print(f'note: glue {kind} unavailable:', str(err)[:300].replace('\n', ' | '))
            _extras[kind] = None
    return _extras[kind]
