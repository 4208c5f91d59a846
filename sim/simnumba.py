"""A simulated numba: the compiled mode of nbkode executed as Python, under control.

With the real numba nbkode takes other branches than in its plain mode (client
functions are jitted on entry, jitclasses with typed fields, typed lists).  This
module stands in for `numba` while a second copy of nbkode is imported, so that
those branches run under the simulator at the speed of plain Python.  It keeps the
rules of numba that decide what the *Python* side of nbkode may do:

* njit gives a dispatcher; jitting a dispatcher again is a TypeError;
* a dispatcher takes no plain Python function as argument or closure variable;
* with fastmath=True a function does not deliver NaN or inf;
* fields of a jitclass have the declared types: scalars are cast, arrays must be
  contiguous arrays of that dtype and rank; there are no other fields.

It compiles nothing; what compilation itself does is the subject of C13.
"""

import functools
import types as pt

import numpy as np


class TypingError(TypeError):
    pass


def _untypable(v):
    return isinstance(v, (pt.FunctionType, pt.MethodType)) and not getattr(v, "_sim_typable", False)


def finite(v):
    """An outcome that fastmath allows: non-finite numbers are not preserved."""
    if isinstance(v, tuple):
        return tuple(map(finite, v))
    if isinstance(v, (float, np.ndarray)):
        return np.nan_to_num(v, nan=0.0, posinf=0.0, neginf=0.0)
    return v


class Dispatcher:
    def __init__(self, func, options):
        functools.update_wrapper(self, func)
        self.py_func = func
        self.targetoptions = options
        self.fast = options.get("fastmath") is True  # no NaN, no inf: what they become is undefined
        self._checked = not (func.__module__ or "").startswith("nbkode")

    def __call__(self, *args, **kw):
        if not self._checked:
            for c in self.py_func.__closure__ or ():
                if _untypable(c.cell_contents):
                    raise TypingError(f"{self.__name__}: untyped closure variable {c.cell_contents!r}")
            self._checked = True
        for a in args:
            if _untypable(a):
                raise TypingError(f"{self.__name__}: cannot determine the type of {a!r}")
        out = self.py_func(*args, **kw)
        return finite(out) if self.fast else out

    def __get__(self, obj, cls=None):
        return self if obj is None else pt.MethodType(self, obj)

    def __repr__(self):
        return f"CPUDispatcher({self.py_func!r})"


def jit(*args, **options):
    if len(args) == 1 and not options and isinstance(args[0], (pt.FunctionType, pt.MethodType)):
        return Dispatcher(args[0], {})
    if args and isinstance(args[0], Dispatcher):
        raise TypeError(f"A jit decorator was called on an already jitted function {args[0]}")

    def deco(func):
        if isinstance(func, Dispatcher):
            raise TypeError(f"A jit decorator was called on an already jitted function {func}")
        return Dispatcher(func, options)

    return deco


njit = jit


def is_jitted(f):
    return isinstance(f, Dispatcher)


def register_jitable(*args, **kw):
    def deco(f):
        f._sim_typable = True
        return f

    return deco(args[0]) if args and not kw else deco


# -- types ---------------------------------------------------------------------------
class Type:
    def __init__(self, name, cast=None):
        self.name, self.cast = name, cast

    def __getitem__(self, ix):
        ix = ix if isinstance(ix, tuple) else (ix,)
        return Array(self, len(ix), any(s.step == 1 for s in ix))

    def __call__(self, *args):
        if len(args) == 1 and not isinstance(args[0], Type) and self.cast:
            return self.cast(args[0])
        return Type(f"{self.name}({args})")

    def as_type(self):
        return self

    def convert(self, v):
        return v if self.cast is None else self.cast(v)

    def __repr__(self):
        return self.name


def _scalar(fn):
    def cast(v):
        if isinstance(v, np.ndarray) and v.ndim:
            raise TypingError(f"an array where a scalar is declared: {v!r}")
        if isinstance(v, (str, bytes, type(None), list, tuple, dict)) or callable(v):
            raise TypingError(f"{v!r} where a number is declared")
        return fn(v)

    return cast


class Array(Type):
    def __init__(self, dtype, ndim, contiguous):
        super().__init__(f"array({dtype.name}, {ndim}d)")
        self.dtype, self.ndim, self.contiguous = np.dtype(dtype.name), ndim, contiguous

    def convert(self, v):
        if not isinstance(v, np.ndarray) or v.ndim != self.ndim or v.dtype != self.dtype:
            raise TypingError(f"{v!r} where {self.name} is declared")
        if self.contiguous and not v.flags.c_contiguous:
            raise TypingError(f"a strided array where contiguous {self.name} is declared")
        return v


SCALARS = {
    **{n: Type("float64", _scalar(float)) for n in ("float64", "double", "f8", "float_")},
    **{n: Type("int64", _scalar(int)) for n in ("int64", "i8", "int_", "intp", "intc")},
    **{n: Type("bool", _scalar(bool)) for n in ("bool_", "boolean", "b1")},
}


def generic(name):
    def make(*args):
        return Type(f"{name}{args}")

    return make


def jitclass(*args, **kw):
    def deco(cls, spec=None):
        fields = dict(spec.items() if hasattr(spec, "items") else spec or ())
        ann = getattr(cls, "__annotations__", {})

        def __setattr__(self, name, value):
            if fields and name not in fields:
                if name not in ann:
                    raise AttributeError(f"{cls.__name__} has no field {name}")
            elif name in fields and isinstance(fields[name], Type):
                value = fields[name].convert(value)
            object.__setattr__(self, name, value)

        new = type(cls.__name__, (cls,), {
            "__setattr__": __setattr__, "__module__": cls.__module__, "__doc__": cls.__doc__,
            "__qualname__": cls.__qualname__})
        new.class_type = Type(f"jitclass.{cls.__name__}")
        new.class_type.instance_type = Type(f"instance.{cls.__name__}")
        return new

    if args and isinstance(args[0], type):
        return deco(args[0])
    spec = args[0] if args else kw.get("spec")
    return lambda cls: deco(cls, spec)


class List(list):
    """numba.typed.List"""

    @classmethod
    def empty_list(cls, *a, **k):
        return cls()

    def append(self, v):
        if _untypable(v):
            raise TypingError(f"cannot determine the type of {v!r}")
        list.append(self, v)


def modules():
    """{name: module} to be placed in sys.modules."""

    def mod(name, **members):
        m = pt.ModuleType(name)
        m.__path__ = []
        m.__dict__.update(members)
        return m

    types = mod("numba.types", **SCALARS, **{n: generic(n) for n in (
        "ListType", "Tuple", "UniTuple", "DictType", "Array", "FunctionType", "Optional")})
    typed = mod("numba.typed", List=List)
    errors = mod("numba.core.errors", TypingError=TypingError, NumbaError=Exception)
    core = mod("numba.core", types=types, errors=errors)
    extending = mod("numba.extending", is_jitted=is_jitted, register_jitable=register_jitable)
    experimental = mod("numba.experimental", jitclass=jitclass)
    config = pt.SimpleNamespace(DISABLE_JIT=0)
    numba = mod("numba", jit=jit, njit=njit, types=types, typed=typed, core=core, extending=extending,
                experimental=experimental, errors=errors, config=config, prange=range, literally=lambda x: x,
                __version__="0.61.2", typeof=lambda v: Type(type(v).__name__), **SCALARS)
    return {m.__name__: m for m in (numba, types, typed, core, errors, extending, experimental)}


