"""Every path starts from the state a fresh process has after its imports.

The code under test may keep state in modules, classes, default arguments,
closures, caches and (adopted) long-lived objects; what one path leaves there
must not be seen by the next."""
import collections
import functools
import types

from .coll import Cached

LIMIT = 400000
BIG = 512
_seen = {}
_saved = []        # (kind, object, copy of its content)
_caches = []


def _ours(name):
    return name is not None and (name == "clubs" or name.startswith("clubs."))


def _walk(todo):
    while todo and len(_seen) < LIMIT:
        o = todo.pop()
        t = type(o)
        if t in (int, float, str, bytes, bool, type(None), complex) or id(o) in _seen:
            continue
        if isinstance(o, dict):
            _seen[id(o)] = o
            c = dict.copy(o) if t is dict else list(dict.items(o))
            _saved.append(("dict", o, c))
            todo.extend(x for x in dict.values(o) if type(x) is not int)
        elif isinstance(o, (list, set, collections.deque, bytearray)):
            _seen[id(o)] = o
            _saved.append(("seq", o, list(o)))
            todo.extend(x for x in o if type(x) is not int)
        elif t in (tuple, frozenset):
            _seen[id(o)] = o
            todo.extend(o)
        elif isinstance(o, functools._lru_cache_wrapper):
            _seen[id(o)] = o
            _caches.append(o)
            todo.append(o.__wrapped__)
        elif isinstance(o, Cached):
            todo.extend([o.f, o.real])
        elif isinstance(o, types.FunctionType):
            if not _ours(getattr(o, "__module__", None)):
                continue
            _seen[id(o)] = o
            todo.append(o.__defaults__)
            todo.append(o.__kwdefaults__)
            todo.append(o.__dict__)
            for cell in o.__closure__ or ():
                _saved.append(("cell", cell, _content(cell)))
                todo.append(_content(cell))
        elif isinstance(o, (staticmethod, classmethod)):
            todo.append(o.__func__)
        elif isinstance(o, property):
            todo.extend([o.fget, o.fset])
        elif isinstance(o, functools.cached_property):
            continue
        elif isinstance(o, types.ModuleType):
            if _ours(o.__name__):
                _seen[id(o)] = o
                _saved.append(("module", o, dict(vars(o))))
                todo.extend(v for k, v in vars(o).items() if not k.startswith("__"))
        elif isinstance(o, type):
            if _ours(o.__module__):
                _seen[id(o)] = o
                _saved.append(("class", o, dict(vars(o))))
                todo.extend(v for k, v in vars(o).items() if k not in ("__dict__", "__weakref__"))
        elif _ours(getattr(t, "__module__", None)) and hasattr(o, "__dict__"):
            _seen[id(o)] = o
            todo.append(o.__dict__)


def _content(cell):
    try:
        return cell.cell_contents
    except ValueError:
        return None


def snapshot(modules):
    _seen.clear()
    del _saved[:], _caches[:]
    _walk(list(modules))


def adopt(o):
    """an object of the code under test that lives on from path to path"""
    _walk([o])


def _same(o, saved):
    if len(o) != len(saved):
        return False
    return all(x is y for x, y in zip(o, saved))


def restore():
    for c in _caches:
        c.cache_clear()
    for kind, o, saved in _saved:
        if kind == "dict":
            if len(o) == len(saved) and (len(saved) > BIG or _same_dict(o, saved)):
                continue
            dict.clear(o)
            dict.update(o, saved)
        elif kind == "seq":
            if len(o) == len(saved) and (len(saved) > BIG or isinstance(o, set) or _same(o, saved)):
                continue
            o.clear()
            (o.update if isinstance(o, set) else o.extend)(saved)
        elif kind == "cell":
            if _content(o) is not saved:
                o.cell_contents = saved
        elif kind == "module":
            d = vars(o)
            for k in [k for k in d if k not in saved]:
                if not isinstance(d[k], types.ModuleType):
                    del d[k]
            for k, v in saved.items():
                if d.get(k) is not v:
                    d[k] = v
        elif kind == "class":
            d = vars(o)
            for k in [k for k in d if k not in saved]:
                delattr(o, k)
            for k, v in saved.items():
                if k not in ("__dict__", "__weakref__") and d.get(k) is not v:
                    setattr(o, k, v)


def _same_dict(o, saved):
    items = saved.items() if isinstance(saved, dict) else saved
    for (a, x), (b, y) in zip(dict.items(o), items):
        if a is not b or x is not y:
            return False
    return True
