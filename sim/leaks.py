"""How much a process keeps: the containers reachable from its objects, and their sizes."""
import collections
import functools
import logging
import sys
import types
import weakref

LEAF = (int, float, complex, bool, type(None), type, types.ModuleType, types.BuiltinFunctionType, types.CodeType,
        types.FrameType, types.TracebackType, weakref.ref, weakref.WeakKeyDictionary, weakref.WeakValueDictionary,
        weakref.WeakSet)
PLAIN = (dict, list, set, tuple, collections.deque)


def roots(prefixes):
    out = []
    for name in sorted(sys.modules):
        if name.split(".")[0] in prefixes:
            m = sys.modules[name]
            if m is not None:
                out.append((name, m.__dict__))
    return out


def bounded(f):
    """A cache that forgets by itself."""
    info = getattr(f, "cache_parameters", None) or getattr(f, "cache_info", None)
    if info is None:
        return False
    try:
        r = info()
        size = r["maxsize"] if isinstance(r, dict) else r.maxsize
    except Exception:
        return False
    return size is not None


def measure(start, prefixes=("oa",), paths=None):
    """-> (number of items in all containers, number of characters in all strings) that can be reached from the
    (label, object) pairs.  paths: filled with {label path: size} if given."""
    seen = set()
    items = chars = 0
    todo = [(label, o) for label, o in start]
    while todo:
        label, o = todo.pop()
        if o is None or id(o) in seen:
            continue
        t = type(o)
        if t in (str, bytes, bytearray):
            seen.add(id(o))
            chars += len(o)
            if paths is not None and len(o) > 60:
                paths[label] = paths.get(label, 0) + len(o)
            continue
        own = isinstance(o, type) and (o.__module__ or "").split(".")[0] in prefixes
        if isinstance(o, LEAF) and not own:
            continue
        mod = t.__module__ or ""
        if mod.split(".")[0] in ("sim", "_io", "_thread", "threading", "typing", "re", "_sre", "logging"):
            if not isinstance(o, logging.Logger):
                continue
        seen.add(id(o))
        if isinstance(getattr(o, "capacity", None), int) or isinstance(getattr(o, "maxsize", None), int):
            # a cache that forgets by itself
            continue
        kids = []
        if isinstance(o, collections.abc.Mapping) and isinstance(o, dict):
            n = len(o)
            for k, v in list(dict.items(o)):
                kids.append(("k", k))
                kids.append((k, v))
        elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
            n = len(o)
            kids = list(enumerate(list(o)))
        else:
            n = 0
        if isinstance(o, (types.FunctionType, types.MethodType, functools.partial)) and bounded(o):
            continue
        if isinstance(o, types.FunctionType):
            if o.__defaults__:
                kids.append(("default", o.__defaults__))
            if o.__dict__:
                kids.append(("dict", o.__dict__))
            for c in o.__closure__ or ():
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                if type(v) in PLAIN or isinstance(v, types.FunctionType):
                    kids.append(("cell", v))
        elif isinstance(o, types.MethodType):
            kids += [("self", o.__self__), ("func", o.__func__)]
        elif isinstance(o, functools.partial):
            kids += [("func", o.func), ("args", o.args), ("kw", o.keywords)]
        elif isinstance(o, (staticmethod, classmethod)):
            kids.append(("func", o.__func__))
        elif isinstance(o, property):
            kids += [("get", o.fget), ("set", o.fset)]
        elif own:
            for k, v in list(o.__dict__.items()):
                if k not in ("__dict__", "__weakref__", "__doc__"):
                    kids.append((k, v))
            n = len(kids)
        else:
            d = getattr(o, "__dict__", None)
            if isinstance(d, dict):
                n += len(d)
                for k, v in list(d.items()):
                    kids.append((k, v))
            for c in t.__mro__:
                for s in c.__dict__.get("__slots__", ()) or ():
                    if isinstance(s, str) and s not in ("__dict__", "__weakref__"):
                        try:
                            kids.append((s, getattr(o, s)))
                        except Exception:
                            pass
        items += n
        if paths is not None and n:
            paths[label] = paths.get(label, 0) + n
        for k, v in kids:
            todo.append((label + "/" + (k if isinstance(k, str) else repr(k) if isinstance(k, (int, tuple)) and
                                        len(repr(k)) < 60 else "?") if paths is not None else "", v))
    return items, chars
