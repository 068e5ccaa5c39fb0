"""Enumeration of optimizer classes (independent of the package's own registry) and of their declared parameters."""
from . import boot  # noqa
import functools, importlib, inspect, pkgutil
import mealpy
from mealpy.optimizer import Optimizer
from mealpy.utils.validator import Validator


@functools.lru_cache(None)
def all_classes():
    out = {}
    for pkg in pkgutil.iter_modules(mealpy.__path__):
        if not (pkg.ispkg and pkg.name.endswith("_based")):
            continue
        p = importlib.import_module("mealpy." + pkg.name)
        for m in pkgutil.iter_modules(p.__path__):
            mod = importlib.import_module("mealpy.%s.%s" % (pkg.name, m.name))
            for n, c in inspect.getmembers(mod, inspect.isclass):
                if issubclass(c, Optimizer) and c is not Optimizer and c.__module__ == mod.__name__:
                    out["%s.%s" % (m.name, n)] = c
    return dict(sorted(out.items()))


class Spec:
    __slots__ = ("name", "kind", "default", "bound")

    def __init__(self, name, kind, default, bound):
        self.name, self.kind, self.default, self.bound = name, kind, default, bound


_KINDS = ("check_int", "check_float", "check_str", "check_bool", "check_tuple_int", "check_tuple_float", "check_is_int_and_float", "check_list_tuple", "check_is_instance")


@functools.lru_cache(None)
def param_specs(name):
    """Parameters and the ranges the constructor checks them against, observed while constructing with defaults."""
    cls = all_classes()[name]
    specs, saved = {}, {}

    def wrap(kind, orig):
        def f(self, name, value, *a, **k):
            bound = a[0] if a else next(iter(k.values()), None)
            if kind == "check_is_int_and_float":
                bl = list(a) + [None] * (2 - len(a))
                bound = [k.get("bound_int", bl[0]), k.get("bound_float", bl[1])]
            r = orig(self, name, value, *a, **k)
            specs.setdefault(name, Spec(name, kind, r, bound))
            return r
        return f
    for kind in _KINDS:
        saved[kind] = getattr(Validator, kind)
        setattr(Validator, kind, wrap(kind, saved[kind]))
    o = None
    try:
        o = cls()
    except Exception:
        pass                      # C15/C21 report constructors that fail with their own defaults
    finally:
        for kind, f in saved.items():
            setattr(Validator, kind, f)
    params = set(o.get_parameters()) if o is not None else set(specs)
    return {k: s for k, s in specs.items() if k in params}


@functools.lru_cache(None)
def optional_specs(name):
    """Documented optional keyword parameters read from **kwargs (the genetic algorithms), probed by what the constructor accepts."""
    cls = all_classes()[name]
    if "kwargs" not in inspect.signature(cls.__init__).parameters or not name.startswith("GA."):
        return []
    out, named = [], set(ctor_params(name))
    for n, kind, bound in (("selection", "check_str", ["tournament", "random", "roulette"]), ("k_way", "check_float", (0, 1.0)),
                           ("crossover", "check_str", ["one_point", "multi_points", "uniform", "arithmetic"]),
                           ("mutation_multipoints", "check_bool", None), ("mutation", "check_str", ["flip", "swap", "scramble", "inversion"])):
        doc = cls.__init__.__doc__ or ""
        if n not in named and n + " (" in doc:
            out.append(Spec(n, kind, 0.2 if n == "k_way" else None, bound))
    return out


@functools.lru_cache(None)
def ctor_params(name):
    return [p for p in inspect.signature(all_classes()[name].__init__).parameters if p not in ("self", "kwargs")]


@functools.lru_cache(None)
def min_pop(name):
    """Smallest population size of a short list that the constructor accepts with its default parameters."""
    cls = all_classes()[name]
    for n in (5, 8, 10, 12, 16, 20, 30, 50):
        try:
            cls(epoch=10000, pop_size=n)
            return n
        except ValueError:
            continue
    return 100


@functools.lru_cache(None)
def fitted(name, epoch, pop):
    """Parameters whose default lies outside the range the constructor declares for this epoch and pop_size (ranges such as
    [2, epoch / 2]), with the nearest value inside it; None when epoch or pop_size themselves are refused."""
    cls = all_classes()[name]
    args, failed = dict(epoch=epoch, pop_size=pop), []

    def wrap(orig):
        def f(self, n, value, *a, **k):
            try:
                return orig(self, n, value, *a, **k)
            except ValueError:
                failed.append((n, value, a[0] if a else k.get("bound")))
                raise
        return f
    for _ in range(6):
        del failed[:]
        saved = {kind: getattr(Validator, kind) for kind in ("check_int", "check_float")}
        for kind, f in saved.items():
            setattr(Validator, kind, wrap(f))
        try:
            cls(**args)
            break
        except ValueError:
            if not failed or failed[-1][0] in ("epoch", "pop_size") or failed[-1][2] is None:
                return None
            n, v, b = failed[-1]
            lo, hi = b[0], b[1]
            if isinstance(v, int) and not isinstance(lo, float) and not isinstance(hi, float):
                if type(b) is tuple:
                    lo, hi = lo + 1, hi - 1
                v = hi if v > hi else lo
            else:
                v = lo + (hi - lo) * (0.9 if v >= hi else 0.1)
            if lo > hi:
                return None
            args[n] = v
        finally:
            for kind, f in saved.items():
                setattr(Validator, kind, f)
    else:
        return None
    return {k: v for k, v in args.items() if k not in ("epoch", "pop_size")}
