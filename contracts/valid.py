"""Native membership test: does a value belong to a contract type (class invariants included)?"""
import re


def conforms(v, ty, depth=0):
    return any(conforms_alt(v, a, depth) for a in ty.resolve().alts)


def conforms_alt(v, a, depth):
    if type(v) is not a.cls:
        return False
    if a.consts is not None and not any(v == c for c in a.consts):
        return False
    if a.cls is str:
        return not (a.nonempty and v == "") and (a.regex is None or re.fullmatch(a.regex, v) is not None)
    if a.lo is not None and not (v >= a.lo if a.cls is int else v > a.lo):
        return False
    if a.hi is not None and v > a.hi:
        return False
    if a.items is not None:
        return len(v) == len(a.items) and all(conforms(x, t, depth + 1) for x, t in zip(v, a.items))
    if a.elem is not None:
        return len(v) >= (a.minlen or 0) and (a.maxlen is None or len(v) <= a.maxlen) and all(
            conforms(x, a.elem, depth + 1) for x in v)
    if a.keys is not None:
        return all(type(k) is str and conforms(x, a.keys.get(k, a.val), depth + 1) for k, x in v.items())
    if a.val is not None:
        return len(v) >= (a.minlen or 0) and all(
            conforms(k, a.key, depth + 1) and conforms(x, a.val, depth + 1) for k, x in v.items())
    if a.fields is not None:
        if set(v.__dict__) - set(a.fields):
            return False
        if not all(f in v.__dict__ and conforms(v.__dict__[f], t, depth + 1) for f, t in a.fields.items()):
            return False
        if a.inv is not None:
            try:
                return bool(a.inv(v))
            except Exception:
                return False
    return True


def valid_args(driver, args):
    return all(conforms(args[n], t) for n, t in driver.inputs.items())
