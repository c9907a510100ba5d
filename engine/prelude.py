"""Built-in functions that the verifier reads as Python code (see builtin.py)."""


def first_or(it, default):
    for x in it:
        return x
    return default


def fromkeys(it, value):
    return {k: value for k in it}
