"""Registry of property checks."""
CHECKS = {}


def check(pid, technique):
    def deco(f):
        CHECKS[pid] = (f, technique)
        return f
    return deco


from . import effects, laws, contracts, internal, fields, snippets, guards, live, kinds, files      # noqa: E402,F401
