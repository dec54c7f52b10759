"""When a cache may be used (interpreted by the verifier)."""
import os


def outdated(headers, cache):
    """One of the headers that exist is newer than the cache."""
    for h in headers:
        if os.path.isfile(h):
            if os.path.getmtime(cache) < os.path.getmtime(h):
                return True
    return False


def first_missing(order, files):
    for f in order:
        if files[f] is None:
            return f
    return None
