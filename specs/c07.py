"""Reference functions for C07."""

CATEGORIES = ["values", "functions", "types", "structs", "unions", "enums"]


def forms(prefixes, name):
    return [name] + [p + name for p in prefixes]


def by_attribute(defs, prefixes, name, get):
    """get(category, name) is access by category."""
    for k in CATEGORIES:
        found = None
        for n in forms(prefixes, name):
            if n in defs[k]:
                found = get(k, n)
                break
        if found is not None:
            return found
    raise NameError(name)


def by_category(lib, defs, prefixes, typ, name):
    if typ not in CATEGORIES:
        raise KeyError(typ)
    for n in forms(prefixes, name):
        if n in defs[typ]:
            return leaf(lib, defs, typ, n)
        if typ in ("structs", "unions", "enums") and n in defs["types"]:
            return leaf(lib, defs, typ, n)
    raise NameError(name)


def leaf(lib, defs, typ, n):
    if typ == "values":
        return defs["values"][n]
    if typ == "functions":
        return lib._get_function(n)
    if typ == "types":
        return lib._get_type(defs["types"][n])
    if typ == "structs":
        return lib._get_struct("structs", n)
    if typ == "unions":
        return lib._get_struct("unions", n)
    if n in defs["enums"]:
        return defs["enums"][n]
    t = lib._headers_.eval_type([n])[0]
    if not t.startswith("enum "):
        raise KeyError(n)
    return defs["enums"][defs["types"][t][1]]
