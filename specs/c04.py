"""Reference functions for C04."""


def without_void(params):
    return [p for p in params if p[1] != ("void",)]


def without_conventions(rtype):
    a = [m for m in rtype if m != "__stdcall"]
    return [m for m in a if m != "__cdecl"]


def arg_types(params, get_type):
    return [get_type(p[1]) for p in params]


def names_of(params):
    return [p[0] for p in params]
