"""Reference semantics of the searches (interpreted by the verifier, and used
as oracle for concrete runs)."""
import os


def std_dirs(platform):
    if platform == "darwin":
        return [
            "/usr/local/include",
            "/usr/include",
            "/System/Library/Frameworks",
            "/Library/Frameworks",
        ]
    if platform.startswith("linux"):
        return ["/usr/local/include", "/usr/target/include", "/usr/include"]
    return []


def find_header(name, dirs, registered, platform):
    order = []
    if dirs:
        order = order + dirs
    order = order + registered[::-1] + std_dirs(platform)
    for d in order:
        if os.path.isfile(os.path.join(d, name)):
            return os.path.join(d, name)
    raise OSError("not found")


def find_library(name, dirs, registered, system):
    order = []
    if dirs:
        order = order + dirs
    order = order + registered[::-1]
    for d in order:
        if os.path.isfile(os.path.join(d, name)):
            return os.path.join(d, name)
    found = system(name)
    if found:
        return found
    raise OSError("not found")


def registered_after(registered, new):
    return registered + [d for d in new if os.path.isdir(d)]


def header_path(name, dirs, registered, platform):
    if os.path.isfile(name):
        return name
    return find_header(name, dirs, registered, platform)
