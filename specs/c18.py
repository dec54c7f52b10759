"""C18: what is left of a text when its comments are removed."""


def scan(s):
    """(the text without comments, whether every quote and comment ends)"""
    out, i, ok = [], 0, True
    while i < len(s):
        c = s[i]
        if c == '"' or c == "'":
            j = i + 1
            while j < len(s) and s[j] != c and s[j] != "\n":
                j += 2 if s[j] == "\\" else 1
            if j < len(s) and s[j] == c:
                out.append(s[i:j + 1])
                i = j + 1
                continue
            ok = False
        elif s.startswith("/*", i):
            j = s.find("*/", i + 2)
            if j >= 0:
                i = j + 2
                continue
            ok = False
        elif s.startswith("//", i):
            j = i + 2
            while j < len(s) and s[j] != "\n":
                # a line joined to the next one
                j += 2 if s.startswith("\\\n", j) else 1
            i = j
            continue
        out.append(c)
        i += 1
    return "".join(out), ok


def without_comments(s):
    return scan(s)[0]


def complete(s):
    return scan(s)[1]
