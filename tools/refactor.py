#!/usr/bin/env python3
"""Edits that keep the behaviour: no check may raise an alarm on them.

refactor.py [NAME...]   applies each edit to a copy of the tree, runs the tests
                        and the checks of the properties it touches
"""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import plant

P, L, B, U, I = "c_parser.py", "c_library.py", "backends/ctypes.py", "utils.py", "init.py"

EDITS = {}


def edit(name, props, *edits):
    EDITS[name] = (props.split(), edits)


edit("members-helper", "C13 C10 C14",
     (P, '''                    if len(m[0].decl_list) == 0:  # anonymous member
                        member = [None, Type(typ[0]), None]
                        if m[0].bit:
                            member.append(int(m[0].bit))
                        struct.append(tuple(member))

                    for d in m[0].decl_list:
                        (name, decl) = self.process_type(typ, d)
                        member = [name, decl, val]
                        if m[0].bit:
                            member.append(int(m[0].bit))
                        struct.append(tuple(member))
                        logger.debug(
                            "      {} {} {} {}".format(name, decl, val, m[0].bit)
                        )
''', '''                    width = (int(m[0].bit),) if m[0].bit else ()
                    if len(m[0].decl_list) == 0:  # anonymous member
                        struct.append((None, Type(typ[0]), None) + width)
                    for d in m[0].decl_list:
                        name, decl = self.process_type(typ, d)
                        struct.append((name, decl, val) + width)
'''))
edit("members-method", "C13 C10 C14",
     (P, '''                struct = []
                for m in t.members:
                    typ = m[0].type
''', '''                struct = []
                for group in t.members:
                    m = [group[0]]
                    typ = m[0].type
'''))
edit("struct-name-method", "C13 C10 C14",
     (P, '''            if t.name == "":
                n = 0
                while True:
                    sname = "anon_{}{}".format(str_typ, n)
                    if sname not in self.defs[str_typ + "s"]:
                        break
                    n += 1
            else:
                if isinstance(t.name, str):
                    sname = t.name
                else:
                    sname = t.name[0]

            logger.debug("  NAME''', '''            sname = self._compound_name(t.name, str_typ)

            logger.debug("  NAME'''),
     (P, '''    def process_variable(self, s, line, t):
''', '''    def _compound_name(self, name, kind):
        if name != "":
            return name if isinstance(name, str) else name[0]
        n = 0
        while "anon_{}{}".format(kind, n) in self.defs[kind + "s"]:
            n += 1
        return "anon_{}{}".format(kind, n)

    def process_variable(self, s, line, t):
'''))
edit("packing-reversed", "C10 C03",
     (P, '''        packing = None
        for p in self.pack_list[self.current_file]:
            # Pragma lines are counted from 0, line is counted from 1
            if p[0] < line:
                packing = p[1]
            else:
                break
        return packing
''', '''        for start, packing in reversed(self.pack_list[self.current_file]):
            # Pragma lines are counted from 0, line is counted from 1
            if start < line:
                return packing
        return None
'''))
edit("packing-unpacked", "C10 C03",
     (P, '''        for p in self.pack_list[self.current_file]:
            # Pragma lines are counted from 0, line is counted from 1
            if p[0] < line:
                packing = p[1]
            else:
                break
''', '''        changes = self.pack_list[self.current_file]
        for number, value in changes:
            # Pragma lines are counted from 0, line is counted from 1
            if number >= line:
                break
            packing = value
'''))
edit("pragma-method", "C10 C09 C11",
     (P, '''                    if pushpop == "push":
                        pack_stack.append((packing, id))
                    elif opts[0] == "pop":
                        if id is None:
                            # Popping more than was pushed has no effect
                            if len(pack_stack) > 1:
                                pack_stack.pop()
                        else:
                            ind = None
                            for j, s in enumerate(pack_stack):
                                if s[1] == id:
                                    ind = j
                                    break
                            if ind is not None:
                                pack_stack = pack_stack[:ind]
                        if val is None:
''', '''                    if pushpop == "push":
                        pack_stack.append((packing, id))
                    elif opts[0] == "pop":
                        pack_stack = self._pop_packing(pack_stack, id)
                        if val is None:
'''),
     (P, '''    def eval_preprocessor_expr(self, expr):
''', '''    @staticmethod
    def _pop_packing(stack, label):
        if label is None:
            return stack[:-1] if len(stack) > 1 else stack
        for j, s in enumerate(stack):
            if s[1] == label:
                return stack[:j]
        return stack

    def eval_preprocessor_expr(self, expr):
'''))
edit("enum-setdefault", "C12 C14",
     (P, '''                for v in t.members:
                    if v.value != "":
                        try:
                            i = self.eval_expr(v.value)
                        except Exception:
                            pass
                    enum[v.name] = i
                    self.add_def("values", v.name, i)
                    i += 1
''', '''                for member in t.members:
                    if member.value != "":
                        i = self.eval_expr(member.value)
                    label = member.name
                    self.add_def("values", label, i)
                    enum[label] = i
                    i = i + 1
'''))
edit("enum-name", "C12 C14",
     (P, '''                n = 0
                while True:
                    name = "anon_enum{}".format(n)
                    if name not in self.defs["enums"]:
                        break
                    n += 1
            else:
                if isinstance(t.name, str):
                    name = t.name
                else:
                    name = t.name[0]
''', '''                n = 0
                name = "anon_enum0"
                while name in self.defs["enums"]:
                    n += 1
                    name = f"anon_enum{n}"
            else:
                name = t.name if isinstance(t.name, str) else t.name[0]
'''))
edit("import-items", "C14 C15",
     (P, '''        for f in data.keys():
            self.current_file = f
            for k in self.data_list:
                for n in data[f][k]:
                    self.add_def(k, n, data[f][k][n])
''', '''        for f, defs in data.items():
            self.current_file = f
            for kind in self.data_list:
                for n, value in defs[kind].items():
                    self.add_def(kind, n, value)
'''))
edit("add-def-comprehension", "C14",
     (P, '''        if self.current_file is None:
            base_name = None
        else:
            base_name = os.path.basename(self.current_file)
        if base_name not in self.file_defs:
            self.file_defs[base_name] = {}
            for k in self.data_list:
                self.file_defs[base_name][k] = {}
        self.file_defs[base_name][typ][name] = val
''', '''        path = self.current_file
        base_name = None if path is None else os.path.basename(path)
        if base_name not in self.file_defs:
            self.file_defs[base_name] = {k: {} for k in self.data_list}
        defs = self.file_defs[base_name]
        defs[typ][name] = val
'''))
edit("rem-def-if", "C14",
     (P, '''        for file_defs in self.file_defs.values():
            file_defs[typ].pop(name, None)
''', '''        for f in self.file_defs:
            if name in self.file_defs[f][typ]:
                del self.file_defs[f][typ][name]
'''))
edit("load-cache-split", "C15",
     (P, '''        # Make sure cache is newer than all input files
        if check_validity:
            mtime = os.stat(cache_file).st_mtime
            for f in self.file_order:
                # If file does not exist, then it does not count against the
                # validity of the cache.
                if os.path.isfile(f) and os.stat(f).st_mtime > mtime:
                    logger.debug("Cache file is out of date.")
                    return False
''', '''        # Make sure cache is newer than all input files
        if check_validity and self._is_stale(cache_file):
            logger.debug("Cache file is out of date.")
            return False
'''),
     (P, '''    def import_dict(self, data):
''', '''    def _is_stale(self, cache_file):
        mtime = os.stat(cache_file).st_mtime
        return any(
            os.path.isfile(f) and os.stat(f).st_mtime > mtime for f in self.file_order
        )

    def import_dict(self, data):
'''))
edit("load-cache-version-first", "C15",
     (P, '''                if cache["opts"] != self.init_opts:
                    db = logger.debug
''', '''                same = cache["opts"] == self.init_opts
                if not same:
                    db = logger.debug
'''))
edit("write-cache-literal", "C15",
     (P, '''        cache = {}
        cache["opts"] = self.init_opts
        cache["defs"] = self.defs
        cache["file_defs"] = self.file_defs
        cache["version"] = self.cache_version
        import pickle

        with open(cache_file, "wb") as f:
            pickle.dump(cache, f)
''', '''        import pickle

        content = {
            "version": self.cache_version,
            "opts": self.init_opts,
            "defs": self.defs,
            "file_defs": self.file_defs,
        }
        with open(cache_file, "wb") as stream:
            pickle.dump(content, stream)
'''))
edit("find-headers-helper", "C15 C16",
     (P, '''        hs = []
        for header in headers:
            if os.path.isfile(header):
                hs.append(header)
            else:
                try:
                    hs.append(find_header(header))
                except OSError:
                    # A missing header is reported by process_all if there is
                    # no cache to use in place of it.
                    hs.append(header)

        return hs
''', '''        def locate(header):
            if os.path.isfile(header):
                return header
            try:
                return find_header(header)
            except OSError:
                # A missing header is reported by process_all if there is
                # no cache to use in place of it.
                return header

        return [locate(h) for h in headers]
'''))
edit("load-file-items", "C15",
     (P, '''        with open(path, "r", encoding=encoding) as fd:
            self.files[path] = fd.read()

        if replace is not None:
            for s in replace:
                self.files[path] = re.sub(s, replace[s], self.files[path])
''', '''        with open(path, "r", encoding=encoding) as fd:
            text = fd.read()

        for pattern, new in (replace or {}).items():
            text = re.sub(pattern, new, text)
        self.files[path] = text
'''))
edit("preprocess-keywords", "C09 C10 C11",
     (P, '''                if d == "ifdef":
                    d = "if"
                    rest = "defined " + rest
                elif d == "ifndef":
                    d = "if"
                    rest = "!defined " + rest
''', '''                if d in ("ifdef", "ifndef"):
                    rest = ("!" if d == "ifndef" else "") + "defined " + rest
                    d = "if"
'''))
edit("preprocess-else", "C09 C10 C11",
     (P, '''                    if_true[-1] = (not if_hit[-1]) and all(if_true[:-1])
                    if_hit[-1] = True
''', '''                    outer = all(if_true[:-1])
                    if_true[-1] = outer and not if_hit[-1]
                    if_hit[-1] = True
'''))
edit("preprocess-if", "C09 C10 C11",
     (P, '''                    if all(if_true):
                        ev = self.eval_preprocessor_expr(rest)
                    else:
                        ev = False
''', '''                    ev = all(if_true) and self.eval_preprocessor_expr(rest)
'''))
edit("macro-defn-flat", "C11",
     (P, '''        is_copy = t.args == "" and macro_val in self.defs["fnmacros"]

        # The latest definition replaces a macro of the other kind
        other = "macros" if is_copy or t.args != "" else "fnmacros"
        if t.macro in self.defs[other]:
            self.rem_def(other, t.macro)

        if is_copy:
            self.add_def("fnmacros", t.macro, self.defs["fnmacros"][macro_val])
            logger.debug("  Copy fn macro {} => {}".format(macro_val, t.macro))
''', '''        fnmacros = self.defs["fnmacros"]
        has_args = t.args != ""
        is_copy = not has_args and macro_val in fnmacros

        # The latest definition replaces a macro of the other kind
        if is_copy or has_args:
            other = "macros"
        else:
            other = "fnmacros"
        if t.macro in self.defs[other]:
            self.rem_def(other, t.macro)

        if is_copy:
            self.add_def("fnmacros", t.macro, fnmacros[macro_val])
            logger.debug("  Copy fn macro {} => {}".format(macro_val, t.macro))
'''))
edit("compile-index-map", "C11",
     (P, '''            arg = m.groups()[N]
            if arg is not None:
                parts.append(escape(text[start : m.start(N)]) + "{}")
                start = m.end(N)
                arg_order.append(args.index(arg))
''', '''            arg = m.group(N + 1)
            if arg is None:
                continue
            parts.append(escape(text[start : m.start(N)]) + "{}")
            arg_order.append(args.index(arg))
            start = m.end(N)
'''))
edit("remove-comments-local", "C18",
     (P, '''        text = self.files[path]
        # match quoted strings first to prevent matching comments inside quotes
        comment_remover = (
            quotedString | cStyleComment.suppress() | dblSlashComment.suppress()
        )
        self.files[path] = comment_remover.transformString(text)
''', '''        # match quoted strings first to prevent matching comments inside quotes
        comment = cStyleComment | dblSlashComment
        comment_remover = quotedString | comment.suppress()
        self.files[path] = comment_remover.transformString(self.files[path])
'''))
edit("remove-comments-re", "C18",
     (P, '''        text = self.files[path]
        # match quoted strings first to prevent matching comments inside quotes
        comment_remover = (
            quotedString | cStyleComment.suppress() | dblSlashComment.suppress()
        )
        self.files[path] = comment_remover.transformString(text)
''', '''        text = self.files[path]

        def keep_strings(tokens):
            return tokens[0] if tokens[0][0] in "\\"'" else ""

        remover = (quotedString | cStyleComment | dblSlashComment).copy()
        remover.setParseAction(keep_strings)
        self.files[path] = remover.transformString(text)
'''))
edit("declarator-extend", "C13 C10",
     (P, '''        if "ptrs" in decl and len(decl["ptrs"]) > 0:
            toks += ("*",) * len(decl["ptrs"])
            quals += map(tuple, decl["ptrs"])

        if "arrays" in decl and len(decl["arrays"]) > 0:
            toks.extend([self.eval_expr(x)] for x in decl["arrays"])
            quals += [()] * len(decl["arrays"])
''', '''        if "ptrs" in decl:
            for ptr in decl["ptrs"]:
                toks.append("*")
                quals.append(tuple(ptr))

        if "arrays" in decl:
            for size in decl["arrays"]:
                toks.append([self.eval_expr(size)])
                quals.append(())
'''))
edit("declarator-args-method", "C13",
     (P, '''                ex = lambda x: (x[0],) if len(x) != 0 else (None,)  # noqa
                toks.append(
                    tuple(
                        [
                            self.process_type(a["type"], a["decl"][0]) + ex(a["val"])
                            for a in decl["args"]
                        ]
                    )
                )
''', '''                toks.append(tuple(self._process_arg(a) for a in decl["args"]))
'''),
     (P, '''    def process_type(self, typ, decl):
''', '''    def _process_arg(self, arg):
        name, typ = self.process_type(arg["type"], arg["decl"][0])
        val = arg["val"]
        return (name, typ, val[0] if len(val) > 0 else None)

    def process_type(self, typ, decl):
'''))
edit("declarator-name-first", "C13",
     (P, '''        if "center" in decl:
            (n, t, q) = self.process_declarator(decl["center"][0])
            if n is not None:
                name = n
            toks.extend(t)
            quals = [*quals[:-1], (quals[-1] or ()) + q[0], *list(q[1:])]

        if "name" in decl:
            name = decl["name"]

        return (name, toks, tuple(quals))
''', '''        name = None
        if "center" in decl:
            name, inner, inner_quals = self.process_declarator(decl["center"][0])
            toks += inner
            last = (quals.pop() or ()) + inner_quals[0]
            quals.append(last)
            quals.extend(inner_quals[1:])

        if "name" in decl:
            name = decl["name"]

        return name, toks, tuple(quals)
'''))
edit("variable-flip", "C13",
     (P, '''                # This is a function prototype
                if type(typ[-1]) is tuple:
                    logger.debug(
                        "  Add function prototype: {} {} {}".format(name, typ, val)
                    )
                    self.add_def("functions", name, typ.add_compatibility_hack())
                # This is a variable
                else:
                    logger.debug("  Add variable: {} {} {}".format(name, typ, val))
                    self.add_def("variables", name, (val, typ))
                    self.add_def("values", name, val)
''', '''                if not type(typ[-1]) is tuple:
                    # This is a variable
                    self.add_def("values", name, val)
                    self.add_def("variables", name, (val, typ))
                    continue
                # This is a function prototype
                self.add_def("functions", name, typ.add_compatibility_hack())
'''))
edit("type-eval-loop", "C01 C02",
     (P, '''            words = [w for w in self.type_spec.split() if w != "signed"]
            return Type(
                " ".join(words) or "int",
                *self.declarators,
                type_quals=self.type_quals,
            )
''', '''            words = []
            for w in self.type_spec.split():
                if w != "signed":
                    words.append(w)
            base = " ".join(words)
            if not base:
                base = "int"
            return Type(base, *self.declarators, type_quals=self.type_quals)
'''))
edit("type-eval-quals", "C01 C02",
     (P, '''        pt = type_map[parent]
        evaled_type = Type(
            pt.type_spec,
            *(pt.declarators + self.declarators),
            type_quals=(
                (
                    *pt.type_quals[:-1],
                    (pt.type_quals[-1] or ()) + self.type_quals[0],
                    *self.type_quals[1:],
                )
            ),
        )

        return evaled_type.eval(type_map, used)
''', '''        pt = type_map[parent]
        joined = (pt.type_quals[-1] or ()) + self.type_quals[0]
        quals = pt.type_quals[:-1] + (joined,) + self.type_quals[1:]
        declarators = pt.declarators + self.declarators
        return Type(pt.type_spec, *declarators, type_quals=quals).eval(type_map, used)
'''))
edit("type-fund-all", "C01 C02",
     (P, '''        for w in self[0].split():
            if w not in names:
                return False
        return True
''', '''        return all(w in names for w in self[0].split())
'''))
edit("type-fund-prefixes", "C01 C02",
     (P, '''        if (
            self[0].startswith("struct ")
            or self[0].startswith("union ")
            or self[0].startswith("enum ")
        ):
            return True
''', '''        if self[0].startswith(("struct ", "union ", "enum ")):
            return True
'''))
edit("lookup-kinds", "C07",
     (L, '''            for k in [
                "values",
                "functions",
                "types",
                "structs",
                "unions",
                "enums",
                None,
            ]:
                if k is None:
                    raise NameError(name)
                obj = None
                for n in names:
                    if n in self._defs_[k]:
                        obj = self(k, n)
                        break
                if obj is not None:
                    break
            self._all_objs_[name] = obj
        return self._all_objs_[name]
''', '''            obj = None
            for k in ("values", "functions", "types", "structs", "unions", "enums"):
                for n in names:
                    if n in self._defs_[k]:
                        obj = self(k, n)
                        break
                if obj is not None:
                    break
            else:
                raise NameError(name)
            self._all_objs_[name] = obj
        return self._all_objs_[name]
'''))
edit("lookup-enum-method", "C07",
     (L, '''                # Allow automatic resolving of typedefs that alias enums
                if n not in self._defs_["enums"]:
                    if n not in self._defs_["types"]:
                        raise KeyError('No enums named "{}"'.format(n))
                    typ = self._headers_.eval_type([n])[0]
                    if typ[:5] != "enum ":
                        raise KeyError('No enums named "{}"'.format(n))
                    # Look up internal name of enum
                    n = self._defs_["types"][typ][1]
                obj = self._defs_["enums"][n]

                return obj
''', '''                return self._get_enum(n)
'''),
     (L, '''    def __repr__(self):
        return "<CLibrary instance: %s>" % str(self._lib_)
''', '''    def _get_enum(self, n):
        # Allow automatic resolving of typedefs that alias enums
        if n not in self._defs_["enums"]:
            if n not in self._defs_["types"]:
                raise KeyError('No enums named "{}"'.format(n))
            typ = self._headers_.eval_type([n])[0]
            if not typ.startswith("enum "):
                raise KeyError('No enums named "{}"'.format(n))
            # Look up internal name of enum
            n = self._defs_["types"][typ][1]
        return self._defs_["enums"][n]

    def __repr__(self):
        return "<CLibrary instance: %s>" % str(self._lib_)
'''))
edit("call-args-comprehension", "C04 C05 C06",
     (L, '''        # We'll need at least this many arguments.
        arg_list = [None] * max(len(self.req_args), len(args))

        # First fill in args
        for i in range(len(args)):
            if args[i] is None:
                arg_list[i] = self.lib.Null
            else:
                arg_list[i] = args[i]
''', '''        null = self.lib.Null
        arg_list = [null if a is None else a for a in args]
        # We'll need at least this many arguments.
        arg_list += [None] * (len(self.req_args) - len(arg_list))
'''))
edit("call-kwargs-items", "C04 C05 C06",
     (L, '''        for k in kwargs:
            if k not in self.arg_inds:
                mess = "Function signature has no argument named '{}'"
                raise TypeError(mess.format(k))

            ind = self.arg_inds[k]
            # Stretch argument list if needed
            if ind >= len(arg_list):  #
                arg_list += [None] * (ind - len(arg_list) + 1)
            if kwargs[k] is None:
                arg_list[ind] = self.lib.Null
            else:
                arg_list[ind] = kwargs[k]
''', '''        for k, value in kwargs.items():
            ind = self.arg_inds.get(k)
            if ind is None:
                mess = "Function signature has no argument named '{}'"
                raise TypeError(mess.format(k))

            # Stretch argument list if needed
            while len(arg_list) <= ind:
                arg_list.append(None)
            arg_list[ind] = self.lib.Null if value is None else value
'''))
edit("call-missings-inline", "C04 C05 C06",
     (L, '''        missings = {
            i: arg
            for i, arg in enumerate(arg_list)
            if arg is None or arg is self.lib.Null
        }
        for i, arg in missings.items():
            try:
''', '''        for i, arg in enumerate(list(arg_list)):
            if arg is not None and arg is not self.lib.Null:
                continue
            try:
'''))
edit("call-lock-helper", "C04 C05 C06",
     (L, '''            if self.lock_call:
                with self.lib._lock_:
                    res = self.func(*arg_list)
            else:
                res = self.func(*arg_list)
''', '''            res = self._invoke(arg_list)
'''),
     (L, '''    def arg_c_type(self, arg):
''', '''    def _invoke(self, arg_list):
        if not self.lock_call:
            return self.func(*arg_list)
        with self.lib._lock_:
            return self.func(*arg_list)

    def arg_c_type(self, arg):
'''))
edit("call-lock-explicit", "C04 C05 C06",
     (L, '''                with self.lib._lock_:
                    res = self.func(*arg_list)
            else:
''', '''                self.lib._lock_.acquire()
                try:
                    res = self.func(*arg_list)
                finally:
                    self.lib._lock_.release()
            else:
'''))
edit("result-find-arg", "C05",
     (L, '''        for i, a in enumerate(self.sig[1]):
            if a[0] == arg:
                return i
        mess =''', '''        names = [a[0] for a in self.sig[1]]
        if arg in names:
            return names.index(arg)
        mess ='''))
edit("result-getitem", "C05",
     (L, '''        if isinstance(n, int):
            arg = self.args[n]
        elif isinstance(n, str):
            n = self.find_arg(n)
            arg = self.args[n]
        else:
            raise ValueError("Index must be int or str.")

        if n in self.guessed:
            arg = arg[0]

        return self.lib._extract_val_(arg)
''', '''        if isinstance(n, str):
            n = self.find_arg(n)
        elif not isinstance(n, int):
            raise ValueError("Index must be int or str.")

        arg = self.args[n]
        return self.lib._extract_val_(arg[0] if n in self.guessed else arg)
'''))
edit("function-init-order", "C04",
     (L, '''        self.res_type = lib._get_type(self.sig[0])
        self.arg_types = [lib._get_type(s[1]) for s in self.sig[1]]
        self.req_args = [x[0] for x in self.sig[1] if x[2] is None]
        # Mapping from argument names to indices
        self.arg_inds = {s[0]: i for i, s in enumerate(self.sig[1])}
''', '''        params = self.sig[1]
        self.arg_types = []
        self.req_args = []
        # Mapping from argument names to indices
        self.arg_inds = {}
        for i, (arg_name, typ, default) in enumerate(params):
            self.arg_types.append(lib._get_type(typ))
            if default is None:
                self.req_args.append(arg_name)
            self.arg_inds[arg_name] = i
        self.res_type = lib._get_type(self.sig[0])
'''))

edit("locations-loop", "C16",
     (U, """    dirs = [d for d in dir_list if os.path.isdir(d)]
    rejected = [d for d in dir_list if d not in dirs]
    if rejected:
        msg = "The following directories are invalid: {}"
        logging.warning(msg.format(rejected))
    HEADER_DIRS.extend(dirs)
""", """    rejected = []
    for d in dir_list:
        if os.path.isdir(d):
            HEADER_DIRS.append(d)
        else:
            rejected.append(d)
    if rejected:
        msg = "The following directories are invalid: {}"
        logging.warning(msg.format(rejected))
"""))
edit("locations-shared", "C16",
     (U, """    dirs = [d for d in dir_list if os.path.isdir(d)]
    rejected = [d for d in dir_list if d not in dirs]
    if rejected:
        msg = "The following directories are invalid: {}"
        logging.warning(msg.format(rejected))
    HEADER_DIRS.extend(dirs)
""", """    _register(dir_list, HEADER_DIRS)
"""),
     (U, """    dirs = [d for d in dir_list if os.path.isdir(d)]
    rejected = [d for d in dir_list if d not in dirs]
    if rejected:
        msg = "The following directories are invalid: {}"
        logging.warning(msg.format(rejected))
    LIBRARY_DIRS.extend(dirs)
""", """    _register(dir_list, LIBRARY_DIRS)


def _register(dir_list, registered):
    valid, rejected = [], []
    for d in dir_list:
        (valid if os.path.isdir(d) else rejected).append(d)
    if rejected:
        msg = "The following directories are invalid: {}"
        logging.warning(msg.format(rejected))
    registered.extend(valid)
"""))
edit("find-header-next", "C16",
     (U, """    for d in dirs:
        path = os.path.join(d, h_name)
        if os.path.isfile(path):
            return path

    raise OSError("Can't find header with h_name {}".format(h_name))
""", """    candidates = (os.path.join(d, h_name) for d in dirs)
    found = next((p for p in candidates if os.path.isfile(p)), None)
    if found is None:
        raise OSError("Can't find header with h_name {}".format(h_name))
    return found
"""))
edit("find-header-dirs", "C16",
     (U, """    if dirs:
        dirs = dirs + HEADER_DIRS[::-1]
    else:
        dirs = HEADER_DIRS[::-1]
""", """    dirs = list(dirs or []) + list(reversed(HEADER_DIRS))
"""))
edit("find-library-helper", "C16 C08",
     (U, """    for d in dirs:
        path = os.path.join(d, name)
        if os.path.isfile(path):
            return LibraryPath(path)

    path = find_lib(name)
    if path:
        return LibraryPath(path)

    raise OSError("Can't find library with name {}".format(name))
""", """    path = _first_file(dirs, name) or find_lib(name)
    if not path:
        raise OSError("Can't find library with name {}".format(name))
    return LibraryPath(path)


def _first_file(dirs, name):
    for d in dirs:
        path = os.path.join(d, name)
        if os.path.isfile(path):
            return path
    return None
"""))
edit("meta-get", "C08",
     (L, """        if lib_path in cls.libs:
            return cls.libs[lib_path]

        else:
            obj = super(CLibraryMeta, backend_cls).__call__(lib, *args, **kwargs)
            cls.libs[lib_path] = obj
            return obj
""", """        obj = cls.libs.get(lib_path)
        if obj is None:
            obj = super(CLibraryMeta, backend_cls).__call__(lib, *args, **kwargs)
            cls.libs[lib_path] = obj
        return obj
"""))
edit("meta-bitness-first", "C08",
     (L, """            backend_cls = cls.backends[kwargs.get("backend", "ctypes")]

            lib_arch = LibraryPath(lib_path).arch
            py_bitness = 64 if sys.maxsize > 2**32 else 32
            if lib_arch and py_bitness not in lib_arch:
                raise OSError("Library bitness does not match Python's")
            lib = lib_path
""", """            py_bitness = 32 if sys.maxsize <= 2**32 else 64
            lib_arch = LibraryPath(lib_path).arch
            if lib_arch:
                if py_bitness not in lib_arch:
                    raise OSError("Library bitness does not match Python's")
            backend_cls = cls.backends[kwargs.get("backend", "ctypes")]
            lib = lib_path
"""))
edit("arch-list", "C08",
     (U, """    ret = []
    if this_platform.startswith("linux"):
        if "32-bit" in out:
            ret.append(32)
        if "64-bit" in out:
            ret.append(64)
    elif this_platform == "darwin":
        if "(for architecture i386)" in out:
            ret.append(32)
        if "(for architecture x86_64)" in out:
            ret.append(64)

    return tuple(ret)
""", """    if this_platform == "darwin":
        marks = ("(for architecture i386)", 32), ("(for architecture x86_64)", 64)
    else:
        marks = ("32-bit", 32), ("64-bit", 64)
    return tuple(bits for mark, bits in marks if mark in out)
"""))
edit("init-flag", "C17",
     (I, """    if CParser._init or CLibrary._init:
        raise RuntimeError("Can only initialise the parser once")

    extra_types = dict(extra_types) if extra_types else {}
    extra_modifiers = extra_modifiers if extra_modifiers else []

    _init_cparser(extra_types.keys(), extra_modifiers)
    init_libraries(extra_types)

    CParser._init = True
    CLibrary._init = True
""", """    already = CParser._init or CLibrary._init
    if already:
        raise RuntimeError("Can only initialise the parser once")

    types = dict(extra_types or {})
    init_parser_modifiers = extra_modifiers or []

    _init_cparser(list(types), init_parser_modifiers)
    init_libraries(types)

    CLibrary._init = CParser._init = True
"""))
edit("init-copy", "C17",
     (I, """    extra_types = dict(extra_types) if extra_types else {}
    extra_modifiers = list(extra_modifiers) if extra_modifiers else []

    if os""", """    extra_types = {**(extra_types or {})}
    extra_modifiers = [*(extra_modifiers or [])]

    if os"""))
edit("get-type-base", "C02 C03",
     (B, """            # If the base type is in the list of existing ctypes:
            elif typ[0] in self._types_:
                cls = self._types_[typ[0]]

            # structs, unions, enums:
            elif typ[0][:7] == "struct ":
                cls = self._get_struct("structs", self._defs_["types"][typ[0]][1])
            elif typ[0][:6] == "union ":
                cls = self._get_struct("unions", self._defs_["types"][typ[0]][1])
            elif typ[0][:5] == "enum ":
                cls = c_int

            # void
            elif typ[0] == "void":
                cls = None
            else:
                raise KeyError("Can't find base type for {}".format(typ))
""", """            else:
                cls = self._get_base_type(typ[0])
"""),
     (B, """    def _get_struct(self, str_type, str_name):
""", """    def _get_base_type(self, base):
        # If the base type is in the list of existing ctypes:
        if base in self._types_:
            return self._types_[base]
        # structs, unions, enums:
        if base.startswith("struct "):
            return self._get_struct("structs", self._defs_["types"][base][1])
        if base.startswith("union "):
            return self._get_struct("unions", self._defs_["types"][base][1])
        if base.startswith("enum "):
            return c_int
        # void
        if base == "void":
            return None
        raise KeyError("Can't find base type for {}".format(base))

    def _get_struct(self, str_type, str_name):
"""))
edit("get-type-merge", "C02 C03",
     (B, """            n_mods = []
            # Go through the modifier looking for array modifiers.
            # Array modifiers are list and if we find consecutive modifiers we merge
            # them. This allows to iterate on them in reverse order to create the
            # proper ctypes type
            if len(mods):
                seen = mods[0]
                for m in mods[1:]:
                    if isinstance(seen, list) and isinstance(m, list):
                        seen = seen + m
                    else:
                        n_mods.append(seen)
                        seen = m
                n_mods.append(seen)
            mods = n_mods
""", """            # Merge consecutive array modifiers (lists). This allows to iterate
            # on them in reverse order to create the proper ctypes type
            n_mods = []
            for m in mods:
                if n_mods and isinstance(m, list) and isinstance(n_mods[-1], list):
                    n_mods[-1] = n_mods[-1] + m
                else:
                    n_mods.append(m)
            mods = n_mods
"""))
edit("get-struct-names", "C03",
     (B, """                    padding = len(d) > 3
                    c = 0
                    while True:
                        name = ("anon_padding%d" if padding else "anon_member%d") % c
                        if name not in members:
                            d = (name, *d[1:])
                            defs[i] = d
                            if not padding:
                                anon.append(name)
                            break
                        c += 1
                members.append(d[0])
""", """                    padding = len(d) > 3
                    stem = "anon_padding" if padding else "anon_member"
                    c = 0
                    while "%s%d" % (stem, c) in members:
                        c += 1
                    name = "%s%d" % (stem, c)
                    defs[i] = d = (name, *d[1:])
                    if not padding:
                        anon.append(name)
                members.append(d[0])
"""))
edit("get-struct-fields", "C03",
     (B, """                s._fields_ = [
                    (m[0], self._get_type(m[1]))
                    if len(m) < 4
                    else (m[0], self._get_type(m[1]), m[3])
                    for m in defs
                ]
""", """                fields = []
                for m in defs:
                    field = (m[0], self._get_type(m[1]))
                    if len(m) >= 4:
                        field += (m[3],)
                    fields.append(field)
                s._fields_ = fields
"""))
edit("alias-early", "C03",
     (L, """        if str_name not in self._defs_[str_type]:
            if str_name not in self._defs_["types"]:
                mess = 'No struct/union named "{}"'
                raise KeyError(mess.format(str_name))

            typ = self._headers_.eval_type([str_name])[0]
            if typ[:7] != "struct " and typ[:6] != "union ":
                mess = 'No struct/union named "{}"'
                raise KeyError(mess.format(str_name))

            return self._defs_["types"][typ][1]

        else:
            return str_name
""", """        if str_name in self._defs_[str_type]:
            return str_name

        types = self._defs_["types"]
        if str_name in types:
            typ = self._headers_.eval_type([str_name])[0]
            if typ.startswith(("struct ", "union ")):
                return types[typ][1]

        raise KeyError('No struct/union named "{}"'.format(str_name))
"""))
edit("get-pointer", "C04",
     (B, """        arg_type_list = list(arg_type)
        cls = self._get_type(sig, pointers=False)
        special_pointer_types = {None: c_void_p, c_char: c_char_p, c_wchar: c_wchar_p}
        if cls in special_pointer_types:
            cls = special_pointer_types[cls]
            del arg_type_list[1]
        for pointer_decl in arg_type_list[1:-1]:
            cls = POINTER(cls)
        return pointer(cls())
""", """        levels = len(arg_type) - 1
        cls = self._get_type(sig, pointers=False)
        special_pointer_types = {None: c_void_p, c_char: c_char_p, c_wchar: c_wchar_p}
        if cls in special_pointer_types:
            cls = special_pointer_types[cls]
            levels -= 1
        for _ in range(levels - 1):
            cls = POINTER(cls)
        return pointer(cls())
"""))
edit("get-array", "C02",
     (B, """        new = typ
        for s in size[::-1]:
            new *= s

        if vals:
            return new(*vals)
        else:
            return new()
""", """        cls = typ
        for dim in reversed(size):
            cls = cls * dim
        return cls(*vals) if vals else cls()
"""))
edit("constructor-prefix", "C07 C06",
     (L, """        if prefix is None:
            self._prefix_ = []
        elif isinstance(prefix, list):
            self._prefix_ = prefix
        else:
            self._prefix_ = [prefix]

        self._lock_calls_ = lock_calls
        if lock_calls:
            self._lock_ = RLock()

        self._objs_ = {}
        for k in ["values", "functions", "types", "structs", "unions", "enums"]:
            self._objs_[k] = {}
""", """        self._lock_calls_ = lock_calls
        if self._lock_calls_:
            self._lock_ = RLock()

        if prefix is None:
            prefix = []
        self._prefix_ = prefix if isinstance(prefix, list) else [prefix]

        kinds = ("values", "functions", "types", "structs", "unions", "enums")
        self._objs_ = {k: {} for k in kinds}
"""))
edit("fn-macro-args", "C11",
     (P, """        args = [self.expand_macros(arg) for arg in args]
        new_str = defn[0].format(*[args[i] for i in defn[1]])

        return (new_str, end)
""", """        template, order = defn
        expanded = []
        for arg in args:
            expanded.append(self.expand_macros(arg))
        return template.format(*[expanded[i] for i in order]), end
"""))
edit("expand-search-pos", "C11",
     (P, """                # If function macro expansion fails, just ignore it.
                try:
                    exp, end = self.expand_fn_macro(name, line[m.end(N) :])
                except Exception:
                    exp = name
                    end = line[m.end(N) :]
""", """                # If function macro expansion fails, just ignore it.
                exp, end = name, line[m.end(N) :]
                try:
                    exp, end = self.expand_fn_macro(name, end)
                except Exception:
"""))
edit("unused-helper", "C09 C10 C11",
     (P, """        pack_stack = [(None, None)]
        self.pack_list[path] = [(0, None)]
        packing = None  # Current packing value

        text = self.files[path]

        # First join together lines split by \\\\n
        text = Literal("\\\\\\n").suppress().transformString(text)
""", """        packing = None  # Current packing value
        pack_stack = [(packing, None)]
        self.pack_list[path] = [(0, packing)]

        # First join together lines split by \\\\n
        joiner = Literal("\\\\\\n").suppress()
        text = joiner.transformString(self.files[path])
"""))


def run(name):
    props, edits = EDITS[name]
    d = plant.tree()
    t = time.time()
    out = {}
    try:
        for f, old, new in edits:
            p = os.path.join(d, "pyclibrary", f)
            s = open(p).read()
            if s.count(old) != 1:
                return {"error": "%s: %d matches of %r" % (f, s.count(old), old[:80])}
            open(p, "w").write(s.replace(old, new))
        ok, text = plant.tests(d)
        if not ok:
            return {"error": "tests: " + text[-300:]}
        for pid in props:
            r = subprocess.run(["python3-vt", os.path.join(HERE, "check.py"), pid, "quick"], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d, VERIF_SEED="1"))
            lines = [x for x in r.stdout.splitlines() if "VIOLATION" in x or x.startswith(pid)]
            m = re.search(r"proved (\d+/\d+).*bounded (\d+)", r.stdout)
            out[pid] = "ALARM " + " | ".join(x[:300] for x in lines[:2]) if r.returncode else (m.group(0) if m else "ok")
    finally:
        subprocess.run(["rm", "-rf", d])
    out["secs"] = round(time.time() - t)
    return out


if __name__ == "__main__":
    for n in sys.argv[1:] or EDITS:
        print(n, json.dumps(run(n)), flush=True)
