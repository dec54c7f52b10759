LEVEL = {
 "C04": ("proof", "argument matching, signatures and the C call proved for any number of parameters, positional and keyword arguments"),
 "C05": ("proof", "CallResult proved for any number of arguments and any subset of automatic ones; ctypes object access is uninterpreted"),
 "C06": ("proof", "the lock is proved held at every C call and released on every exit of the wrapper"),
 "C07": ("proof", "both access paths proved equal to the specified order for any tables, prefixes, names and access histories"),
 "C14": ("proof", "add_def, rem_def and import_dict proved for any tables of any files; process_struct proved never to replace a definition by a mention and to invent only new names; deep contents of the definitions are opaque"),
 "C16": ("proof", "all five search and registration functions proved equal to their specification for lists of any length; os.path functions are uninterpreted"),
 "C18": ("other", "remove_comments proved to change the text of its file only, and as its scanner does; what the scanner does is decided by trying it: all texts of up to 5 characters (oracle: 6, thorough 7) over the 7 characters that matter and sequences of longer pieces"),
 "C17": ("proof", "init, auto_init, _init_cparser and the initialisation of the backend proved for any dict of types and any list of modifiers; grammars are followed as the terms they are built as, what they match is not interpreted"),
 "C01": ("proof", 'Type.eval proved against its own contract for the recursive call, for types with any number of modifiers and qualifiers and any table; the measure of the recursion is proved to decrease'),
 "C12": ("proof", "process_enum proved for any number of enumerators with or without initialisers; the value of an initialiser is an uninterpreted integer (Python's eval is trusted)"),
 "C08": ("proof", 'opening by path, name and object proved for any table of live proxies; get_arch proved over the words of the description; os.path functions and the tool file are uninterpreted'),
 "C15": ("proof", 'load_cache, write_cache, process_all and load_file proved for any list of headers, any cache content and any disk; the constructor for up to two files, copied parsers and initial tables; pickle restores what was dumped (trusted)'),
 "C09": ("proof", 'the line loop of preprocess proved, for any text with balanced directives, to keep exactly the selected lines and to apply exactly the selected directives; values of conditions and expansion of macros are uninterpreted functions'),
 "C10": ("proof", 'the effect of every pragma on the record stack and the packing proved for any text (any number of records, any labels), the look up of a line proved for any number of changes, process_struct proved to record it; the forms of pack() are those documented'),
 "C03": ("proof", '_get_struct proved for any number of members, any names, widths and packing, any tables of known classes and a translation of types that may add classes or fail; alias resolution proved for any tables'),
 "C02": ("proof", 'the base class for any type and tables; any list of modifiers of any length (runs of arrays, pointers, function pointers with any number of arguments, conventions) of known types, void and types with a pointer class of their own; build_array with any number of dimensions; ctypes classes are uninterpreted terms'),
 "C11": ("proof", 'expansion of a line, of a call and compilation of a body proved for any text, any number of parameters and any tables of macros; registration for any history; how lines are selected and undefined is the contract of C09; the regular expressions are modelled by their meaning over pieces of text'),
 "C13": ("proof", 'process_declarator proved for any number of pointers, arrays, parameters and qualifiers at a level, with the contract of the functions themselves for the levels inside; declarations of any number of names; structs of any number of members; the grammar (pyparsing) is trusted and exercised by the oracle'),
}
NA = {
 "C19": "values come from Python's eval applied to the text of the expression: no contract on code of /repo can express C arithmetic of an arbitrary expression text",
}
