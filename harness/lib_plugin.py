"""Abstract model of protobuf.plugin and protobuf._sanitization: a generated file is its text."""

KEYWORDS = ("False", "None", "True", "and", "as", "assert", "async", "await", "break", "class", "continue", "def", "del", "elif", "else", "except", "finally", "for", "from", "global", "if",
            "import", "in", "is", "lambda", "nonlocal", "not", "or", "pass", "raise", "return", "try", "while", "with", "yield")


def escape_identifier(ident):
    if ident.rstrip("_") in KEYWORDS:
        return ident + "_"
    return ident


class Module:
    def __init__(self, path):
        self.path = path

    def ident(self, name, *, type_only=False):
        return Ident(name, self, type_only)

    @staticmethod
    def for_desc(desc, suffix, *, escape_with_hash=False):
        return Module("." + desc.name.removesuffix(".proto").replace("/", ".") + suffix)


class Ident:
    def __init__(self, name, module, type_only=False):
        self.name = name
        self.module = module
        self.type_only = type_only

    @staticmethod
    def for_desc(desc, *, type_only=False, escape_module_with_hash=False):
        return Ident(desc.qualname, Module.for_desc(desc.file, "_pb"), type_only)


class Schema:
    def __class_getitem__(cls, x):
        return cls


class Scope:
    def __init__(self, file):
        self.file = file

    def __enter__(self):
        self.file.depth = self.file.depth + 1

    def __exit__(self, *a):
        self.file.depth = self.file.depth - 1


class Doc:
    def __init__(self, file):
        self.file = file

    def __enter__(self):
        pass

    def __exit__(self, *a):
        self.file.line(['"""'])


class File:
    """What is printed to it, and the modules it has to import. Names are imported under aliases that clash with nothing."""

    def __init__(self):
        self.depth = 0
        self.lines = []
        self.imports = []
        self.types = []

    def line(self, words):
        self.lines.append("    " * self.depth + "".join(words))

    def word(self, a):
        if isinstance(a, str):
            return a
        if isinstance(a, Ident):
            path = a.module.path.lstrip(".")
            top, _, rest = a.name.partition(".")
            alias = "_" + path.replace(".", "_") + "_" + top
            stmt = f"from {path} import {top} as {alias}"
            if a.type_only:
                if stmt not in self.types:
                    self.types.append(stmt)
                alias = "type_only" + alias
            elif stmt not in self.imports:
                self.imports.append(stmt)
            return alias + ("." + rest if rest else "")
        return str(a)

    def print(self, *args):
        self.line([self.word(a) for a in args])

    def scope(self, *args):
        self.print(*args)
        return Scope(self)

    def type_checking(self):
        return self.scope("if False:")

    def preamble(self, desc):
        pass

    def doc(self, *args):
        self.line(['"""', *[self.word(a) for a in args]])
        return Doc(self)

    def text(self):
        return "\n".join(["from __future__ import annotations", *self.imports, *self.lines, ""])


RUN = []


def run(name, version, options, generate, *a, **kw):
    RUN.append((options, generate))
