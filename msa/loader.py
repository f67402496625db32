"""Parse every module of the package under analysis (source text only; nothing is imported)."""
import ast
import hashlib
import os

from .desugar import desugar

REPO = os.environ.get("MSA_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = "meshio"


class AnalysisError(Exception):
    """The analysis cannot give an answer (vanished anchor, unparsable source)."""


class Module:
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        with open(path, "rb") as f:
            raw = f.read()
        self.text = raw.decode("utf-8")
        self.digest = hashlib.sha256(raw).hexdigest()
        try:
            self.tree = desugar(ast.parse(self.text, filename=path))
        except SyntaxError as e:
            raise AnalysisError(f"cannot parse {path}: {e}")
        self.rel = os.path.relpath(path, REPO)
        for node in ast.walk(self.tree):
            for ch in ast.iter_child_nodes(node):
                ch._parent = node
            node._mod = self

    @property
    def package(self):
        return self.name if self.is_pkg else self.name.rpartition(".")[0]


class Program:
    def __init__(self, src=SRC, pkg=PKG):
        self.modules = {}
        self.clients = {}
        root = os.path.join(src, pkg)
        if not os.path.isdir(root):
            raise AnalysisError(f"package directory {root} not found")
        for d, dirs, files in os.walk(root):
            dirs.sort()
            if "__pycache__" in d:
                continue
            for fn in sorted(files):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(d, fn)
                rel = os.path.relpath(path, src)[:-3].split(os.sep)
                is_pkg = rel[-1] == "__init__"
                if is_pkg:
                    rel = rel[:-1]
                name = ".".join(rel)
                self.modules[name] = Module(name, path, is_pkg)

    def functions(self):
        for m in self.modules.values():
            for node in ast.walk(m.tree):
                if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield m, node

    def stats(self):
        nf = sum(1 for _ in self.functions())
        return {
            "modules_parsed": len(self.modules),
            "functions_parsed": nf,
            "source_digest": hashlib.sha256(
                "".join(m.digest for _, m in sorted(self.modules.items())).encode()
            ).hexdigest()[:16],
        }


def qualname(node):
    parts = []
    n = node
    while n is not None:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            parts.append(n.name)
        n = getattr(n, "_parent", None)
    return ".".join(reversed(parts)) or "<module>"


def enclosing_func(node):
    n = getattr(node, "_parent", None)
    while n is not None and not isinstance(
        n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
    ):
        n = getattr(n, "_parent", None)
    return n


def where(node):
    m = getattr(node, "_mod", None)
    if m is None:
        return "?"
    return f"{m.rel}:{getattr(node, 'lineno', 0)} ({qualname(node)})"
