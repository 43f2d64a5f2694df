"""Source loading: every non-test module under /repo/python_dice is parsed afresh on each run."""
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")


class SourceError(Exception):
    pass


class Program:
    def __init__(self, root=None):
        self.root = root or REPO
        self.trees = {}
        self.files = {}
        self.is_pkg = {}
        pkg = os.path.join(self.root, "python_dice")
        for dirpath, dirnames, filenames in os.walk(pkg):
            dirnames[:] = sorted(d for d in dirnames if d not in ("test", "tests", "__pycache__"))
            for fn in sorted(filenames):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, self.root)
                mod = rel[:-3].replace(os.sep, ".")
                is_pkg = False
                if mod.endswith(".__init__"):
                    mod = mod[: -len(".__init__")]
                    is_pkg = True
                with open(path, encoding="utf-8") as fh:
                    text = fh.read()
                try:
                    tree = ast.parse(text, filename=rel)
                except SyntaxError as exc:
                    raise SourceError("cannot parse %s: %s" % (rel, exc))
                self.trees[mod] = tree
                self.files[mod] = rel
                self.is_pkg[mod] = is_pkg
        self.n_functions = sum(
            isinstance(n, (ast.FunctionDef, ast.Lambda)) for t in self.trees.values() for n in ast.walk(t))
        self.n_classes = sum(isinstance(n, ast.ClassDef) for t in self.trees.values() for n in ast.walk(t))
