"""Load graphicle's current source from the repository into a symbolic namespace."""
import ast, builtins, importlib, os, sys, types
from . import core, shims

PKG = "graphicle"
ALIAS = "graphicle_sym"


def note_ints(tree):
    """integers the code keeps in set and dict displays: a symbolic integer may have to hash like one of them"""
    for n in ast.walk(tree):
        for e in n.keys if isinstance(n, ast.Dict) else n.elts if isinstance(n, ast.Set) else ():
            try:
                v = ast.literal_eval(e) if e is not None else None
            except (ValueError, TypeError, SyntaxError):
                continue
            if type(v) is int and v not in core.CODE_INTS:
                core.CODE_INTS.append(v)


class Loader:
    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.files = {}
        self.builtins = shims.make_builtins(self.imp)

    def path(self, name):
        rel = name.split(".")[1:]
        p = os.path.join(self.root, PKG, *rel)
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def load(self, name):
        """name: graphicle or graphicle.x"""
        m = self.mods.get(name)
        if m is not None:
            return m
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        f, pkg = self.path(name)
        if not os.path.exists(f):
            raise ModuleNotFoundError("No module named %r" % name)
        alias = ALIAS + name[len(PKG):]
        m = types.ModuleType(alias)
        m.__file__ = f
        if pkg:
            m.__path__ = [os.path.dirname(f)]
        m.__dict__["__builtins__"] = self.builtins
        m.__package__ = alias if pkg else alias.rsplit(".", 1)[0]
        self.mods[name] = m
        sys.modules[alias] = m
        src = open(f).read()
        self.files[f] = src
        try:
            note_ints(ast.parse(src))
            exec(compile(src, f, "exec"), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if "." in name:
            setattr(self.mods[name.rsplit(".", 1)[0]], name.rsplit(".", 1)[1], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals["__package__"].split(".")
            pk = pk[:len(pk) - (level - 1)]
            full = ".".join(pk) + ("." + name if name else "")
            full = PKG + full[len(ALIAS):]
            return self._ours(full, fromlist, True)
        if name == PKG or name.startswith(PKG + "."):
            return self._ours(name, fromlist, False)
        top = name.split(".")[0]
        if fromlist:
            s = shims.module(name)
            if s is not None:
                for n in fromlist:
                    if n != "*":
                        self._sub(name, s, n)
                return s
            return builtins.__import__(name, globals, locals, fromlist, 0)
        if shims.module(name) is not None or shims.module(top) is not None:
            if top == name or shims.module(top) is not None:
                return shims.module(top)
        # import a.b.c without a shim for a: the real package
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _sub(self, name, s, n):
        sub = shims.module(name + "." + n)
        if sub is not None:
            try:
                setattr(s, n, sub)
            except Exception:
                pass

    def _ours(self, full, fromlist, rel):
        m = self.load(full)
        if not fromlist:
            return m if rel else self.load(PKG)
        for n in fromlist:
            if n == "*" or n in m.__dict__:
                continue
            sub = full + "." + n
            f, _ = self.path(sub)
            if hasattr(m, "__path__") and os.path.exists(f):
                self.load(sub)
        return m


def load(root="/repo"):
    return Loader(root).load(PKG)
