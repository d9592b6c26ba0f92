"""Harnesses for py-polodb/polodb/core.py, the Python side of the binding.

CrossHair executes them symbolically (Z3). The two Rust classes are replaced by
a record of the calls made to them; what those do is decided by the other
harnesses of P26. The parameters are symbolic; every function must return True.
"""
import importlib, os, sys, types

REPO = os.environ.get("VF_REPO", "/repo")
LOG: list = []
OPEN: list = []
NAMES: list = []


class Token:
    """what an operation answers"""


class PyCollection:
    def __init__(self, name):
        self._name = name


def _op(n, params):
    def m(self, *a, **kw):
        a += tuple(kw.pop(x) for x in params[len(a):])
        if kw or len(a) != len(params):
            raise TypeError(n)
        t = Token()
        LOG.append((self._name, n, a, t))
        return t
    return m


PARAMS = {"name": (), "insert_one": ("doc",), "insert_many": ("doc",), "find_one": ("filter",), "find": ("filter",), "update_many": ("filter", "update"), "update_one": ("filter", "update"),
          "delete_many": ("filter",), "delete_one": ("filter",), "count_documents": (), "aggregate": ("pipeline",)}
for _n, _p in PARAMS.items():
    setattr(PyCollection, _n, _op(_n, _p))


class PyDatabase:
    def __init__(self, path):
        self._path = None
        if path in OPEN:
            raise OSError("lock hold by current process")
        OPEN.append(path)
        self._path = path

    @staticmethod
    def open_path(path):
        return PyDatabase(path)

    def __del__(self):
        if self._path is not None and self._path in OPEN:
            OPEN.remove(self._path)

    def list_collection_names(self):
        return list(NAMES)

    def create_collection(self, name):
        for n in NAMES:
            if n == name:
                raise RuntimeError("collection exists")
        if name == "":
            raise RuntimeError("illegal name")
        NAMES.append(name)

    def collection(self, name):
        return PyCollection(name)


def _load():
    stub = types.ModuleType("polodb.rust_polodb")
    stub.PyCollection, stub.PyDatabase = PyCollection, PyDatabase
    sys.modules["polodb.rust_polodb"] = stub
    sys.path.insert(0, os.path.join(REPO, "py-polodb"))
    sys.dont_write_bytecode = True
    return importlib.import_module("polodb")


polodb = _load()


def _fresh():
    LOG.clear()
    OPEN.clear()
    NAMES.clear()


def _called(op, want, shape, v, w):
    _fresh()
    c = polodb.PoloDB("p").collection("c")
    a, b = {"k": v, "l": [v]}, {"$set": {"k": w}}
    args = {"": (), "a": (a,), "ab": (a, b), "[]": ([a, b],)}[shape]
    r = getattr(c, op)(*args)
    if len(LOG) != 1:
        return False
    name, done, given, answer = LOG[0]
    return name == "c" and done == want and answer is r and len(given) == len(args) and all(x == y for x, y in zip(given, args))


def insert_one(v: int, w: int) -> bool:
    """
    post: _
    """
    return _called("insert_one", "insert_one", "a", v, w)


def insert_many(v: int, w: int) -> bool:
    """
    post: _
    """
    return _called("insert_many", "insert_many", "[]", v, w)


def find_one(v: int, w: int) -> bool:
    """
    post: _
    """
    return _called("find_one", "find_one", "a", v, w)


def find(v: int, w: int) -> bool:
    """
    post: _
    """
    return _called("find", "find", "a", v, w)


def update_one(v: int, w: int) -> bool:
    """
    post: _
    """
    return _called("update_one", "update_one", "ab", v, w)


def update_many(v: int, w: int) -> bool:
    """
    post: _
    """
    return _called("update_many", "update_many", "ab", v, w)


def delete_one(v: int, w: int) -> bool:
    """
    post: _
    """
    return _called("delete_one", "delete_one", "a", v, w)


def delete_many(v: int, w: int) -> bool:
    """
    post: _
    """
    return _called("delete_many", "delete_many", "a", v, w)


def count(v: int, w: int) -> bool:
    """
    post: _
    """
    return _called("len", "count_documents", "", v, w)


def aggregate(v: int, w: int) -> bool:
    """
    post: _
    """
    return _called("aggregate", "aggregate", "[]", v, w)


def names(how: int, name: str, m: str) -> bool:
    """
    pre: 0 <= how < 3
    pre: 0 < len(name) <= 2
    pre: 0 < len(m) <= 2
    post: _
    """
    _fresh()
    db = polodb.PoloDB("p")
    NAMES.append(m)
    c = db.collection(name) if how == 0 else db[name] if how == 1 else db.__getattr__(name)
    if not (isinstance(c, polodb.Collection) and len(NAMES) == (1 if name == m else 2) and NAMES[-1] == name):
        return False
    return c.name() is LOG[0][3] and LOG[0][0] == name and db.list_collection_names() == NAMES


def refused(how: int) -> bool:
    """
    pre: 0 <= how < 2
    post: _
    """
    _fresh()
    db = polodb.PoloDB("p")
    try:
        db.collection("") if how == 0 else db[""]
    except RuntimeError:
        return not LOG and not NAMES
    return False


def context(fails: bool, again: bool) -> bool:
    """
    post: _
    """
    _fresh()
    opened = polodb.PoloDB("p")
    if OPEN != ["p"]:
        return False
    for _ in range(2 if again else 1):
        seen = False
        try:
            with opened as db:
                if db is not opened:
                    return False
                db["a"].insert_one({})
                seen = True
                if fails:
                    raise KeyError
        except KeyError:
            if not fails:
                return False
        else:
            if fails:
                return False
        if not seen or OPEN:
            return False
    return len(LOG) == (2 if again else 1) and NAMES == ["a"]


HARNESSES = ("insert_one", "insert_many", "find_one", "find", "update_one", "update_many", "delete_one", "delete_many", "count", "aggregate", "names", "refused", "context")

if __name__ == "__main__":
    # replay one counterexample: facade.py 'context(False, True)'
    import ast
    e = ast.parse(sys.argv[1], mode="eval").body
    args = [ast.literal_eval(x) for x in e.args]
    kw = {x.arg: ast.literal_eval(x.value) for x in e.keywords}
    try:
        ok = globals()[e.func.id](*args, **kw)
    except BaseException as ex:
        print("VF-FAIL", repr(ex))
        sys.exit(101)
    print("VF-DONE" if ok else "VF-FAIL")
    sys.exit(0 if ok else 101)
