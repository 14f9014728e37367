"""P24: data set loading.

The loaders run against a real scratch directory; the environment is symbolic: which files are present, what the archive holds,
whether the download fails, and after which file-system operation the process dies.  Numbers stored in the files are symbolic
reals (the files hold tokens that the `np.load` contract maps to solver variables)."""
import builtins
import bz2
import contextlib
import io
import os
import shutil
import tarfile
import tempfile
import types
import urllib.error
import urllib.request
from unittest import mock

import numpy as np
from vp import engine as E
from vp import symnp
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt

ASSUMPTIONS = ["The data directory is not changed by anybody else while a loader runs; a process that dies loses nothing it has "
               "already written and closed.",
               "Renaming a file is atomic."]
TRAIN = ("X_train.data.npy", "X_train.indices.npy", "X_train.indptr.npy", "y_train.npy")
TEST = ("X_test.data.npy", "X_test.indices.npy", "X_test.indptr.npy", "y_test.npy")


class Crash(BaseException):
    pass


def npy(a):
    f = io.BytesIO()
    np.save(f, a)
    return f.getvalue()


class World:
    """scratch file system with fault injection"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.root = tempfile.mkdtemp(prefix="p24_")
        self.data = os.path.join(self.root, "a", "data")
        self.out = os.path.join(self.root, "a", "outside")
        os.makedirs(self.out)
        self.downloads = []
        self.remote = {}            # url suffix -> bytes
        self.fault = None           # fault schedule: None, or "ask" to let the solver pick the dying operation
        self.dead = False
        self.ticks = 0
        self.sym = {}
        self.netfail = False

    def token(self, values):
        """stored representation of an array of (possibly symbolic) numbers"""
        if self.ctx.mode == "conc":
            return np.array([float(v) for v in values])
        ids = []
        for v in values:
            k = 7000.0 + len(self.sym)
            self.sym[k] = v
            ids.append(k)
        return np.array(ids)

    def load(self, f, *a, **k):
        r = np.load(f, *a, **k)
        if not isinstance(r, np.ndarray) or r.dtype.kind != "f":
            return r
        o = np.empty(r.shape, dtype=object)
        for i, v in enumerate(r):
            o[i] = self.sym.get(float(v), float(v))
        return o.view(symnp.SymArray)

    # ---- faults
    def tick(self):
        if self.dead:
            raise Crash()
        if self.fault is None:
            return False
        self.ticks += 1
        if self.ctx.choose("dies_at_%d" % self.ticks, 2) == 1:
            self.fault = None
            return True
        return False

    def die(self):
        self.dead = True
        raise Crash()

    def step(self):
        if self.tick():
            self.die()

    def open(self, path, mode="r", *a, **k):
        if not any(c in mode for c in "wax+"):
            if self.dead:
                raise Crash()
            return builtins.open(path, mode, *a, **k)
        self.step()
        f = builtins.open(path, mode, *a, **k)
        return _File(self, f)

    def urlretrieve(self, url, filename=None, *a, **k):
        self.step()
        self.downloads.append(url)
        if self.netfail:
            raise urllib.error.URLError("no route")
        hits = [v for s, v in self.remote.items() if url.endswith(s)]
        if not hits:
            raise urllib.error.URLError("404 " + url)
        body = hits[0].pop(0) if isinstance(hits[0], list) and len(hits[0]) > 1 else (
            hits[0][0] if isinstance(hits[0], list) else hits[0])
        if filename is None:
            filename = tempfile.mktemp(dir=self.root)
        half = self.tick()
        with builtins.open(filename, "wb") as f:
            f.write(body[: len(body) // 2] if half else body)
        if half:
            self.die()
        return filename, {}

    def urlopen(self, url, *a, **k):
        url = getattr(url, "full_url", url)
        name, _ = self.urlretrieve(url)
        with builtins.open(name, "rb") as f:
            return io.BytesIO(f.read())

    def snapshot(self, path):
        r = {}
        for d, _, fs in os.walk(path):
            for f in fs:
                with builtins.open(os.path.join(d, f), "rb") as h:
                    r[os.path.join(d, f)] = h.read()
        return r

    @contextlib.contextmanager
    def installed(self):
        mod = self.ctx.cp.datasets
        old_load = symnp.HOOKS.h.get("load")
        symnp.HOOKS.h["load"] = self.load
        cwd = os.getcwd()
        here = os.path.join(self.root, "cwd")
        os.makedirs(here, exist_ok=True)
        os.chdir(here)
        w = self

        def save(f, arr, *a, **k):
            w.step()
            p = f if not isinstance(f, (str, os.PathLike)) else (str(f) if str(f).endswith(".npy") else str(f) + ".npy")
            if isinstance(p, str) and w.tick():
                with builtins.open(p, "wb") as h:
                    b = npy(np.asarray(symnp.raw(arr) if isinstance(arr, symnp.SymArray) else arr))
                    h.write(b[: len(b) // 2])
                w.die()
            return real_save(f, arr, *a, **k)
        real_save = np.save
        try:
            with contextlib.ExitStack() as st:
                st.enter_context(mock.patch.object(urllib.request, "urlretrieve", self.urlretrieve))
                st.enter_context(mock.patch.object(urllib.request, "urlopen", self.urlopen))
                st.enter_context(mock.patch.object(tarfile, "bltn_open", self.open))
                st.enter_context(mock.patch.object(np, "save", save))
                st.enter_context(mock.patch.object(mod, "open", self.open, create=True))
                st.enter_context(mock.patch.object(mod, "HAS_TF", False, create=True))
                st.enter_context(mock.patch.object(mod, "DATA_DIR", self.data, create=True))
                st.enter_context(contextlib.redirect_stdout(io.StringIO()))
                yield mod
        finally:
            os.chdir(cwd)
            symnp.HOOKS.h.pop("load", None)
            if old_load is not None:
                symnp.HOOKS.h["load"] = old_load

    def restart(self):
        self.dead, self.fault = False, None

    def remove(self):
        shutil.rmtree(self.root, ignore_errors=True)


class _File:
    def __init__(self, w, f):
        self.w, self.f = w, f

    def write(self, data):
        if self.w.tick():
            self.f.write(data[: len(data) // 2])
            self.f.close()
            self.w.die()
        return self.f.write(data)

    def close(self):
        if self.w.dead:
            self.f.close()
            raise Crash()
        self.f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, k):
        return getattr(self.f, k)


def content(ctx, w, widths=(3, 3), pad=0):
    """stored train and test sets: rows as {column: value}, targets"""
    last = max(widths) - 1
    train = [{0: ctx.real("tr00"), 1: ctx.real("tr01")}, {widths[0] - 1: ctx.real("tr1")}]
    test = [{1: ctx.real("te01")}, {}, {0: ctx.real("te20"), widths[1] - 1: ctx.real("te2")}]
    yt = [ctx.real("y0"), ctx.real("y1")]
    ys = [ctx.real("y2"), ctx.real("y3"), ctx.real("y4")]
    if pad:         # concrete filler between the symbolic rows: files of several read blocks
        fill = lambda k: ([{i % 2: float(1 + (i * k) % 97)} for i in range(pad)], [float((i * k) % 7) for i in range(pad)])
        train[1:1], yt[1:1] = fill(3)
        test[2:2], ys[2:2] = fill(5)

    def files(rows, y, names):
        data, ind, ptr = [], [], [0]
        for r in rows:
            for j in sorted(r):
                ind.append(j)
                data.append(r[j])
            ptr.append(len(ind))
        return dict(zip(names, (npy(w.token(data)), npy(np.array(ind, dtype=np.int32)), npy(np.array(ptr, dtype=np.int32)), npy(w.token(y)))))
    fs = files(train, yt, TRAIN)
    fs.update(files(test, ys, TEST))
    return fs, (train, yt, widths[0]), (test, ys, widths[1])


def archive(name, files, extra=()):
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w:gz") as t:
        d = tarfile.TarInfo(name)
        d.type = tarfile.DIRTYPE
        d.mode = 0o755
        t.addfile(d)
        for n, b in list((name + "/" + k, v) for k, v in files.items()) + list(extra):
            i = tarfile.TarInfo(n)
            i.size = len(b)
            t.addfile(i, io.BytesIO(b))
    return buf.getvalue()


def expect(ctx, res, rows, y, width):
    X, t = res
    ctx.check("number of rows", X.shape[0] == len(rows) and X.shape[1] == width)
    ctx.check("number of targets", len(t) == len(y))
    D = X.toarray()
    plain = [i for i, r in enumerate(rows) if not any(isinstance(v, E.SymReal) for v in list(r.values()) + [y[i]])] if len(rows) > 20 else []
    ctx.check("filler rows", all(float(D[i, j]) == rows[i].get(j, 0.0) for i in plain for j in range(width)))
    ctx.check("filler targets", all(float(t[i]) == y[i] for i in plain))
    skip = set(plain)
    for i, r in enumerate(rows):
        if i in skip:
            continue
        ctx.check("row %d" % i, Eq([D[i, j] for j in range(width)], [r.get(j, 0.0) for j in range(width)]))
        ctx.check("target %d" % i, Eq1(t[i], y[i]))


def expected(ctx, res, subset, tr, te):
    if subset == "train":
        expect(ctx, res, *tr)
    elif subset == "test":
        expect(ctx, res, *te)
    else:
        expect(ctx, res, tr[0] + te[0], tr[1] + te[1], max(tr[2], te[2]))


LOADERS = {"madelon": ("load_madelon", True), "rcv1": ("load_rcv1", True), "gisette": ("load_gisette", True),
           "covtype": ("load_covtype", False), "news20": ("load_news20", False)}


def call(mod, name, subset, data_dir):
    fn, sub = LOADERS[name]
    if sub:
        return getattr(mod, fn)(subset=subset, data_dir=data_dir)
    return getattr(mod, fn)(data_dir=data_dir)


def presence(ctx, name, subset, widths=(3, 3), pad=0):
    """every combination of local files"""
    w = World(ctx)
    try:
        fs, tr, te = content(ctx, w, widths, pad)
        w.remote["/%s.tar.gz" % name] = archive(name, fs)
        d = os.path.join(w.data, name)
        sub = subset if LOADERS[name][1] else "train"
        needed = TRAIN if sub == "train" else TRAIN + TEST
        have = list(needed) if pad and ctx.choose("all local", 2) else []
        if have:
            os.makedirs(d)
            for f in needed:
                with open(os.path.join(d, f), "wb") as h:
                    h.write(fs[f])
        if not pad and ctx.choose("data directory exists", 2):
            os.makedirs(w.data)
            if ctx.choose("data set directory exists", 2):
                os.makedirs(d)
                for f in needed:
                    if ctx.choose("has " + f, 2):
                        have.append(f)
                        with open(os.path.join(d, f), "wb") as h:
                            h.write(fs[f])
        before = w.snapshot(w.out)
        with w.installed() as mod:
            res = call(mod, name, subset, w.data)
        expected(ctx, res, sub, tr, te)
        ctx.check("downloads only what is missing", len(w.downloads) == (0 if len(have) == len(needed) else 1))
        ctx.check("asks for the right archive", all(u.endswith("/%s.tar.gz" % name) for u in w.downloads))
        ctx.check("nothing outside the data directory", w.snapshot(w.out) == before and not os.listdir(os.path.join(w.root, "cwd")))
        with w.installed() as mod:
            n = len(w.downloads)
            res = call(mod, name, subset, w.data)
        ctx.check("a second call does not download", len(w.downloads) == n)
        expected(ctx, res, sub, tr, te)
    finally:
        w.remove()


BAD = ("Train", "", "validation", None, "tests")


def bad_subset(ctx, name):
    w = World(ctx)
    try:
        fs, tr, te = content(ctx, w)
        only_train = ctx.choose("train files only", 2)
        w.remote["/%s.tar.gz" % name] = archive(name, {k: v for k, v in fs.items() if not only_train or k in TRAIN})
        if ctx.choose("local", 2):
            os.makedirs(os.path.join(w.data, name))
            for f in fs:
                if not only_train or f in TRAIN:
                    with open(os.path.join(w.data, name, f), "wb") as h:
                        h.write(fs[f])
        s = BAD[ctx.choose("subset", len(BAD))]
        ok = False
        with w.installed() as mod:
            try:
                call(mod, name, s, w.data)
            except ValueError:
                ok = True
        ctx.check("unknown subset refused with ValueError", ok)
    finally:
        w.remove()


def crash(ctx, name, first, second, netfail=False):
    """the first run dies at an arbitrary operation, the second one recovers"""
    w = World(ctx)
    try:
        fs, tr, te = content(ctx, w)
        w.remote["/%s.tar.gz" % name] = archive(name, fs)
        died = False
        if netfail:
            w.netfail = True
        else:
            w.fault = "ask"
        with w.installed() as mod:
            try:
                res = call(mod, name, first, w.data)
            except Crash:
                died = True
            except urllib.error.URLError:
                died = True
        if not died:
            expected(ctx, res, first, tr, te)
        w.restart()
        w.netfail = False
        with w.installed() as mod:
            res = call(mod, name, second, w.data)
        expected(ctx, res, second, tr, te)
    finally:
        w.remove()


def members(ctx, name):
    """archive members never escape from the data directory"""
    w = World(ctx)
    try:
        fs, tr, te = content(ctx, w)
        evil = ("../outside/evil.npy", "%s/../../outside/evil.npy" % name, os.path.join(w.out, "evil.npy"),
                "%s/x/../../../outside/../outside/evil.npy" % name, "./../outside/evil.npy", "../data2/evil.npy")
        e = evil[ctx.choose("member", len(evil))]
        os.makedirs(os.path.join(w.root, "a", "data2"))
        with open(os.path.join(w.out, "kept"), "wb") as h:
            h.write(b"kept")
        if ctx.choose("x exists", 2):
            os.makedirs(os.path.join(w.data, name, "x"))
        first = ctx.choose("first", 2)
        files = {} if first else fs
        w.remote["/%s.tar.gz" % name] = archive(name, files, [(e, b"evil")] + ([(name + "/" + k, v) for k, v in fs.items()] if first else []))
        with w.installed() as mod:
            try:
                call(mod, name, "full", w.data)
            except (ValueError, OSError, tarfile.TarError):
                pass
        esc = [p for p in w.snapshot(os.path.join(w.root, "a")) if p.endswith("evil.npy") and not p.startswith(w.data + os.sep)]
        ctx.check("nothing written outside the data directory", not esc)
    finally:
        w.remove()


SVM = b"1 1:0.5 3:2\n-1 2:1.5\n1 1:-1 2:4\n"
OTHER = b"-1 1:9 2:9 3:9\n1 1:8 2:8 3:8\n"
SVMX = np.array([[0.5, 0, 2], [0, 1.5, 0], [-1, 4, 0]])
SVMY = np.array([1.0, -1.0, 1.0])
SVML = {"url": ("load_url", "/url_combined.bz2", True), "kdd12": ("load_kdd12", "/kdd12.bz2", True), "kdd10": ("load_kdd10", "/kddb.bz2", False),
        "criteo": ("load_criteo", "/criteo.kaggle2014.svm.tar.gz", False)}


class Hash(str):
    verdict = True

    def __eq__(self, o):
        return self.verdict

    def __ne__(self, o):
        return not self.verdict

    __hash__ = str.__hash__


def svm_world(ctx, name):
    w = World(ctx)

    def pack(b):
        if name == "criteo":
            buf = io.BytesIO()
            with tarfile.open(fileobj=buf, mode="w:gz") as t:
                i = tarfile.TarInfo("criteo.kaggle2014.train.svm")
                i.size = len(b)
                t.addfile(i, io.BytesIO(b))
            return buf.getvalue()
        return bz2.compress(b)
    for n, (_, s, _) in SVML.items():
        w.remote[s] = pack(OTHER) if n != name else pack(SVM)
    w.pack = pack
    return w


def svm_check(ctx, name, res):
    X, y = res
    D = X.toarray()
    ctx.check("shape", tuple(X.shape) == (3, 3) and len(y) == 3)
    want = (SVMY + 1) / 2 if SVML[name][2] else SVMY
    for i in range(3):
        ctx.check("row", Eq([D[i, j] for j in range(3)], [float(v) for v in SVMX[i]]))
        ctx.check("target", Eq1(float(y[i]), float(want[i])))


@contextlib.contextmanager
def md5(mod, verdicts):
    h = types.ModuleType("hashlib")

    class M:
        def __init__(self, *a, **k):
            pass

        def update(self, *a):
            pass

        def hexdigest(self):
            r = Hash("digest")
            r.verdict = verdicts.pop(0) if verdicts else True
            return r
    h.md5 = M
    h.new = lambda *a, **k: M()
    with mock.patch.object(mod, "hashlib", h, create=True):
        yield


def svm(ctx, name, md5_check, corrupt):
    """the svmlight loaders: download, conversion, verification, cache"""
    w = svm_world(ctx, name)
    try:
        fn, suffix, _ = SVML[name]
        if ctx.choose("data directory exists", 2):
            os.makedirs(w.data)
        bad = corrupt and ctx.choose("first download corrupted", 2)
        if bad:
            w.remote[suffix] = [w.pack(OTHER), w.pack(SVM)]
        with w.installed() as mod, md5(mod, [False] if bad else []):
            res = getattr(mod, fn)(md5_check=md5_check)
        svm_check(ctx, name, res)
        ctx.check("downloads as often as needed", len(w.downloads) == (2 if bad else 1) and all(u.endswith(suffix) for u in w.downloads))
        with w.installed() as mod, md5(mod, []):
            res = getattr(mod, fn)(md5_check=md5_check)
        svm_check(ctx, name, res)
        ctx.check("a second call does not download", len(w.downloads) == (2 if bad else 1))
        ctx.check("nothing outside the data directory", not os.listdir(os.path.join(w.root, "cwd")) and not os.listdir(w.out))
    finally:
        w.remove()


def svm_crash(ctx, name, md5_check):
    w = svm_world(ctx, name)
    try:
        fn, suffix, _ = SVML[name]
        w.fault = "ask"
        with w.installed() as mod, md5(mod, []):
            try:
                svm_check(ctx, name, getattr(mod, fn)(md5_check=md5_check))
            except Crash:
                pass
        w.restart()
        with w.installed() as mod, md5(mod, []):
            res = getattr(mod, fn)(md5_check=md5_check)
        svm_check(ctx, name, res)
    finally:
        w.remove()


def img(ctx, hi):
    r, c = 1 + ctx.choose("rows", hi), 1 + ctx.choose("cols", hi)
    X = ctx.cp.datasets.load_img1(r, c)
    ctx.check("requested size", tuple(X.shape) == (r, c))
    Y = ctx.cp.datasets.load_img1(n_rows=r, n_cols=c)
    ctx.check("deterministic", bool(np.array_equal(np.asarray(X), np.asarray(Y))))


def configs(tier):
    q = tier == "quick"
    out = []

    def A(cname, fn, **kw):
        out.append(dict(name=cname, fn=fn, params=kw, budget=60 if q else 600, bounds=", ".join("%s=%s" % i for i in sorted(kw.items()))))
    for n, (_, sub) in LOADERS.items():
        if sub:
            for s in ("train", "test", "full"):
                if q and n != "madelon" and s == "test":
                    continue
                A("presence_%s_%s" % (n, s), presence, name=n, subset=s)
                if not q or (n, s) == ("madelon", "full"):
                    for wd in ((2, 3), (3, 2), (2, 5)):
                        A("presence_%s_%s_w%d%d" % (n, s, *wd), presence, name=n, subset=s, widths=wd)
            if not q or n == "madelon":
                A("subset_%s" % n, bad_subset, name=n)
        else:
            A("presence_%s" % n, presence, name=n, subset="train")
    S = ("train", "test", "full")
    for a in S:
        for b in S:
            if q and (a, b) not in (("train", "full"), ("full", "full"), ("full", "train"), ("full", "test")):
                continue
            A("crash_%s_%s" % (a, b), crash, name="rcv1", first=a, second=b)
    A("large_full", presence, name="rcv1", subset="full", pad=1500)
    A("large_train", presence, name="gisette", subset="train", pad=700)
    A("netfail", crash, name="rcv1", first="full", second="full", netfail=True)
    A("members", members, name="gisette")
    for n in SVML:
        for m in (True, False):
            A("svm_%s_%s" % (n, "md5" if m else "plain"), svm, name=n, md5_check=m, corrupt=m)
            if m or not q:
                A("svmcrash_%s_%s" % (n, "md5" if m else "plain"), svm_crash, name=n, md5_check=m)
    A("img", img, hi=3 if q else 6)
    return out
