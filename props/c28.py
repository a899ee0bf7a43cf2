"""C28: data-set loaders.  The availability of the source and of the cache, the point at which a
download or a cache write breaks off and the numeric cells of the files are solver variables."""
import builtins
import http.client
import io
import math
import os
import shutil
import tempfile
import urllib.error
import urllib.request
from symx.harness import Case
from .common import *

NAMES = ("card_krueger", "castle_doctrine", "divorce_laws", "mpdta")


class Killed(BaseException):
    """the process ends here"""


def failures():
    return [("connect", urllib.error.URLError("unreachable")),
            ("http", urllib.error.HTTPError("u", 404, "gone", None, None)),
            ("timeout", TimeoutError("timed out")),
            ("dropped", http.client.RemoteDisconnected("closed")),
            ("read-timeout", TimeoutError("The read operation timed out")),
            ("reset", ConnectionResetError(104, "reset by peer")),
            ("short", http.client.IncompleteRead(b"abc", 100))]


READ = ("read-timeout", "reset", "short")


class Response:
    status = 200

    def __init__(self, text, fail):
        self.text, self.fail = text, fail

    def read(self, *a):
        if self.fail is not None:
            raise self.fail
        return self.text.encode("utf-8")

    def getcode(self):
        return 200

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Pandas:
    """pandas, reading placeholders back as the symbolic cells they stand for"""

    def __init__(self, real, rig):
        self.__dict__.update(_real=real, _rig=rig)

    def __getattr__(self, n):
        return getattr(self._real, n)

    def read_csv(self, src, *a, **k):
        df = self._real.read_csv(src, *a, **k)
        if self._rig.cells:
            for c in df.columns:
                v = list(df[c])
                w = [self._rig.cells.get(x, x) if isinstance(x, (int, float)) else x for x in v]
                if any(x is not y for x, y in zip(v, w)):
                    df[c] = self._real.Series(w, index=df.index) if not self._rig.env.issym(w[0]) else w
        return df


class Rig:
    """the remote source, the cache directory and the process, under solver control"""

    def __init__(self, env):
        self.env, self.m = env, env.mod("datasets")
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="symx_ds_"))
        self.dir = os.path.join(self.root, "cache", "datasets")
        self.calls, self.tables, self.cells = [], {}, {}
        self.mode = lambda url: None
        self.nodir, self.crash, self.ops, self.dead, self.full = False, None, 0, False, False
        self.saved = []

    # --- files
    def table(self, cols, key):
        """CSV text; symbolic cells are placeholders in symbolic mode"""
        if self.env.mode == "sym":
            out = {}
            for c, v in cols.items():
                w = []
                for x in v:
                    if self.env.issym(x):
                        k = 700000.125 + len(self.cells)
                        self.cells[k] = x
                        x = k
                    w.append(x)
                out[c] = w
            cols = out
        import pandas
        t = pandas.DataFrame(cols).to_csv(index=False)
        self.tables[key] = t
        return t

    def path(self, name):
        return os.path.join(self.dir, name + ".csv")

    def put(self, name, text):
        os.makedirs(self.dir, exist_ok=True)
        with self._open(self.path(name), "w") as f:
            f.write(text)

    # --- faults
    def point(self):
        """a crash point: the solver decides whether the process ends here"""
        if self.dead:
            raise Killed()
        if self.crash is None:
            return
        k = self.ops
        self.ops += 1
        if bool(self.env.all_of(self.crash >= k, self.crash < k + 1)):
            self.dead = True
            raise Killed()

    def urlopen(self, req, *a, **k):
        url = getattr(req, "full_url", req)
        self.calls.append(url)
        kind, exc = self.mode(url) or (None, None)
        if exc is not None and kind not in READ:
            raise exc
        for key, text in self.tables.items():
            if key in url:
                return Response(text, exc)
        return Response("a\n1\n", exc)

    def open(self, f, mode="r", *a, **k):
        inside = isinstance(f, int) or os.path.realpath(os.fspath(f)).startswith(self.root)
        if not (inside and any(c in mode for c in "wax+")):
            return self._open(f, mode, *a, **k)
        self.point()
        return Writer(self, self._open(f, mode, *a, **k))

    def _wrap(self, mod, name, check=None):
        real = getattr(mod, name)
        self.saved.append((mod, name, real))

        def f(p, *a, **k):
            if isinstance(p, (str, os.PathLike)) and os.path.realpath(os.fspath(p)).startswith(self.root):
                if check is not None:
                    check()
                self.point()
            return real(p, *a, **k)
        setattr(mod, name, f)

    def _mkdir(self):
        if self.nodir:
            raise PermissionError(13, "Permission denied")

    def __enter__(self):
        m = self.m
        self._open = io.open
        import pathlib
        for mod, name, new in ((m, "_CACHE_DIR", pathlib.Path(self.dir)), (m, "urlopen", self.urlopen), (urllib.request, "urlopen", self.urlopen),
                               (m, "pd", Pandas(m.pd, self)), (m, "open", self.open), (io, "open", self.open)):
            self.saved.append((mod, name, mod.__dict__.get(name, Ellipsis)))
            setattr(mod, name, new)
        for n in ("replace", "rename", "unlink", "remove"):
            self._wrap(os, n)
        self._wrap(os, "mkdir", self._mkdir)
        return self

    def __exit__(self, *a):
        for mod, name, old in reversed(self.saved):
            if old is Ellipsis:
                delattr(mod, name)
            else:
                setattr(mod, name, old)
        shutil.rmtree(self.root, ignore_errors=True)
        return False


class Writer:
    def __init__(self, rig, f):
        self.rig, self.f = rig, f

    def write(self, s):
        h = len(s) // 2
        self.f.write(s[:h])
        self.f.flush()
        if self.rig.full:
            raise OSError(28, "No space left on device")
        self.rig.point()
        self.f.write(s[h:])
        self.f.flush()
        self.rig.point()
        return len(s)

    def __getattr__(self, n):
        return getattr(self.f, n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()
        return False


def years(lo, hi, n):
    return list(range(lo, hi + 1))[:n]


def remote(env, rig, name, tag):
    """a small file in the published layout; numeric cells symbolic"""
    v = lambda nm, lo=0.0, hi=40.0: env.var("%s_%s" % (tag, nm), lo, hi)
    if name == "card_krueger":
        return {"sheet": [46, 49, 506], "nj": [1, 0, 1], "chain": ["bk", "kfc", "roys"],
                "emp_pre": [v("p%d" % i) for i in range(3)], "emp_post": [v("q%d" % i) for i in range(3)],
                "wage_pre": [4.25, 4.5, 5.0], "wage_post": [5.05, v("w"), 5.1]}
    if name == "castle_doctrine":
        rows = [(s, y) for s in ("AL", "CA", "MT") for y in (2005, 2006, 2009)]
        eff = {"AL": 2006.0, "CA": float("nan"), "MT": 2009.0}
        return {"state": [s for s, _ in rows], "sid": [{"AL": 1, "CA": 5, "MT": 27}[s] for s, _ in rows], "year": [y for _, y in rows],
                "effyear": [eff[s] for s, _ in rows], "homicide_rate": [v("h%d" % i) for i in range(9)]}
    if name == "divorce_laws":
        rows = [(s, y) for s in ("AL", "NY", "CA") for y in (1969, 1970, 1971)]
        st = {"AL": 1971, "NY": 9999, "CA": 1970}
        return {"state": [s for s, _ in rows], "stfips": [{"AL": 1, "NY": 36, "CA": 6}[s] for s, _ in rows], "year": [y for _, y in rows],
                "unilateral": [int(y >= st[s]) for s, y in rows], "divorce_rate": [v("d%d" % i) for i in range(9)]}
    rows = [(c, y) for c in (8001, 8019, 9000) for y in (2003, 2004, 2006)]
    ft = {8001: 2004, 8019: 0, 9000: 2006}
    return {"year": [y for _, y in rows], "countyreal": [c for c, _ in rows], "lpop": [v("l%d" % i) for i in range(9)],
            "lemp": [v("e%d" % i) for i in range(9)], "first.treat": [ft[c] for c, _ in rows], "treat": [int(ft[c] > 0) for c, _ in rows]}


def col(df, c):
    return [df[c].iloc[i] for i in range(len(df))]


def same_col(env, lab, df, c, want):
    got = col(df, c)
    env.true(lab + ".n", len(got) == len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        if isinstance(b, str):
            env.true("%s%d" % (lab, i), a == b)
        else:
            env.eq("%s%d" % (lab, i), a, b)


def check_remote(env, lab, df, name, T):
    """the documented columns and coding, from the file"""
    if name == "card_krueger":
        same_col(env, lab + ".store", df, "store_id", T["sheet"])
        same_col(env, lab + ".state", df, "state", ["NJ" if x == 1 else "PA" for x in T["nj"]])
        same_col(env, lab + ".treated", df, "treated", T["nj"])
        same_col(env, lab + ".change", df, "emp_change", [b - a for a, b in zip(T["emp_pre"], T["emp_post"])])
        keep = ("chain", "emp_pre", "emp_post", "wage_pre", "wage_post")
    elif name == "castle_doctrine":
        f = [0.0 if x != x else x for x in T["effyear"]]
        same_col(env, lab + ".first", df, "first_treat", f)
        same_col(env, lab + ".cohort", df, "cohort", f)
        same_col(env, lab + ".treated", df, "treated", [float(a > 0 and y >= a) for a, y in zip(f, T["year"])])
        keep = ("state", "year", "homicide_rate")
    elif name == "divorce_laws":
        f = [{"AL": 1971, "NY": 0, "CA": 1970}[s] for s in T["state"]]
        same_col(env, lab + ".first", df, "first_treat", f)
        same_col(env, lab + ".cohort", df, "cohort", f)
        same_col(env, lab + ".treated", df, "treated", T["unilateral"])
        keep = ("state", "year", "divorce_rate")
    else:
        same_col(env, lab + ".first", df, "first_treat", T["first.treat"])
        same_col(env, lab + ".cohort", df, "cohort", T["first.treat"])
        same_col(env, lab + ".treat", df, "treat", T["treat"])
        keep = ("countyreal", "year", "lpop", "lemp")
    for c in keep:
        same_col(env, "%s.%s" % (lab, c), df, c, T[c])


DOC = {"card_krueger": ("store_id", "state", "chain", "emp_pre", "emp_post", "wage_pre", "wage_post", "treated", "emp_change"),
       "castle_doctrine": ("state", "year", "first_treat", "homicide_rate", "population", "income", "treated", "cohort"),
       "divorce_laws": ("state", "year", "first_treat", "divorce_rate", "female_lfp", "suicide_rate", "treated", "cohort"),
       "mpdta": ("countyreal", "year", "lpop", "lemp", "first_treat", "treat")}
ORIGIN = {"castle_doctrine": (2000, 2010), "divorce_laws": (1968, 1988), "mpdta": (2003, 2007)}


def check_built(env, lab, df, name):
    """documented columns and coding of the constructed table, whatever its draws"""
    env.true(lab + ".columns", set(DOC[name]) <= set(df.columns))
    num = [c for c in DOC[name] if c not in ("state", "chain", "year")]
    for c in num:
        env.true("%s.%s-finite" % (lab, c), all(env.issym(x) or math.isfinite(float(x)) for x in col(df, c)))
    if name == "card_krueger":
        st, ch = col(df, "state"), col(df, "chain")
        env.true(lab + ".state", set(st) == {"NJ", "PA"})
        env.true(lab + ".chain", set(ch) == {"bk", "kfc", "roys", "wendys"})
        env.true(lab + ".id", len(set(col(df, "store_id"))) == len(df))
        env.true(lab + ".treated", [int(x) for x in col(df, "treated")] == [int(s == "NJ") for s in st])
        a, b, d = col(df, "emp_pre"), col(df, "emp_post"), col(df, "emp_change")
        for i in range(len(df)):
            env.eq("%s.change%d" % (lab, i), d[i], b[i] - a[i])
            for nm, x in (("pre", a[i]), ("post", b[i])):
                env.le("%s.%s%d" % (lab, nm, i), 0.0, x)
        return
    unit = "countyreal" if name == "mpdta" else "state"
    u, y, f = col(df, unit), [int(x) for x in col(df, "year")], [int(x) for x in col(df, "first_treat")]
    lo, hi = ORIGIN[name]
    env.true(lab + ".grid", sorted(zip(u, y)) == sorted((a, t) for a in set(u) for t in range(lo, hi + 1)))
    env.true(lab + ".cohort-constant", all(len(set(g)) == 1 for g in (lambda d: [d[k] for k in d])({a: [f[i] for i in range(len(u)) if u[i] == a] for a in set(u)})))
    env.true(lab + ".never", 0 in f and any(x > 0 for x in f))
    if "cohort" in df.columns:
        env.true(lab + ".cohort", [int(x) for x in col(df, "cohort")] == f)
    if name == "mpdta":
        env.true(lab + ".treat", [int(x) for x in col(df, "treat")] == [int(x > 0) for x in f])
        env.true(lab + ".first", set(f) <= {0, 2004, 2006, 2007})
    else:
        env.true(lab + ".treated", [int(x) for x in col(df, "treated")] == [int(x > 0 and t >= x) for x, t in zip(f, y)])
        rates = {"castle_doctrine": ("homicide_rate", "population"), "divorce_laws": ("divorce_rate", "female_lfp", "suicide_rate")}[name]
        for c in rates:
            for i, x in enumerate(col(df, c)):
                env.le("%s.%s%d" % (lab, c, i), 0.0, x)
                if c == "female_lfp":
                    env.le("%s.%s-max%d" % (lab, c, i), x, 1.0)


class Draws:
    """numpy's generators: normal and uniform draws symbolic at a few positions"""

    def __init__(self, env, every=37):
        import numpy
        self.env, self.every, self.k, self.seeds = env, every, 0, []
        self.np, self.RS = numpy, numpy.random.RandomState
        self.real = self.RS(3)

    def seed(self, s=None):
        self.seeds.append((s, self.k))
        self.k = 0
        self.real = self.RS(3)

    def one(self, conc, lo, hi):
        k = self.k
        self.k += 1
        if k < 6 or k % self.every == 0:
            return self.env.var("g%d" % k, lo, hi)
        return conc

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is not None:
            return self.real.normal(loc, scale, size)
        return loc + scale * self.one(float(self.real.normal()), -4.0, 4.0)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is not None:
            return self.real.uniform(low, high, size)
        return low + (high - low) * self.one(float(self.real.uniform()), 0.0, 1.0)

    def own(self):
        """a generator object of the library's own: the same draws, counted from its seed"""
        draws = self

        class Own(self.RS):
            def __init__(self, seed=None):
                super().__init__(3)
                draws.seed(seed)

            def normal(self, *a, **k):
                return draws.normal(*a, **k)

            def uniform(self, *a, **k):
                return draws.uniform(*a, **k)

            def random(self, size=None):
                return draws.uniform(size=size)

            def standard_normal(self, size=None):
                return draws.normal(size=size)

            def integers(self, *a, **k):
                return draws.real.randint(*a, **k)

            def randint(self, *a, **k):
                return draws.real.randint(*a, **k)

            def choice(self, *a, **k):
                return draws.real.choice(*a, **k)
        return Own

    def __enter__(self):
        r = self.np.random
        self.saved = {n: getattr(r, n) for n in ("seed", "normal", "uniform", "randint", "choice", "RandomState", "default_rng")}
        r.seed, r.normal, r.uniform = self.seed, self.normal, self.uniform
        r.randint = lambda *a, **k: self.real.randint(*a, **k)
        r.choice = lambda *a, **k: self.real.choice(*a, **k)
        r.RandomState = r.default_rng = self.own()
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(self.np.random, n, f)
        return False


def availability(name):
    """one load, every state of cache and source: cached / forced / reachable / writable"""
    def fn(env):
        with Rig(env) as rig:
            old = remote(env, rig, name, "old")
            new = remote(env, rig, name, "new")
            told = rig.table(old, "old:")
            rig.table(new, "http")
            cached = bool(env.var("cached", 0.0, 1.0) > 0.5)
            force = bool(env.var("force", 0.0, 1.0) > 0.5)
            if cached:
                rig.put(name, told)
            else:
                rig.nodir = bool(env.var("nodir", 0.0, 1.0) > 0.5)
            F = failures()

            def mode(url):
                r = env.var("source", 0.0, len(F) + 1.0)
                for i, f in enumerate(F):
                    if bool(r < i + 1):
                        return f
                return None
            seen = []
            rig.mode = lambda url: seen.append(mode(url)) or seen[-1]
            if not (cached and not force):
                rig.full = bool(env.var("full", 0.0, 1.0) > 0.5)
            df = env.mod("datasets").load_dataset(name, force_download=force)
            env.true("tried", len(rig.calls) == int(not cached or force))
            if cached and not force:
                check_remote(env, "cache", df, name, old)
                return
            if seen[-1] is None:
                check_remote(env, "new", df, name, new)
            elif cached:
                check_remote(env, "stale", df, name, old)
            else:
                check_built(env, "built", df, name)
                return
            # the next load needs no network, and shows the newest complete copy
            rig.mode, rig.full, n = (lambda url: F[0]), False, len(rig.calls)
            d2 = env.mod("datasets").load_dataset(name)
            stored = os.path.exists(rig.path(name))
            if seen[-1] is None and env.any_of(not rig.nodir and not bool(env.var("full", 0.0, 1.0) > 0.5)):
                env.true("stored", stored and len(rig.calls) == n)
                check_remote(env, "again", d2, name, new)
            elif cached:
                env.true("no-network", len(rig.calls) == n)
                check_remote(env, "again", d2, name, old)
            else:
                check_built(env, "again", d2, name)
    return fn


def interrupted(name, cached):
    """the process ends anywhere while the download is stored; the next process loads whole data"""
    def fn(env):
        with Rig(env) as rig:
            old, new = remote(env, rig, name, "old"), remote(env, rig, name, "new")
            told = rig.table(old, "old:")
            tnew = rig.table(new, "http")
            if cached:
                rig.put(name, told)
            rig.crash = env.var("crash", 0.0, 12.0)
            died = False
            try:
                env.mod("datasets").load_dataset(name, force_download=True)
            except Killed:
                died = True
            env.note("crash point %d of the store" % rig.ops)
            rig.crash, rig.dead = None, False
            rig.mode = lambda url: failures()[0]
            n = len(rig.calls)
            df = env.mod("datasets").load_dataset(name)
            if not died:
                check_remote(env, "after", df, name, new)
            elif len(rig.calls) > n:
                env.true("kept", not cached)
                check_built(env, "after", df, name)
            else:
                with rig._open(rig.path(name)) as f:
                    text = f.read()
                env.true("whole", text == tnew or (cached and text == told))
                check_remote(env, "after", df, name, new if text == tnew else old)
    return fn


def built(name, every):
    """offline: the constructed table, twice, from numpy's global draws"""
    def fn(env):
        import numpy
        with Rig(env) as rig:
            # a caller's own stream of random numbers goes on as if nothing had been loaded
            rig.mode = lambda url: failures()[0]
            keep = numpy.random.get_state()
            try:
                numpy.random.seed(11)
                env.mod("datasets").load_dataset(name)
                left = list(numpy.random.random_sample(3))
            finally:
                numpy.random.set_state(keep)
            env.true("stream", left == list(numpy.random.RandomState(11).random_sample(3)))
        with Rig(env) as rig, Draws(env, every) as g:
            rig.mode = lambda url: failures()[0]
            a = env.mod("datasets").load_dataset(name)
            n1, s1 = g.k, list(g.seeds)
            check_built(env, "built", a, name)
            g.k, g.seeds = (0 if s1 else g.k), []
            b = env.mod("datasets").load_dataset(name, force_download=True)
            if s1:
                # seeded with fixed numbers before the first draw, so the same table each time
                env.true("seeded", s1[0][1] == 0 and all(s is not None for s, _ in s1) and g.seeds == s1 and g.k == n1)
            env.true("same-shape", list(a.columns) == list(b.columns) and len(a) == len(b))
            for c in a.columns:
                x, y = col(a, c), col(b, c)
                for i in range(len(x)):
                    if isinstance(x[i], str) or isinstance(y[i], str):
                        env.true("same-%s%d" % (c, i), x[i] == y[i])
                    else:
                        env.eq("same-%s%d" % (c, i), x[i], y[i])
    return fn


def registry(env):
    """every listed data set loads, under its own cache name; unknown names are refused; the cache can be cleared"""
    m = env.mod("datasets")
    with Rig(env) as rig:
        names = sorted(m.list_datasets())
        env.true("names", names == sorted(NAMES))
        T = {}
        for n in names:
            T[n] = remote(env, rig, n, n)
        tab = {n: rig.table(T[n], "none:" + n) for n in names}
        for n in names:
            rig.put(n, tab[n])
        for n in names:
            check_remote(env, n, m.load_dataset(n), n, T[n])
            check_remote(env, n + "-loader", getattr(m, "load_" + n)(), n, T[n])
        env.true("offline", rig.calls == [])
        env.raises("unknown", ValueError, m.load_dataset, "mpdta2")
        import contextlib
        with contextlib.redirect_stdout(io.StringIO()):
            m.clear_cache()
        env.true("cleared", not any(os.path.exists(rig.path(n)) for n in names))
        # each data set has a source of its own, and stores under its own name
        for n in names:
            rig.tables = {"http": tab[n]}
            check_remote(env, n + "-fetched", m.load_dataset(n), n, T[n])
        env.true("sources", len(set(rig.calls)) == len(names) == len(rig.calls))
        for n in names:
            check_remote(env, n + "-stored", m.load_dataset(n), n, T[n])
        env.true("no-more", len(rig.calls) == len(names))


def cases(tier):
    th = tier == "thorough"
    C = []
    for n in NAMES:
        C.append(Case("load-" + n, availability(n), "3-9 rows, numeric cells symbolic; cache present or not, forced or not, 7 kinds of failure, cache directory or disk unusable", max_paths=None if th else 90))
        C.append(Case("interrupted-" + n, interrupted(n, False), "process ends at any file operation of the store", max_paths=90))
        C.append(Case("interrupted-cached-" + n, interrupted(n, True), "process ends at any file operation of the store, older copy present", max_paths=90))
        C.append(Case("built-" + n, built(n, {"card_krueger": 97, "castle_doctrine": 137, "divorce_laws": 197, "mpdta": 601}[n] // (4 if th else 1)), "whole constructed table, selected draws symbolic", opts={"anchor_tol": 0.2}))
    C.append(Case("registry", registry, "all four data sets, numeric cells symbolic"))
    return C
