"""C39 The dataset cache never serves damaged data."""

import contextlib
import email.message
import gzip
import importlib.resources as ir
import io
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import traceback
import urllib.error
import urllib.request
import urllib.response

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from skfolio import datasets as sd
from skfolio.datasets import _base as base

from harness import gen
from harness.core import HarnessError, check, law, note

ASSUMPTIONS = [
    "the network is an https handler installed in urllib's opener that serves generated archives; nothing leaves the process",
    "home, working and data directories lie in a scratch directory; deletions and renames outside of it are recorded as violations and never carried out",
    "crashes are process deaths or interrupts at a traced line of the loader, of joblib, gzip, urllib, shutil or tempfile, and file-size limits; power loss after a completed write is not modelled",
    "one process uses a data directory at a time",
]

LOADERS = {
    "ftse100_dataset": sd.load_ftse100_dataset,
    "nasdaq_dataset": sd.load_nasdaq_dataset,
    "sp500_implied_vol_dataset": sd.load_sp500_implied_vol_dataset,
}
NAMES = list(LOADERS)
TRACED = ("/joblib/", "/gzip.py", "/urllib/", "/shutil.py", "/tempfile.py", "/skfolio/datasets/")


class Escape(BaseException):
    """A destructive call aimed outside of the scratch directory."""


def published(name, version, big):
    """Archive published under a name at a version."""
    rng = np.random.default_rng([NAMES.index(name), version, big])
    n, k = (700, 23) if big else (6, 3)
    idx = pd.bdate_range("2015-01-01", periods=n).strftime("%Y-%m-%d")
    df = pd.DataFrame(
        rng.lognormal(3, 1, (n, k)), index=idx, columns=[f"A{i}" for i in range(k)]
    )
    df.index.name = "Date"
    raw = df.to_csv().encode()
    df.index = pd.to_datetime(df.index, format="%Y-%m-%d")
    return gzip.compress(raw, mtime=0), pd.read_csv(io.BytesIO(raw), index_col=0).set_axis(
        df.index
    )


class Broken(io.BytesIO):
    """Body whose connection drops after some bytes."""

    def __init__(self, data, cut):
        super().__init__(data)
        self.cut = cut

    def read(self, size=-1):
        if self.tell() >= self.cut:
            raise ConnectionResetError("connection reset")
        size = self.cut - self.tell() if size is None or size < 0 else size
        return super().read(min(size, self.cut - self.tell()))

    def readinto(self, b):
        chunk = self.read(len(b))
        b[: len(chunk)] = chunk
        return len(chunk)


class Server(urllib.request.HTTPSHandler):
    def __init__(self, big):
        super().__init__()
        self.big, self.version, self.mode, self.requests = big, 0, ("ok", 0), []

    def https_open(self, req):
        url = req.full_url
        self.requests.append(url)
        name = os.path.basename(url).removesuffix(".csv.gz")
        if name not in NAMES:
            raise urllib.error.HTTPError(url, 404, "Not Found", {}, None)
        body, _ = published(name, self.version, self.big)
        kind, frac = self.mode
        headers = email.message.Message()
        headers["Content-Length"] = str(len(body))
        cut = int(frac * (len(body) - 1))
        if kind == "refused":
            raise urllib.error.URLError("refused")
        if kind == "404":
            raise urllib.error.HTTPError(url, 404, "Not Found", headers, io.BytesIO(b"no"))
        if kind == "short":
            fp = io.BytesIO(body[:cut])
        elif kind == "reset":
            fp = Broken(body, cut)
        elif kind == "html":
            page = b"<html><body>rate limited</body></html>"
            headers.replace_header("Content-Length", str(len(page)))
            fp = io.BytesIO(page)
        elif kind == "flip":
            # damaged in transit: the archive's own checksum detects it
            i = 10 + int(frac * (len(body) - 19))
            fp = io.BytesIO(body[:i] + bytes([body[i] ^ 0x55]) + body[i + 1 :])
        else:
            fp = io.BytesIO(body)
        resp = urllib.response.addinfourl(fp, headers, url, 200)
        resp.msg = "OK"
        return resp


@contextlib.contextmanager
def contained(root):
    """Scratch home and working directory; destructive calls cannot leave it."""
    root = os.path.realpath(root)
    names = ["remove", "unlink", "rmdir", "rename", "replace", "truncate"]
    real = {n: getattr(os, n) for n in names}
    real_rmtree = shutil.rmtree
    log = []

    def inside(p, dir_fd=None):
        if isinstance(p, int) or dir_fd is not None:
            return False
        p = os.path.abspath(os.fspath(p))
        p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        return p.startswith(root + os.sep)

    def guard(name):
        def call(*args, **kw):
            paths = args[:2] if name in ("rename", "replace") else args[:1]
            if not all(inside(p, kw.get("dir_fd")) for p in paths):
                raise Escape(f"os.{name}{args}")
            return real[name](*args, **kw)

        return call

    def rmtree(path, *args, **kw):
        log.append(os.path.realpath(os.fspath(path)))
        if not inside(path) or os.path.realpath(path) == root:
            raise Escape(f"rmtree({path!r})")
        for n in names:
            setattr(os, n, real[n])
        shutil.rmtree = real_rmtree
        try:
            real_rmtree(path, *args, **kw)
        finally:
            arm()

    def arm():
        for n in names:
            setattr(os, n, guard(n))
        shutil.rmtree = rmtree

    env = {k: os.environ.get(k) for k in ("HOME", "SKFOLIO_DATA", "TMPDIR")}
    cwd = os.getcwd()
    tmp = tempfile.tempdir
    os.makedirs(os.path.join(root, "home"))
    os.makedirs(os.path.join(root, "work"))
    os.makedirs(os.path.join(root, "tmp"))
    os.environ["HOME"] = os.path.join(root, "home")
    os.environ["TMPDIR"] = tempfile.tempdir = os.path.join(root, "tmp")
    os.environ.pop("SKFOLIO_DATA", None)
    os.chdir(os.path.join(root, "work"))
    opener = urllib.request._opener
    arm()
    try:
        yield log
    finally:
        for n in names:
            setattr(os, n, real[n])
        shutil.rmtree = real_rmtree
        urllib.request._opener = opener
        tempfile.tempdir = tmp
        os.chdir(cwd)
        for k, v in env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


@contextlib.contextmanager
def scratch(big):
    root = tempfile.mkdtemp(prefix="c39-")
    try:
        with contained(root) as log:
            server = Server(big)
            urllib.request.install_opener(urllib.request.build_opener(server))
            yield os.path.realpath(root), server, log
    finally:
        shutil.rmtree(root, ignore_errors=True)


def tracer(stop, action):
    """Count traced lines and act at the chosen one."""
    count = [0]

    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
            if count[0] == stop:
                action()
        return local

    def start(frame, event, arg):
        return local if any(t in frame.f_code.co_filename for t in TRACED) else None

    return start, count


def in_child(fn):
    """Run in a forked process; returns its pickled answer or None when it died."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except Escape as e:
                out = ("escape", str(e))
            except BaseException as e:  # noqa: BLE001
                out = ("raised", f"{type(e).__name__}: {e}")
            sys.settrace(None)
            data = pickle.dumps(out)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def crash(fn, kind, frac, root):
    """Run the load with a crash; total number of steps measured on a dry run."""

    def dry():
        start, count = tracer(-1, None)
        sys.settrace(start)
        try:
            fn()
        finally:
            sys.settrace(None)
        return count[0]

    def run():
        if kind == "disk":
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            _, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (stop, hard))
            return fn()

        def action():
            if kind == "kill":
                os._exit(0)
            raise KeyboardInterrupt

        start, _ = tracer(stop, action)
        sys.settrace(start)
        return fn()

    if kind == "disk":
        stop = int(frac * 200_000) if frac > 0.5 else int(frac * 2000)
    else:
        keep = os.path.join(root, "keep")
        # the dry run acts on copies of the data directories
        shutil.copytree(root, keep + "-dry", symlinks=True)
        env = dict(os.environ)

        def moved():
            for k in ("HOME", "SKFOLIO_DATA", "TMPDIR"):
                if k in env:
                    os.environ[k] = env[k].replace(root, keep + "-dry")
            os.chdir(keep + "-dry/work")
            return dry()

        out = in_child(moved)
        shutil.rmtree(keep + "-dry")
        total = out[1] if out and out[0] == "ok" else 400
        stop = 1 + int(frac * total)
    return in_child(run)


# data directory settings: (argument, environment) -> directory below the scratch root
def place(root, where):
    arg, env, path = {
        "default": (None, None, "home/skfolio_data"),
        "env": (None, f"{root}/envdir", "envdir"),
        "env-home": (None, "~/e", "home/e"),
        "arg": (f"{root}/deep/er/argdir", None, "deep/er/argdir"),
        "arg-over-env": (f"{root}/argdir", f"{root}/envdir", "argdir"),
        "tilde": ("~/t", f"{root}/envdir", "home/t"),
        "relative": ("rel", None, "work/rel"),
    }[where]
    return arg, env, os.path.join(root, path)


PLACES = ["default", "env", "env-home", "arg", "arg-over-env", "tilde", "relative"]


@contextlib.contextmanager
def env_set(value):
    if value is None:
        os.environ.pop("SKFOLIO_DATA", None)
    else:
        os.environ["SKFOLIO_DATA"] = value
    try:
        yield
    finally:
        os.environ.pop("SKFOLIO_DATA", None)


def as_arg(arg, path_like):
    import pathlib

    if arg is not None and path_like and "~" not in str(arg):
        return pathlib.Path(arg)
    return arg


FRAC = st.integers(0, 999).map(lambda i: i / 1000)
# most of the traced steps come before the data are saved: look at the end as often
WHEN = st.one_of(FRAC, st.integers(0, 999).map(lambda i: 1 - 0.4 * i / 1000 - 1e-9))
NET = st.one_of(
    st.just(("ok", 0.0)),
    st.tuples(st.sampled_from(["refused", "404", "short", "reset", "html", "flip"]), FRAC),
)


def load_op(places):
    return st.fixed_dictionaries(
        {
            "op": st.just("load"),
            "name": st.sampled_from(NAMES),
            "where": places,
            "path_like": st.booleans(),
            "direct": st.booleans(),
            "missing_ok": st.sampled_from([True, True, True, False]),
            "net": st.one_of(st.just(("ok", 0.0)), NET),
            "crash": st.one_of(
                st.none(),
                st.none(),
                st.tuples(st.sampled_from(["kill", "kill", "interrupt", "disk"]), WHEN),
            ),
        }
    )


def op(places):
    return st.one_of(
        load_op(places),
        load_op(places),
        load_op(places),
        load_op(places),
        st.fixed_dictionaries({"op": st.just("clear"), "where": places, "path_like": st.booleans()}),
        st.just({"op": "publish"}),
        st.fixed_dictionaries({"op": st.just("touch"), "name": st.sampled_from(NAMES), "where": places}),
    )


@st.composite
def histories(draw):
    # few places and names so that the operations meet
    places = st.sampled_from(
        draw(st.lists(st.sampled_from(PLACES), min_size=1, max_size=2, unique=True))
    )
    return {
        "big": draw(st.sampled_from([False, False, True])),
        "ops": draw(st.lists(op(places), min_size=2, max_size=7)),
    }


def same(a, b):
    return (
        isinstance(a, pd.DataFrame)
        and a.shape == b.shape
        and list(a.columns) == list(b.columns)
        and isinstance(a.index, pd.DatetimeIndex)
        and a.index.equals(b.index)
        and a.to_numpy().dtype == b.to_numpy().dtype
        and np.array_equal(a.to_numpy(), b.to_numpy())
    )


@law(
    histories(),
    quick=700,
    thorough=9000,
    rule="at least one fault happened before a later load of the same dataset and directory, or a cached load took place",
)
def history(case):
    big = case["big"]
    with scratch(big) as (root, server, log):
        canary = os.path.join(root, "home", "canary.txt")
        sibling = os.path.join(root, "work", "canary.txt")
        for c in (canary, sibling):
            with open(c, "w") as f:
                f.write("keep")
        # (directory, name) -> set of versions possibly cached; None: possibly absent
        state = {}
        hit = False
        faulted = set()
        for o in case["ops"]:
            if o["op"] == "publish":
                server.version += 1
                continue
            arg, env, path = place(root, o["where"])
            if o["op"] == "clear":
                with env_set(env):
                    try:
                        sd_clear = base.clear_data_home(as_arg(arg, o["path_like"]))
                    except Escape as e:
                        check(False, "clearing the data directory deletes only inside it", call=str(e))
                check(sd_clear is None, "clearing returns nothing")
                left = os.listdir(path) if os.path.isdir(path) else []
                check(not left, "clearing removes the content of the data directory", left=left, where=o["where"])
                for key in list(state):
                    if key[0] == path:
                        state[key] = {None}
                note("clear")
                for c in (canary, sibling):
                    check(os.path.exists(c), "clearing leaves everything else alone", lost=c, where=o["where"])
                continue
            key = (path, o["name"])
            prior = state.get(key, {None})
            if o["op"] == "touch":
                # the frame given to a caller is the caller's own
                if prior == {None} or None in prior:
                    continue
                with env_set(env):
                    df = LOADERS[o["name"]](data_home=arg)
                    df.iloc[:, 0] = -1.0
                    df.drop(df.index[:2], inplace=True)
                continue
            server.mode = o["net"]
            server.requests.clear()

            def load(o=o, arg=arg):
                h = as_arg(arg, o["path_like"])
                if o["direct"]:
                    df = base.download_dataset(
                        o["name"], data_home=h, download_if_missing=o["missing_ok"]
                    )
                else:
                    df = LOADERS[o["name"]](data_home=h, download_if_missing=o["missing_ok"])
                return df, list(server.requests)

            with env_set(env):
                if o["crash"] is None:
                    try:
                        out = ("ok", load())
                    except Escape as e:
                        out = ("escape", str(e))
                    except Exception as e:  # noqa: BLE001
                        out = ("raised", f"{type(e).__name__}: {e}")
                        out = (*out, isinstance(e, OSError))
                    reqs = len(server.requests)
                else:
                    out = crash(load, *o["crash"], root)
                    reqs = None
            check(out is None or out[0] != "escape", "loading deletes or renames nothing outside of the data directory", call=out)
            info = dict(where=o["where"], name=o["name"], net=o["net"], crash=o["crash"], prior=sorted(map(str, prior)))
            faulty = o["net"][0] != "ok" or o["crash"] is not None
            candidates = {v for v in prior if v is not None}
            allowed = set(candidates)
            if None in prior and o["missing_ok"]:
                allowed.add(server.version)
            if out is not None and out[0] == "ok":
                df = out[1][0]
                good = [v for v in allowed if same(df, published(o["name"], v, big)[1])]
                check(good, "a load returns exactly the published data", shape=getattr(df, "shape", None), allowed=sorted(allowed), **info)
                if None not in prior:
                    hit = True
                    check(len(out[1][1]) == 0, "a cached dataset is not downloaded again", **info)
                    note("cached")
                else:
                    note("downloaded" if out[1][1] else "recovered")
                    if o["net"][0] != "ok":
                        check(not out[1][1], "a failed download is reported", **info)
                if out[1][1]:
                    want = f"https://github.com/skfolio/skfolio-datasets/raw/main/datasets/{o['name']}.csv.gz"
                    check(all(u == want for u in out[1][1]), "the dataset of that name is downloaded", urls=out[1][1])
                if None in prior and key in faulted and not faulty:
                    hit = True
                    note("load after a fault")
                state[key] = set(good)
                if o["crash"] is None:
                    check(os.path.isdir(path) and os.listdir(path), "the dataset is kept in the chosen data directory", **info)
                continue
            # the load failed
            if o["crash"] is None:
                if None not in prior:
                    check(False, "a cached dataset loads without the network", error=out[1], **info)
                if o["missing_ok"]:
                    check(faulty, "a load without faults succeeds", error=out[1], **info)
                    note(f"fault {o['net'][0]}")
                else:
                    check(out[2], "a missing dataset raises OSError when downloading is not allowed", error=out[1], **info)
                    check(reqs == 0, "nothing is downloaded when downloading is not allowed", **info)
                    note("refused to download")
                    continue
                faulted.add(key)
                # nothing was saved by a failed download
                state[key] = prior
            else:
                note(f"crash {o['crash'][0]}")
                faulted.add(key)
                nxt = set(prior)
                if None in prior and o["missing_ok"] and o["net"][0] == "ok":
                    nxt.add(server.version)
                state[key] = nxt
        # whatever happened, fault-free loads now succeed with published data
        server.mode = ("ok", 0.0)
        for (path, name), prior in state.items():
            server.requests.clear()
            df = LOADERS[name](data_home=path)
            allowed = {server.version if v is None else v for v in prior}
            check(
                any(same(df, published(name, v, big)[1]) for v in allowed),
                "after the history a load returns exactly the published data",
                name=name,
                allowed=sorted(allowed),
            )
            if None not in prior:
                check(not server.requests, "a cached dataset is not downloaded again", name=name)
            server.requests.clear()
            server.mode = ("refused", 0.0)
            df2 = LOADERS[name](data_home=path, download_if_missing=False)
            check(same(df2, df), "the cached dataset is the one that was downloaded", name=name)
            server.mode = ("ok", 0.0)
        for c in (canary, sibling):
            check(os.path.exists(c), "files outside of the data directory are left alone", lost=c)
        if not hit and not any(k in faulted for k in state):
            return False


BUNDLED = {
    "sp500_dataset.csv.gz": sd.load_sp500_dataset,
    "sp500_index.csv.gz": sd.load_sp500_index,
    "factors_dataset.csv.gz": sd.load_factors_dataset,
}
_PARSED = {}


def parsed(name):
    """Bundled file read by hand."""
    if name not in _PARSED:
        raw = ir.files("skfolio.datasets.data").joinpath(name).read_bytes()
        rows = gzip.decompress(raw).decode().strip().splitlines()
        cols = rows[0].split(",")[1:]
        idx, vals = [], []
        for r in rows[1:]:
            head, *rest = r.split(",")
            idx.append(np.datetime64(head))
            vals.append([float(v) if v else np.nan for v in rest])
        _PARSED[name] = (cols, np.array(idx, dtype="datetime64[ns]"), np.array(vals))
    return _PARSED[name]


def alter(df, how):
    if how == "values":
        df.iloc[:, :] = 0.0
    elif how == "array":
        try:
            df.to_numpy()[...] = -1.0
        except ValueError:
            pass
    elif how == "drop":
        df.drop(df.columns[0], axis=1, inplace=True)
    elif how == "rows":
        df.drop(df.index[:10], inplace=True)
    elif how == "columns":
        df.columns = [f"z{i}" for i in range(df.shape[1])]
    elif how == "index":
        df.index = range(len(df))
    elif how == "add":
        df["extra"] = 1.0
    elif how == "sort":
        df.sort_index(ascending=False, inplace=True)


@law(
    st.lists(
        st.tuples(
            st.sampled_from(list(BUNDLED)),
            st.sampled_from(["values", "array", "drop", "rows", "columns", "index", "add", "sort", "none"]),
        ),
        min_size=2,
        max_size=5,
    ),
    quick=60,
    thorough=600,
    rule="some dataset was altered and loaded again",
)
def bundled(case):
    with scratch(False) as (root, server, _):
        seen = set()
        again = False
        for name, how in case:
            again |= name in seen
            df = BUNDLED[name]()
            cols, idx, vals = parsed(name)
            check(list(df.columns) == cols, "bundled columns are those of the file", name=name)
            check(np.array_equal(df.index.to_numpy(), idx), "bundled dates are those of the file", name=name)
            got = df.to_numpy()
            check(
                got.shape == vals.shape and np.allclose(got, vals, rtol=1e-14, atol=0, equal_nan=True),
                "bundled values are those of the file",
                name=name,
            )
            alter(df, how)
            if how != "none":
                seen.add(name)
            note(how)
        check(not server.requests, "bundled datasets need no network")
        check(not os.path.exists(os.path.join(root, "home", "skfolio_data")), "bundled datasets need no data directory")
        return again


@law(
    st.fixed_dictionaries(
        {
            "where": st.sampled_from(PLACES),
            "path_like": st.booleans(),
            "before": st.sampled_from(["absent", "empty", "files"]),
        }
    ),
    quick=60,
    thorough=300,
    rule="always",
)
def data_home(case):
    with scratch(False) as (root, _, log):
        arg, env, path = place(root, case["where"])
        if case["before"] != "absent":
            os.makedirs(path)
        if case["before"] == "files":
            os.makedirs(os.path.join(path, "sub"))
            for p in ("a.pkz", "sub/b.txt"):
                with open(os.path.join(path, p), "w") as f:
                    f.write("x")
        outside = os.path.join(root, "outside")
        os.makedirs(outside)
        with open(os.path.join(outside, "f"), "w") as f:
            f.write("keep")
        if case["before"] == "files":
            # a link inside the data directory is not followed
            os.symlink(outside, os.path.join(path, "link"))
        parent = os.path.dirname(path)
        with open(os.path.join(parent, "canary"), "w") if os.path.isdir(parent) else contextlib.nullcontext():
            pass
        had_parent = os.path.isdir(parent)
        with env_set(env):
            got = base.get_data_home(as_arg(arg, case["path_like"]))
            check(os.path.realpath(got) == path, "data directory", got=str(got), want=path, **case)
            check(os.path.isdir(path), "the data directory is created", **case)
            if case["before"] == "files":
                check(os.path.exists(os.path.join(path, "sub/b.txt")), "existing files are kept", **case)
            try:
                base.clear_data_home(as_arg(arg, case["path_like"]))
            except Escape as e:
                check(False, "clearing deletes only inside the data directory", call=str(e), **case)
            check(not os.path.isdir(path) or not os.listdir(path), "the data directory is cleared", **case)
            check(os.path.isdir(parent), "the parent directory is kept", **case)
            if had_parent:
                check(os.path.exists(os.path.join(parent, "canary")), "siblings are kept", **case)
            check(os.path.exists(os.path.join(outside, "f")), "links are not followed", **case)
            base.get_data_home(as_arg(arg, case["path_like"]))
            check(os.path.isdir(path), "the data directory is created again", **case)
