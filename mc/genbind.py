"""Builds bindings from YANG text with the plugin in the repository's working tree.

Each build runs pyang in a forked child, so the plugin's module-level type tables never leak
from one build to the next."""
import importlib
import os
import shutil
import sys
import tempfile
import types

from mc import core

_warm = False


def warm():
    global _warm
    if not _warm:
        import pyang.scripts.pyang_tool  # noqa
        import pyang.context  # noqa
        import pyang.statements  # noqa
        import optparse  # noqa
        import pyangbind.lib.yangtypes  # noqa
        import pyangbind.lib.serialise  # noqa
        import pyangbind.lib.xpathhelper  # noqa

        assert os.path.realpath(pyangbind.lib.yangtypes.__file__).startswith(os.path.realpath(core.REPO)), (
            pyangbind.lib.yangtypes.__file__
        )
        _warm = True


class GenError(Exception):
    pass


def run_pyang(files, flags, outfile, path, extra_pre=None):
    """fork + in-process pyang; returns (exit status, stderr+stdout text)"""
    warm()
    log = outfile + ".log"
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        rc = 99
        try:
            fd = os.open(log, os.O_CREAT | os.O_TRUNC | os.O_WRONLY, 0o600)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            sys.stdout = os.fdopen(1, "w", closefd=False)
            sys.stderr = os.fdopen(2, "w", closefd=False)
            from pyang.scripts import pyang_tool

            if extra_pre:
                extra_pre()
            sys.argv = (
                ["pyang", "--plugindir", core.REPO + "/pyangbind/plugin", "-f", "pybind", "-o", outfile, "-p", path]
                + list(flags)
                + list(files)
            )
            try:
                rc = pyang_tool.run()
                rc = 0 if rc is None else int(rc)
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 98)
        except BaseException:
            import traceback

            traceback.print_exc()
            rc = 97
        finally:
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            except BaseException:
                pass
            os._exit(rc & 0xFF)
    _, st = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(st)
    try:
        text = open(log, encoding="utf8", errors="replace").read()
    except OSError:
        text = ""
    return rc, text


def source(mods, main=None, flags=(), split=None, extra_pre=None):
    """mods: {name: yang text}; -> python source text (or '' in split mode)"""
    d = tempfile.mkdtemp(prefix="gen", dir=core.SCRATCH)
    try:
        for n, t in mods.items():
            with open(os.path.join(d, n + ".yang"), "w", encoding="utf8") as fh:
                fh.write(t)
        files = [os.path.join(d, n + ".yang") for n in (main or list(mods))]
        out = os.path.join(d, "bindings.py")
        fl = list(flags)
        if split:
            fl += ["--split-class-dir", split]
        rc, text = run_pyang(files, fl, out, d, extra_pre)
        if rc != 0:
            raise GenError("pyang/pyangbind exit status %s\n%s\n%s" % (rc, text[-1500:], list(mods.values())[0][:1500]))
        if split:
            return ""
        return open(out, encoding="utf8").read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


_n = 0


def load(src):
    global _n
    _n += 1
    m = types.ModuleType("mcbind%d" % _n)
    exec(compile(src, "<bindings %d>" % _n, "exec"), m.__dict__)
    m._src = src
    return m


def build(mods, main=None, flags=()):
    return load(source(mods, main, flags))


def build_split(mods, main=None, flags=(), also=()):
    """bindings written as a tree of packages, imported under a name of their own, and some of its packages"""
    global _n
    _n += 1
    name = "mcsplit%d_%d" % (os.getpid(), _n)
    d = tempfile.mkdtemp(prefix="split", dir=core.SCRATCH)
    try:
        source(mods, main, flags, split=os.path.join(d, name))
        sys.path.insert(0, d)
        try:
            importlib.invalidate_caches()
            m = importlib.import_module(name)
            for sub in also:
                importlib.import_module(name + "." + sub)
        finally:
            sys.path.remove(d)
        for k in [k for k in sys.modules if k == name or k.startswith(name + ".")]:
            del sys.modules[k]
        return m
    finally:
        shutil.rmtree(d, ignore_errors=True)
