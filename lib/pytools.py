"""Importing and driving the Python tools of /repo/src/tools."""
import contextlib
import importlib
import io
import os
import signal
import sys
import types

import vbuild

SITE = "/opt/vp/venv/lib"


def package():
    """the package `verificarlo` as it is installed: src/tools/<sub-package>"""
    sys.dont_write_bytecode = True
    if "verificarlo" not in sys.modules:
        m = types.ModuleType("verificarlo")
        m.__path__ = [os.path.join(vbuild.REPO, "src/tools")]
        sys.modules["verificarlo"] = m


def load(name):
    package()
    return importlib.import_module("verificarlo." + name)


def third_party():
    """adds the dependencies of the tools (pandas, significantdigits, ...) to the path"""
    for root, dirs, _ in os.walk(SITE):
        if root.endswith("site-packages"):
            if root not in sys.path:
                sys.path.append(root)
            return True
        if root.count("/") > SITE.count("/") + 2:
            dirs[:] = []
    return False


class Timeout(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds):
    def h(*a):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def quiet(buf=None):
    buf = buf or io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        yield buf


@contextlib.contextmanager
def environ(env):
    old = dict(os.environ)
    os.environ.clear()
    os.environ.update(env)
    try:
        yield
    finally:
        os.environ.clear()
        os.environ.update(old)


@contextlib.contextmanager
def chdir(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)
