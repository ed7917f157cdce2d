"""Shared by the property modules."""
import atexit
import itertools
import os
import shutil
import tempfile

from .build import CACHE
from .gen import *  # noqa: F401,F403
from .lang import *  # noqa: F401,F403
from .lang import Flavor, EMPTY, Method
from .run import Case, Failure

STD = {"default": Flavor(), "empty": EMPTY}
H = ("method", ".h($line, $col, $nth, cap!($source))")
HS = ("method", ".h($nth)")

_dirs = []


def project(toml=None, cargo=True):
    """a scratch Cargo project directory with the given hooq.toml"""
    os.makedirs(CACHE, exist_ok=True)
    d = tempfile.mkdtemp(prefix="proj-", dir=CACHE)
    _dirs.append((os.getpid(), d))
    if cargo:
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "k"\nversion = "0.1.0"\nedition = "2024"\n\n[dependencies]\nhooq = "0.3"\n\n[workspace]\n')
    if toml is not None:
        with open(os.path.join(d, "hooq.toml"), "w") as f:
            f.write(toml)
    return d


@atexit.register
def _clean():
    for pid, d in _dirs:
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)


def fn_case(key, mk, attrs=(H,), ret="Result<i32, String>", flavor=None, root="", **opt):
    """mk(N) -> Block of function f"""
    def b():
        N = Names()
        return [(root, Fn(mk(N), name="f", attrs=list(attrs), ret=ret))]
    return Case(key, b, flavor, **opt)


def seqs(alphabet, lo, hi):
    for k in range(lo, hi + 1):
        yield from itertools.product(alphabet, repeat=k)


# slots in which a settings attribute, a skip or a tail role can matter, without near-duplicates
CORE = ["paren", "not", "ref", "add-l", "add-r", "cast", "assign-l", "assign-r", "range-from", "field", "await", "recv", "marg",
        "fncall", "arg", "errarg", "index-ix", "array", "rep-elem", "tuple", "field-val", "base", "break", "try", "return",
        "if-cond", "if-let", "then-tail", "then-stmt", "else-tail", "elif-cond", "elif-tail", "block-tail", "block-stmt",
        "unsafe-tail", "async-tail", "const-tail", "loop-stmt", "while-cond", "while-stmt", "for-iter", "for-stmt",
        "match-scrut", "arm", "arm-block", "guard", "let-init", "letelse-init", "letelse-tail", "clo", "clo-tail", "clo-stmt",
        "clores-tail", "mac-arg", "inner-fn-tail", "inner-const", "inner-impl"]
TINY = ["paren", "add-r", "recv", "arg", "assign-r", "try", "return", "then-tail", "else-tail", "elif-cond", "block-tail", "block-stmt",
        "unsafe-tail", "async-tail", "while-cond", "for-stmt", "match-scrut", "arm", "arm-block", "guard", "let-init", "letelse-tail",
        "clo", "clores-tail", "mac-arg", "inner-fn-tail"]
assert all(x in S for x in CORE + TINY)
