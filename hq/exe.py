"""Compiles programs against the real hooq and runs them."""
import os
import shutil
import subprocess
import tempfile

from . import run
from .build import ToolError


def build_and_run(hooq, text, manifest_dir, path="main.rs", extra=(), args=(), env=None, timeout=300, compile_only=False, edition="2024"):
    """-> (compiled ok, compiler diagnostics, exit code, stdout, stderr)"""
    work = tempfile.mkdtemp(prefix="hqx-")
    try:
        full = os.path.join(work, path)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "w") as f:
            f.write(text)
        cmd = ["rustc", "--edition", edition, "--crate-type", "bin", "--crate-name", "k", "--cap-lints", "allow", "-Cdebuginfo=0",
               "--extern", "hooq=" + hooq["rlib"], "-L", "dependency=" + hooq["deps"], *extra, "-o", os.path.join(work, "exe"), path]
        try:
            r = subprocess.run(cmd, cwd=work, env=run.rustc_env(manifest_dir), capture_output=True, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("rustc timed out")
        if r.returncode != 0 or compile_only:
            return r.returncode == 0, r.stderr, None, "", ""
        e = run.rustc_env(manifest_dir)
        e.update(env or {})
        try:
            x = subprocess.run([os.path.join(work, "exe"), *args], cwd=work, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            return True, r.stderr, -1, "", "<timed out>"
        return True, r.stderr, x.returncode, x.stdout, x.stderr
    finally:
        shutil.rmtree(work, ignore_errors=True)
