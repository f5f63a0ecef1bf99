"""Running the dustmaker command line in a scratch directory."""
import os
import shutil
import subprocess
import sys
import tempfile
import zlib

from .core import REPO, TIMEOUTS, patience

#: the modules behind the commands, which can be run on their own
MODULES = {"variables": "variables", "thumbnail": "thumbnail", "transform": "transform", "saveconvert": "save_convert"}


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-cli-")
        return self

    def __exit__(self, *_a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def put(self, name, data):
        with open(self.path(name), "wb") as f:
            f.write(data)

    def get(self, name):
        """content, or None when there is no such file"""
        try:
            with open(self.path(name), "rb") as f:
                return f.read()
        except (FileNotFoundError, IsADirectoryError):
            return None

    def names(self):
        return sorted(os.listdir(self.dir))

    def run(self, *args, timeout=60):
        """(exit status, stdout bytes); status -99 when it does not end"""
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        code = 0
        for name in self.names():
            code = zlib.crc32(self.get(name) or b"", code)
        entry = ["dustmaker", *args]
        if code % 5 == 0 and args[0] in MODULES:  # one case in five through the command's own module
            entry = ["dustmaker.cmd." + MODULES[args[0]], *args[1:]]
        try:
            p = subprocess.run([sys.executable, "-P", "-m", *entry], cwd=self.dir, env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=max(10, patience(timeout)), check=False)
        except subprocess.TimeoutExpired:
            with TIMEOUTS.get_lock():
                TIMEOUTS.value += 1
            return -99, b""
        return p.returncode, p.stdout
