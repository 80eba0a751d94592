"""Translates the Python 2 sources of a repository into a scratch tree.

usage: translate.py REPO TREE

Only what the checks import is translated (main.py, mtoolkit, nrml); data
files of nrml and tests/data are copied as they are.  The same lib2to3 fixers
are used as for the project's own Python 3 build, with print_function as the
fallback for a file the Python 2 grammar rejects."""
import logging
import os
import shutil
import sys
import warnings

warnings.simplefilter("ignore")
from lib2to3 import refactor  # noqa: E402

logging.disable(logging.CRITICAL)
_FIX = refactor.get_fixers_from_package("lib2to3.fixes")
_TOOL = refactor.RefactoringTool(_FIX)
_TOOL_PF = refactor.RefactoringTool(
    [f for f in _FIX if not f.endswith(".fix_print")],
    {"print_function": True})


def translate(text, name):
    if not text.endswith("\n"):
        text += "\n"
    try:
        return str(_TOOL.refactor_string(text, name))
    except Exception:
        return str(_TOOL_PF.refactor_string(text, name))


def mirror(repo, tree):
    os.makedirs(tree, exist_ok=True)
    for top in sorted(os.listdir(repo)):
        path = os.path.join(repo, top)
        if os.path.isfile(path) and top.endswith(".py"):
            _one(path, os.path.join(tree, top))
        elif os.path.isdir(path) and top not in (
                ".git", "docs", "tests", "__pycache__"):
            for base, dirs, files in os.walk(path):
                dirs[:] = sorted(d for d in dirs if d != "__pycache__")
                out = os.path.join(tree, os.path.relpath(base, repo))
                os.makedirs(out, exist_ok=True)
                for f in sorted(files):
                    if f.endswith(".pyc"):
                        continue
                    _one(os.path.join(base, f), os.path.join(out, f))
    data = os.path.join(repo, "tests", "data")
    if os.path.isdir(data):
        shutil.copytree(data, os.path.join(tree, "tests", "data"),
                        dirs_exist_ok=True)


def _one(src, dst):
    if not src.endswith(".py"):
        shutil.copyfile(src, dst)
        return
    with open(src, encoding="utf-8") as f:
        text = f.read()
    with open(dst, "w", encoding="utf-8") as f:
        f.write(translate(text, src))


if __name__ == "__main__":
    mirror(sys.argv[1], sys.argv[2])
