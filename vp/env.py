"""Importing the code under test."""
import os, sys, importlib, shutil, struct
from . import core


def use_repo():
    """UnicodeData is imported straight from the repository's working tree."""
    if core.REPO not in sys.path: sys.path.insert(0, core.REPO)


def mod(name):
    use_repo()
    return importlib.import_module('UnicodeData.' + name)


def code_points():
    """Code points with the weight on the places where the code changes behaviour."""
    from hypothesis import strategies as st
    edges = [0, 1, 0x1f, 0x20, 0x7e, 0x7f, 0x80, 0x9f, 0xa0, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xabff, 0xac00, 0xd7a3,
             0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfdcf, 0xfdd0, 0xfdef, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001,
             0x1ffff, 0x20000, 0x2ffff, 0x30000, 0xe0000, 0xe0fff, 0xf0000, 0xfffff, 0x100000, 0x10fffd, 0x10fffe, 0x10ffff]
    return st.one_of(st.sampled_from(edges), st.integers(0, 0x2ff), st.integers(0, 0xffff), st.integers(0x10000, 0x2ffff),
                     st.integers(0, 0x10ffff))
