"""C27: classes (construction, inheritance, dispatch, references)."""
from vf import *
from objgen import Cls
from c18 import run_all


def check(c):
    nb, n = c.pick((130, 10), (900, 12))
    run_all(c, nb, n, False, "c27", gen=Cls, sanitize=c.tier == "thorough")
