import gc, sys
from collections.abc import Sequence
import rustsat
from rustsat import Lit, Clause, Cnf, VarManager
from rustsat.encodings.card import Totalizer
from rustsat.encodings.pb import GeneralizedTotalizer, DynamicPolyWatchdog, BinaryAdder
from rustsat.encodings.am1 import Bimander, Bitwise, Commander, Ladder, Pairwise

gc.disable()


class Stop(Exception):
    pass


NESTED = []


class S(Sequence):
    """a sequence that fails or runs other code while it is read"""

    def __init__(self, items, at, code, size=None):
        self.items, self.at, self.code, self.size = items, at, code, size

    def __len__(self):
        if self.size is None:
            return len(self.items)
        if self.size < 0:
            raise Stop()
        return self.size

    def __getitem__(self, i):
        return self.items[i]

    def __iter__(self):
        for i in range(len(self.items) + 1):
            if i == self.at:
                if self.code is None:
                    raise Stop()
                NESTED.append(one(self.code))
            if i < len(self.items):
                yield self.items[i]


NAMES = dict(L=Lit, C=Clause, F=Cnf, V=VarManager, S=S, Totalizer=Totalizer, GeneralizedTotalizer=GeneralizedTotalizer,
             DynamicPolyWatchdog=DynamicPolyWatchdog, BinaryAdder=BinaryAdder, Bimander=Bimander, Bitwise=Bitwise,
             Commander=Commander, Ladder=Ladder, Pairwise=Pairwise)
ENV = {}


def can(x):
    if x is None:
        return "None"
    t = type(x)
    if t is bool or t is int:
        return str(x)
    if t is str:
        return '"' + x + '"'
    if t is Lit:
        return "l" + str(x.to_ipasir())
    if t is Clause:
        return "(" + " ".join([can(x[i]) for i in range(len(x))]) + ")"
    if t is Cnf:
        return "{" + " ".join([can(x[i]) for i in range(len(x))]) + "}"
    if t is list:
        return "[" + " ".join([can(y) for y in x]) + "]"
    return "<" + t.__name__ + ">"


def one(src):
    try:
        return can(eval(src, ENV))
    except BaseException as e:
        return "!" + type(e).__name__


def call(src):
    NESTED.clear()
    r = one(src)
    return "\n".join([r] + NESTED)


def reset():
    ENV.clear()
    ENV.update(NAMES)
    NESTED.clear()


def collect():
    gc.collect()
