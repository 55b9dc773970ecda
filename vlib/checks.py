"""What each check does."""
from . import progs, progs2, progs3, progs4, progs5, progs6, progs7, progs8, reader
from .check import validate


def machine(fn, **kw):
    def go(rep):
        m = progs.Maker(rep.prop, rep.seed, rep.tier)
        fn(m)
        validate(rep, m.progs, m.kinds, **kw)
    return go


CHECKS = {
    "C01": machine(progs.c01),
    "C02": machine(progs.c02),
    "C03": machine(progs.c03),
    "C04": machine(progs.c04),
    "C05": machine(progs2.c05),
    "C06": machine(progs2.c06),
    "C07": machine(progs2.c07),
    "C08": machine(progs2.c08),
    "C09": machine(progs2.c09),
    "C10": machine(progs3.c10),
    "C11": machine(progs3.c11),
    "C12": machine(progs3.c12),
    "C13": machine(progs3.c13),
    "C14": machine(progs3.c14),
    "C15": machine(progs3.c15),
    "C16": machine(progs3.c16),
    "C17": reader.c17,
    "C18": machine(progs7.c18),
    "C19": machine(progs4.c19),
    "C20": machine(progs4.c20),
    "C21": machine(progs5.c21),
    "C22": progs5.c22,
    "C23": machine(progs6.c23, limit=10),
    "C24": machine(progs6.c24),
    "C25": machine(progs6.c25, limit=20),
    "C26": machine(progs3.c26),
    "C27": machine(progs3.c27),
    "C28": machine(progs8.c28),
    "C29": machine(progs8.c29),
}

TECHS = {
    "C17": "TLA+ reader (Reader.tla): TLC enumerates all short texts, computes their forms and compares them with what the implementation read",
    "C22": "TLA+ abstract machine (LispCore) and sequential consistency of register histories (Lin.tla), checked with TLC against outcomes and histories recorded from Worlds running concurrently, also in a build with the race detector",
}
NOTES = {
    "C22": "Schedules are those the Go scheduler produces (many repetitions on 8 cores, with and without the race detector); every outcome must be one the sequential machine allows and every history sequentially consistent.",
}
