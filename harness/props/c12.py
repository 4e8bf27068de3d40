"""C12: no preemption between backend calls lets a stale value survive."""
from hypothesis import strategies as st

from props.c11 import scheduled, programs

RULE = ("the programs of C11 (and, for READ COMMITTED, the same with its weaker claim) preempted before any call of the cache backend: "
        "random schedules with up to 10 switches, and for generated programs the enumeration of all schedules with one preemption and a "
        "regular sample of those with two; non-trivial: a value missing a committed change was offered to the cache (READ COMMITTED: an "
        "entry depending on the transaction's tags was stored before it began to end) and an entry was read")
EXAMPLES = {"quick": 600, "thorough": 12000}
ASSUMPTIONS = ["a backend call (also get_many, set_many, delete_many) is atomic",
               "the clock does not tick inside of a transaction's end when several threads write (see the known finding)"]
ISOS = ["REPEATABLE READ", "REPEATABLE READ", "SERIALIZABLE", "READ COMMITTED"]


@st.composite
def enumerated(draw, limit):
    case = draw(programs("calls", ISOS, (0, 0, 2)))
    if case["cfg"]["iso"] == "READ COMMITTED":
        case["cfg"]["delay"] = 0
    case["enum"] = {"bound": 2, "limit": limit}
    return case


def norc(case):
    if case["cfg"]["iso"] == "READ COMMITTED":
        case["cfg"]["delay"] = 0
    return case


def cases(tier):
    gaps = st.one_of(st.integers(0, 3), st.integers(0, 15))
    s = scheduled("calls", ISOS, gaps).map(norc)
    e = enumerated(300 if tier == "thorough" else 40)
    return st.integers(0, 11).flatmap(lambda i: e if i == 11 else s)


def judge(case, out):
    lab = out["labels"]
    return out["msg"], {"labels": sorted(lab), "nontrivial": lab.get("stale_store", 0) > 0 and lab.get("hit", 0) > 0}


def adv(dt):
    return {"o": "adv", "dt": dt}


# the clock ticks between the end times of two transactions which invalidate one tag, and the earlier one writes its lock last
KNOWN = {
    "released-overwritten": ({"engine": "sched", "keys": {"k0": {"tags": ["a"], "kids": []}}, "first": 0, "plan": [[7, 0], [8, 0], [3, 0], [6, 0], [0, 1], [8, 0]],
                              "cfg": {"iso": "REPEATABLE READ", "delay": 0, "points": "calls", "wiring": "django", "ticks": 1},
                              "threads": [[{"o": "tx", "body": [{"o": "write", "tag": "a", "inv": "before"}, adv(0.5)]}],
                                          [{"o": "tx", "body": [adv(0.5), {"o": "inv", "tag": "a"}]}],
                                          [adv(0.5), {"o": "tx", "body": [{"o": "calc", "k": "k0"}]}]]}, lambda out: bool(out["msg"])),
}
