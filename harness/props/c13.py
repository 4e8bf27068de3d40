"""C13: a store is refused only while another transaction can make it stale."""
from gen import Profile, histories, scripts, some
import model

RULE = ("a history of overlapping and consecutive transactions of 2-3 threads under REPEATABLE READ or SERIALIZABLE with delays, where "
        "every store is read back at once; non-trivial: the model demanded at least one store to be refused and one to be accepted")
EXAMPLES = {"quick": 900, "thorough": 25000}
ASSUMPTIONS = ["outcome left open: a lock or transaction boundary exactly on the judged instant, and leftovers of overlapping "
               "transactions of several threads which invalidated the same tag"]

P = Profile(
    sessions=3, keys=2, tags=["a", "b", "c"], versions=[[None], [None], [2], [None, 2]],
    isos=["REPEATABLE READ", "SERIALIZABLE"], delays=[0, 0, 1, 3],
    weights={"set": 8, "get": 1, "gosc": 1, "inv": 4, "adv": 4, "scope": 2, "begin": 4, "finish": 4, "flush": 1, "end": 1, "open": 2, "close": 2},
    dts=[0.25, 0.5, 1, 1, 2, 3, 4, 4.75, 5.25, 6, 7, 9], timeouts=[None], raises=[None, None, "yes"], readback=True, max_tags=2,
    kinds=["with", "with", "deco"], min_ops=8, max_ops=30)


def cases(tier):
    return some((1, histories(P)), (1, scripts(P, ["a", "a", "b"], [[None], [None], [2], [None, 0]])))


def judge(case, out):
    return model.judge(case, out, lambda lab, c, o: lab["store_refuse"] > 0 and lab["store_store"] > 0)
