TRUST_HIST = ("Random search with shrinking over generated histories; absence of violations is not proof. Trusts the reference model "
              "(harness/model.py), the virtual clock and timers, and that a call of the in-memory backend is atomic.")
TRUST_SCHED = ("Search over generated programs and schedules, not all of them. Trusts the simulated snapshot-isolated database, the "
               "virtual clock, and that a call of the backend is atomic.")
TRUST_WEB = ("Random search over generated templates, views and requests. Trusts the fresh rendering by the same Django without "
             "caching, and the model of what may be served (harness/webmodel.py).")
HIST = "stateful property-based testing: generated operation histories of several threads judged by a reference model (Hypothesis)"

TECH = {
    "default": HIST,
    "C02": HIST + ", with injected losses of backend keys and clock ties",
    "C03": HIST + ", values from a recursive generator",
    "C04": HIST + ": random graphs of nested computations against the transitive closure of tags",
    "C05": HIST + ", with aborts, raising callbacks and ends of requests",
    "C07": HIST + "; differential relation of batch and individual reads",
    "C10": HIST + ", state of the transaction manager compared after each step, with failing backends",
    "C11": "stateful property-based testing: generated concurrent programs and schedules around a simulated snapshot-isolated "
           "database, judged by the history of commits (Hypothesis)",
    "C12": "property-based testing of schedules: generated concurrent programs, random preemptions and systematic enumeration of "
           "single (all) and double (sampled) preemptions between backend calls, judged by the history of commits (Hypothesis)",
    "C16": "property-based testing: generated programs over deferred reads, differential to individual reads, counted executor calls "
           "(Hypothesis)",
    "C17": "property-based testing: generated programs over dependency objects against an algebraic (set) model (Hypothesis)",
    "C18": "property-based testing: generated texts and island programs against a reference interpreter, repeated deliveries (Hypothesis)",
    "C19": "structured fuzzing: generated and mutated look-alike markers, identity oracle and canaries for execution and unpickling "
           "(Hypothesis)",
    "C20": "property-based testing: generated templates and data changes, differential to fresh rendering (Hypothesis)",
    "C21": "property-based testing: generated templates with prevention, log of executions against a model (Hypothesis)",
    "C22": "stateful property-based testing: generated sites, requests and invalidations against a model of servable pages (Hypothesis)",
    "C23": "stateful property-based testing: generated requests and responses against a model of eligibility and equivalence (Hypothesis)",
    "C24": "stateful property-based testing: generated registrations and ORM operations against tags computed from rows (Hypothesis)",
    "C25": "stateful property-based testing: generated operation sequences against a dictionary with expiry (Hypothesis)",
    "C26": "stateful property-based testing with fault injection at file-system calls, differential to the framework's file backend "
           "(Hypothesis)",
    "C31": "property-based testing (Hypothesis): generated templates, sites, requests and islands, used by threads in the middle of each other's work, against reference models of fresh rendering and of what may be served",
    "C30": HIST + " by forked processes over one backend with generated kills, and generated templates, sites and islands served by several processes",
    "C29": HIST + ", and generated templates, sites and requests, mixing both package names",
    "C28": HIST + ", with one injected backend failure (before or after effect)",
}
NOTE = {
    "default": TRUST_HIST,
    "C11": TRUST_SCHED, "C12": TRUST_SCHED,
    "C16": "Random search with shrinking. Individual reads through the same library are the reference.",
    "C17": "Random search with shrinking. Trusts the set model of tags and epochs.",
    "C18": "Random search with shrinking. The island language is a subset of Python with a reference interpreter of its own.",
    "C19": "Random search. Damaged payloads inside of an otherwise complete marker that bears the secret are outside of the property.",
    "C20": TRUST_WEB, "C21": TRUST_WEB, "C22": TRUST_WEB, "C23": TRUST_WEB,
    "C24": "Random search with shrinking over an in-memory SQLite database. Trusts the rules by which the case computes tags from rows.",
    "C25": "Random search with shrinking. Trusts the dictionary with virtual time.",
    "C26": "Random search with shrinking; faults at each file-system call made through os, tempfile and open. Trusts the framework's "
           "own file backend as reference; a real power failure (fsync) is not simulated.",
}
