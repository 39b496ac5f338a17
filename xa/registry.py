"""Which analyses decide which property."""
import os

from . import l1_sparse, l1_entity, l1_group, l2_world, l2_entity, l2_basic, l2_group, l3_iter, l4_types, l4_witness

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

JOBS = {
    "sparse": l1_sparse.check,
    "entity-manager": l1_entity.check,
    "group-full": lambda p, r: l1_group.check(p, r, "full"),
    "group-partial": lambda p, r: l1_group.check(p, r, "partial"),
    "group-non": lambda p, r: l1_group.check(p, r, "non"),
    "remove-entity": lambda p, r: l2_world.check(p, r, ["remove_entity"]),
    "attach": lambda p, r: l2_entity.check(p, r, [("Entity", "attach")]),
    "detach": lambda p, r: l2_entity.check(p, r, [("Entity", "detach")]),
    "attach-batch": lambda p, r: l2_entity.check(p, r, [("Entities", "attach")]),
    "attach-world": lambda p, r: l2_entity.check(p, r, [("World", "attach_component")]),
    "detach-world": lambda p, r: l2_entity.check(p, r, [("World", "detach_component")]),
}
for _n in ("make", "find", "marker"):
    JOBS["group-" + _n] = lambda p, r, n=_n: l2_group.check(p, r, [n])
for _n in ("one", "full", "partial", "non", "tuple", "without", "plumbing"):
    JOBS["query-" + _n] = lambda p, r, n=_n: l3_iter.check(p, r, [n])
for _n in l2_basic.OPS:
    JOBS[_n] = lambda p, r, n=_n: l2_basic.check(p, r, [n])
LOOPS = set(JOBS)
JOBS["types"] = l4_types.check
JOBS["witness"] = l4_witness.check
HANDLES = ["attach", "detach", "attach-batch", "attach-world", "detach-world"]
GROUPS = ["group-full", "group-partial", "group-non"]

MAKING = ["group-make", "group-find", "group-marker"]

BASIC = list(l2_basic.OPS)
GQUERY = ["query-full", "query-partial", "query-non"]
QUERIES = ["query-one"] + GQUERY + ["query-tuple", "query-without", "query-plumbing"]
WORLD = HANDLES + ["remove-entity"] + BASIC + MAKING + QUERIES
ALL = [j for j in JOBS if j in LOOPS]
WORLDS = set(WORLD)
TYPES = ["types", "witness"]


def own(*jobs):
    """The obligations of the property itself in these analyses."""
    return {j: None for j in jobs}


EM_RULES = {"entity-manager": ["em-", "no-panic"]}
SP_RULES = {"sparse": ["sparse-", "no-panic"]}

# property -> analyses whose obligations it takes, and which of their obligations (None: those of the property itself)
USES = {
    "P01": own(*ALL, *TYPES),
    "P02": own(*WORLD),
    "P03": {**own(*TYPES), **{j: ["iter-held", "iter-locks", "item-lock", "result-guard", "guard-m", "query-locks", "query-mode"] for j in QUERIES + ["guards", "entity", "resources"]}},
    "P04": own(*WORLD),
    "P05": {**EM_RULES, **own("create", "entity", "remove-entity", "consume", "world-new")},
    "P06": {"entity-manager": ["em-batch", "em-inv", "em-"], **own("create", "entity")},
    "P07": {**own(*ALL), "entity-manager": ["no-panic", "em-has"], "sparse": ["no-panic", "sparse-read"]},
    "P08": {"sparse": None, "storage-object": None, **own(*HANDLES)},
    "P09": {"remove-entity": None, "consume": None, "sparse": ["sparse-map", "sparse-inv"], "entity-manager": ["em-"], **{g: ["grp-"] for g in GROUPS}},
    "P10": {**own(*HANDLES, "group-make"), "remove-entity": None, "consume": None},
    "P11": own(*GROUPS, "group-marker"),
    "P12": {**own(*WORLD), **{g: ["grp-frame", "grp-types"] for g in GROUPS}},
    "P13": {**own(*GQUERY, "group-make", "group-find", "group-marker"), **{g: ["grp-"] for g in GROUPS}, "sparse": ["sparse-inv", "sparse-read"], "query-plumbing": ["forward"]},
    "P14": {"query-one": None, "query-plumbing": ["forward"], "sparse": ["sparse-inv", "sparse-read", "sparse-map"]},
    "P15": {"query-tuple": None, "query-plumbing": ["forward"]},
    "P16": {"query-without": None, "query-plumbing": ["forward"]},
    "P17": own(*QUERIES),
    "P18": {"guards": None, "sparse": ["sparse-read"]},
    "P19": own("world-new", "register", "guards", "resources", "group-make", "create", "remove-entity", *HANDLES, "query-one", *GQUERY),
    "P20": own("world-new", "resources", "register", "group-make", "create", "remove-entity"),
    "P21": own(*TYPES),
    "P22": own(*TYPES),
    "P23": own("create", "entity", "consume", "remove-entity", *HANDLES),
    "P24": {**own(*ALL), "sparse": ["unchecked", "sparse-inv"]},
    "P25": {**own(*ALL), "entity-manager": ["no-panic"]},
    "P26": {**own(*WORLD), "sparse": ["sparse-map", "batch-", "sparse-"]},
    "P27": own(*QUERIES),
    "P28": own(*GQUERY, "query-one", "guards", "entity", "resources", "register", "world-shown"),
    "P29": {"entity-manager": ["id-reuse", "em-inv"], "create": None, "remove-entity": ["remove-id"]},
}

FLOORS = {"P01": 110, "P02": 250, "P03": 130, "P04": 120, "P05": 25, "P06": 18, "P07": 45, "P08": 50, "P09": 80, "P10": 15, "P11": 55, "P12": 150, "P13": 200,
          "P14": 55, "P15": 50, "P16": 28, "P17": 100, "P18": 33, "P19": 24, "P20": 10, "P21": 35, "P22": 230, "P23": 11, "P24": 100, "P25": 30, "P26": 40, "P27": 17, "P28": 30, "P29": 15}

EXPLAIN = {'P01': 'At every typed access (downcast, raw cast, map lookup) the key, the container registered under it and the type used are shown to be one type.',
 'P02': 'Lock-set typestate: every access to a shared table on every path happens under its own lock in the mode needed, and every returned guard or iterator holds the locks of what it points into.',
 'P03': 'Region rules over every public signature and guard type, exclusivity of mutable access, and programs the compiler has to refuse next to twins it has to accept.',
 'P04': 'Lock-order analysis over the acquisition and release events of every path of every public operation.',
 'P05': 'Inductive contract of the id table from an arbitrary consistent table, and the world operations that use it.',
 'P06': 'Inductive contract of batch allocation from an arbitrary consistent table, and the batch handle built from it.',
 'P07': 'With an unconstrained id, no path of a lookup ends in a panic or an out-of-bounds access, and the answer is absence exactly when the id is unknown.',
 'P08': "Each storage method against the map from id to value, before and after; the world's and handles' operations reach exactly that method of exactly that storage.",
 'P09': 'The effects of removal, quantified over all groups and storages of an arbitrary world, with everything else unchanged.',
 'P10': 'After each change of a storage every group over its type is brought up to date, under group locks held from before the change.',
 'P11': 'Inductive contract of building, adding and removing for every group kind, from arbitrary consistent groups and storages.',
 'P12': 'Path conditions under which a group is accepted, and a census of all operations for reorderings of storages.',
 'P13': 'Queries of groups: what is locked, where the cursor starts, each step from an arbitrary point, the end, and lookup by id.',
 'P14': 'Queries of one component: what is locked, each step from an arbitrary point, the end, and lookup by id.',
 'P15': 'Combined iterators over arbitrary parts: each step yields the next candidate matched by all parts and skips exactly the others.',
 'P16': 'Difference iterators over arbitrary parts: each step yields the next candidate not matched by the excluded part.',
 'P17': 'All ways to advance an iterator are compared: item, order, cursor; lookups leave the cursor alone; boxes forward.',
 'P18': 'Dereferences, lookups, slices, counts and emptiness of guards as terms over the locked object.',
 'P19': 'The component map before and after each operation, and the answers for unregistered types.',
 'P20': 'The resource map before and after each operation, and the value a guard reaches.',
 'P21': 'Bounds of every entry point and boxed type, absence of unsafe auto-trait assertions, and witness programs per type.',
 'P22': 'Reachability of mutable tables through the public surface, and a census of structural effects of every public operation.',
 'P23': "Typestate of the id table's lock in handles: taken before the existence test, kept in the handle, needed exclusively for removal.",
 'P24': 'Every unchecked access is a bounds or liveness obligation on each path, from every state satisfying the invariants.',
 'P25': 'On every path to a documented panic no change precedes it; no other panic is reachable on valid input.',
 'P26': 'Linear tracking of component values: each value given ends in exactly one place; values copied bitwise are forgotten or overwritten.',
 'P27': 'The reported length is shown equal to the number of remaining items at an arbitrary point of the iteration.',
 'P28': 'Lock-set analysis of every reading operation and query: the mode and the owner of each lock taken on every path.',
 'P29': 'Inductive accounting of the ids waiting for reuse, before and after each operation on an arbitrary consistent id table.'}

ASSUME = [
    "integer arithmetic does not overflow (fewer than 2^63 entities)",
    "conversion of an entity id to an index is injective",
    "std and parking_lot behave as documented (they are modelled, not analysed)",
    "component code (Drop, user trait impls) does not re-enter the world",
]


def jobs_of(prop):
    return list(USES[prop])


def relevant(prop, o, job):
    if o[0] in (prop, "*"):
        return True
    return any(o[1].startswith(r) for r in USES[prop].get(job) or [])


def known():
    """(keys of known findings, fixed lines)"""
    k, f = set(), []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                k.add(l[7:].split(" | ")[0])
            elif l.startswith("fixed: "):
                f.append(l)
    return k, f

TECHNIQUE = {'P01': 'abstract interpretation of compiler MIR (type identity of keys, containers and casts); variance rules; compile-fail witnesses',
 'P02': 'lock-set typestate by abstract interpretation of compiler MIR',
 'P03': 'region and variance rules over the type-checked API; guard typestate on MIR; compile-fail witnesses',
 'P04': 'lock-order analysis by abstract interpretation of compiler MIR',
 'P21': 'trait-bound and auto-trait rules over the type-checked program; compile-fail witnesses',
 'P22': 'reachability over the type-checked API; effect analysis by abstract interpretation of MIR; compile-fail witnesses',
 'P23': 'lock typestate by abstract interpretation of compiler MIR',
 'P26': 'linear value tracking by abstract interpretation of compiler MIR'}
NOTE = {'P03': 'Decided for all programs that use the declarations; the witnesses use the compiler as the judge. Items of queries can outlive their iterator (known findings, one per impl). The guard rules on MIR have the '
        'limits of the other checks: std and parking_lot are modelled.',
 'P21': "Decided on declarations by the compiler's own trait solver; no bound. A witness whose accepted twin does not compile decides nothing and is left open.",
 'P22': 'Surface rules are decided on declarations; effects by abstract interpretation of MIR for all inputs. A witness whose accepted twin does not compile is left open.'}
NA = {}
DEFAULT_NOTE = ("Every obligation is decided for all inputs from the MIR of the current tree by abstract interpretation; std and parking_lot are "
                "modelled, the analyser itself is trusted. An obligation the analysis cannot decide stays open and is listed in the evidence, not reported.")
