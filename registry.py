"""What decides each property: contract modules, runtime module, budgets, wording."""

COMMON_TRUST = [
    "pyvc (/verif/pyvc): the verification-condition generator for the Python subset these functions use (symbolic execution of the ast parsed from /repo's current source; callees inlined or replaced by their own contract)",
    "z3 5.3.2 and cvc5 1.1.2 (either verdict accepted)",
    "field types and singleton wiring declared in /verif/specs/ipyworld.py",
    "partial correctness: termination is not proved",
]

COMMON_ASSUME = [
    "Python integers are mathematical integers (exact in CPython)",
    "CPython reference counting closes abandoned generators promptly",
    "no other thread mutates the tracked state during a call",
]

REG = {}


def prop(pid, **kw):
    kw.setdefault("specs", [])
    kw.setdefault("rac", pid.lower())
    kw.setdefault("level", "proof")
    kw.setdefault("assume", [])
    kw.setdefault("trust", [])
    kw.setdefault("proof_wall", 240)
    kw.setdefault("rac_budget", 100)
    REG[pid] = kw


prop("C01", specs=["c01", "c01r"],
     technique="deductive contracts on the edge operations (VCs from source, z3/cvc5) + runtime contract replay",
     note="Every edge operation (add/remove/reroute, by reference, id or timestamp, for cells and statements, static and dynamic) is proved against a whole-view postcondition, and the two-sided agreement is proved preserved for cells. Renaming a placeholder id is proved to move both sides of all edges of all versions. The recording driven by real notebook runs is a bounded runtime check (labelled bounded).",
     assume=["bounded stand-in: the sharing of children tables between versions in create_and_track is covered by runtime checks only",
             "distinct versions of a cell are modelled with separate children tables (the code shares one dict between versions); runtime checks cover the sharing"])
prop("C03", specs=["c03"],
     technique="deductive contracts on the context managers/generators via arbitrary client blocks",
     note="Proved for an arbitrary block body that may return or raise, for nested blocks, and for the per-context loops left by exhaustion, break, return or exception.",
     assume=["the body of a block restores whatever context it sets itself (nested blocks are covered by the same contracts)"])
prop("C04", specs=["c04"],
     technique="deductive contracts on Timestamp operations and offset blocks",
     note="Equality, inequality, ordering and offset arithmetic proved for all integers; offset blocks proved to restore for arbitrary bodies.")
prop("C02", specs=["c02"],
     technique="deductive contracts on slice construction (loop invariants, ghost adjustment/reachability relations) + runtime contract replay",
     note="make_multi_slice and its recursive walk are proved, for cells and statements and seeds given as objects, timestamps or counters, to return exactly the least set closed under version-adjusted recorded parents of the enabled contexts, each element once, sorted by time. Grouping into cells and text formatting are bounded runtime checks.",
     assume=["every recorded parent is known to the tables and has a version that is not newer than the dependent (otherwise there is nothing to slice to)",
             "bounded stand-in: per-cell grouping, headers, text and slice(stmts=...)/code() are covered by runtime checks only"])
prop("C05", specs=["c05"],
     technique="deductive contracts on directional edges, provider table and position index (loop invariants, client blocks) + runtime contract replay",
     note="Directional parents/children, the edges read outside of any context, the provider table, the position index with its inverse and position-ordered enumeration are proved for all graphs and orders; suspending positions is proved to restore them for arbitrary block bodies. How interface messages reach the position index is a bounded runtime check.",
     assume=["bounded stand-in: CommManager/NotebookFlow handling of order messages is covered by runtime checks only"])
prop("C06", specs=["c06"], deps=["c05"],
     technique="deductive contracts on link computation (nested fixpoint loop invariants, arbitrary closed relation) + runtime contract replay",
     note="The closure loop is proved to return exactly the reachable non-waiting cells and the ready makers exactly the converse; direct links are proved per schedule and flow order.",
     assume=["which cells are waiting and which symbols they wait for comes from the liveness checker (bounded runtime checks)"])
prop("C07", specs=["c07"], deps=["c05"],
     technique="deductive contracts on the schedule computation, from the per-cell check through the waiting-cell fixpoint (arbitrary closed set) to the whole result + runtime contract replay",
     note="The fixpoint is proved least and closed for every graph, cell order, schedule and set of contexts. The readiness decision, the status one check gives one cell, the forced cells and the whole computation are under contract too: newly ready cells are ready, marks agree with reports, waiting cells are neither, the in-order bound holds, in every schedule and for any findings of the static check.",
     assume=["the static check of a cell (check_and_resolve_symbols) may find anything but touches no status, mark, position or counter, and keeps recorded dependencies known (trusted contract)",
             "the liveness counter of a cell is an arbitrary number read without side effects (trusted contract)",
             "functions that fill other fields of the result touch only these (trusted frames, each under contract in C06/C08 where listed)",
             "a computation starts from an empty result, with every checked cell once and current"])
prop("C08", specs=["c08"], deps=["c05"], proof_wall=420,
     technique="deductive contracts on the reported graph (loop invariants over nested context loops) + runtime contract replay",
     note="Proved for all graphs: entries for every checked cell, parents recorded and permitted, children exactly the converse and, in any-order flow, parents exactly the live ones. The in-order supersession rule and the JSON message are bounded runtime checks.",
     assume=["bounded stand-in: to_json and the in-order supersession rule are covered by runtime checks only"])
prop("C10", specs=["c10"],
     technique="deductive contracts on the dependency update and collection of symbols (loop invariants over mirrored edge maps) + runtime contract replay",
     note="The whole dependency update is proved for every graph, set of new dependencies and combination of flags, and so is the removal of collected symbols. Which dependencies a traced statement passes in is a bounded runtime check (generated programs against an independent model).",
     assume=["refreshing, alias upkeep, staleness propagation and widget hooks called by the update do not touch edges between existing symbols (listed as trusted contracts)",
             "bounded stand-in: the dependencies computed by the tracer for a statement are covered by runtime checks only"])
prop("C20", specs=["c20"],
     technique="deductive contracts on the lifted queries (recursive traversal contract, arbitrary closed relation) + runtime contract replay",
     note="All four queries and the traversal they share are proved for every graph. Which symbol a program expression denotes (argument lifting by the tracer) is a bounded runtime check.",
     assume=["bounded stand-in: argument lifting by the tracer is covered by runtime checks only"])
prop("C09", specs=["c09"],
     technique="deductive contracts on the mutually recursive update protocol (arbitrary downstream set, loop invariants) + runtime contract replay",
     note="The whole propagation (users, containers, members, updated symbols and their containers) is proved for every graph: everything reached waits or holds something that waits, nothing else does, updated symbols are cleared. Reading the marks (is_waiting) is proved; the cell statuses built on them are bounded runtime checks against an independent model.",
     assume=["containers whose attributes double as subscripts (pandas frames) are out of scope: the extra symbols updated for them are assumed absent",
             "the members of a namespace are given by its tables (Namespace.all_symbols_this_indentation is modelled by a set)",
             "bounded stand-in: per-cell waiting/ready statuses and the dependencies recorded by the tracer are covered by runtime checks only"])
prop("C13", specs=["c13"],
     technique="deductive contracts on the reuse decision (loop invariants over records and inputs) + runtime contract replay",
     note="Proved for all records: a run is named exactly when it is earlier, of the same text, all its recorded inputs are unchanged and its results intact. Which inputs are recorded, how values are compared and what a skip restores are bounded runtime checks against plain execution.",
     assume=["comparing two values (Symbol.make_memoize_comparable*) is uninterpreted in the proof; runtime checks cover it",
             "bounded stand-in: recording of inputs and restoring of results are covered by runtime checks only",
             "objects changed by methods the tracer does not follow (bytearray.append) are out of scope"])
prop("C17", specs=["c17"],
     technique="deductive contracts on creating and renaming cell versions (loop invariants over lookup tables and edge tables, version chains) + runtime contract replay",
     note="Creating a version is proved, for every state of the tables, to consume one counter, to be found by id and counter, to extend history and tags and to leave every other version alone; renaming is proved to move exactly the id, position, tags, reactive tags and both sides of all edges of all versions, and never to change the hash of a cell that is in a lookup set. That executions, the shell's counter and %tag call these as stated is a bounded runtime check.",
     assume=["the shell's execution count agrees with the cell counter (otherwise the code adopts the shell's)",
             "when a cell is renamed, its executed versions are those on its prev_cell chain, and the chain is acyclic",
             "bounded stand-in: %tag and the shell's use of create_and_track are covered by runtime checks only"])
prop("C12", specs=["c12"],
     technique="deductive contracts on the element bookkeeping of lists and on the list-method handlers (loop invariants over moving positions, ghost copy of the list before the edit) + runtime contract replay",
     note="For every list, position and recorded symbols: moving symbols up and down, deleting one by a position counted from either end, looking one up, recording one, and the handlers of insert, pop, remove, append and extend are proved to keep every symbol on its element. Which handler the tracer calls with which arguments, and the dependencies of new elements, are bounded runtime checks.",
     assume=["dependency updates made while moving an element's symbol do not touch symbol tables (listed as opaque)",
             "Scope.upsert_symbol_for_name changes symbol tables exactly as _upsert_symbol_for_name_inner, which is under contract",
             "bounded stand-in: the tracer's calls of the handlers and the dependencies of new elements are covered by runtime checks only"])
