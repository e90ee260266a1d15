"""Source of properties.jsonl (python3 tools/props.py rewrites it and MANIFEST.json)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": hook}})


D = "core/ipyflow/"
prop("C01", "Dependency edges agree on both endpoints",
     "Recording, removing or rerouting a dependency between two different cells (or statements) changes the dependent's list of parents and the other side's list of children in the same way: exactly the given symbols, in the dynamic or the static graph it was issued for, and no other pair, symbol or graph is touched; a pair left without symbols disappears. Recording against a cell that already depends on this one records nothing, and recording against oneself only inherits those parents of one's previous version that share a given symbol, each of which then lists the cell back. Renaming a cell's placeholder id carries all its edges, on both sides, to the new id.",
     ["histories", "inputs"], "every sequence of edge operations, re-executions and renames over any number of cells/statements, any symbol sets, both graphs, and endpoints named by object, id or timestamp",
     "The tests run a few dozen notebooks and compare final slices; they never look at both endpoints of every edge, nor at sequences of add/remove/reroute with overlapping symbol sets.",
     [D + "slicing/mixin.py", D + "data_model/cell.py", D + "data_model/statement.py"],
     [("edge operations", D + "slicing/mixin.py:SliceableMixin.add_parent_edges/remove_parent_edges/replace_parent_edges/replace_child_edges"),
      ("placeholder rename", D + "data_model/cell.py:Cell.update_id")],
     [("raw_{dynamic,static}_{parents,children}", "edge tables: endpoint id -> symbols", D + "data_model/cell.py, statement.py")],
     ["Cell.dynamic_parents/static_children/..., Statement likewise"])
prop("C03", "Slicing contexts are scoped: seen inside, restored outside",
     "Code inside a dynamic or static slicing block sees exactly that context, whatever was active before, and leaving the block in any way (end, return, break, exception, abandoned loop) restores what was active before. A loop over the enabled contexts makes exactly one pass per enabled context, dynamic first, each seeing its own context, and restores the previous one afterwards. Outside any context the combined edges are exactly the union over the enabled contexts.",
     ["histories", "inputs", "configurations"], "every nesting of blocks and context loops, every way of leaving them, every combination of enabled contexts",
     "Tests enter each context once and never leave a context loop early or by exception; a leaked context silently corrupts later slices.",
     [D + "slicing/context.py", D + "config.py", D + "utils/misc_utils.py", D + "slicing/mixin.py"],
     [("context managers", D + "slicing/context.py"), ("per-context loop", D + "utils/misc_utils.py:yield_in_loop, config.py:iter_slicing_contexts"),
      ("combined edges", D + "slicing/mixin.py:raw_parents/raw_children")],
     [("slicing_ctx_var", "active context", D + "slicing/context.py")])
prop("C04", "Timestamps order executions totally and offsets are scoped",
     "Timestamps are equal exactly when both the cell and the statement position are equal, are ordered lexicographically (cell first), and hash consistently with equality; comparing for equality with anything else than a timestamp or nothing is an error. The current time is the running cell and statement position shifted by the offsets in force; nested offsets add up and every way of leaving an offset block removes exactly its own shift. Later executions are stamped strictly later and nothing is stamped in the future.",
     ["inputs", "histories"], "all pairs of positions, all nestings and exits of offset blocks, all execution histories",
     "Tests use timestamps only implicitly; a component dropped from a comparison or a leaked offset shows up only for particular pairs or after an exception.",
     [D + "data_model/timestamp.py"],
     [("comparison", D + "data_model/timestamp.py:Timestamp.__eq__/__ne__ (order: tuple order)"), ("current time", D + "data_model/timestamp.py:Timestamp.current"),
      ("offset block", D + "data_model/timestamp.py:Timestamp.offset")],
     [("_cell_offset/_stmt_offset", "offsets in force", D + "data_model/timestamp.py")])

prop("C02", "Slices contain exactly the transitive, version-adjusted dependencies",
     "A slice of some executions (cells or statements, given as objects, timestamps or cell counters) contains those executions and, for each element, every recorded parent in the enabled contexts, where a parent re-executed later stands for its last version not newer than the element (an overriding statement stands for itself), and nothing else; a seeds-only request returns just the seeds. Every element appears once, in time order, and the formatted slice groups the texts of exactly these elements by cell in that order. Slicing (or showing the code of) a cell by statements yields statements, not whole cells.",
     ["histories", "inputs", "configurations"], "every dependency graph and re-execution history, every choice of seeds and enabled contexts",
     "Tests compare a few slices of short notebooks; graphs in which only one path, one old version or one context leads to a dependency are not sampled.",
     [D + "slicing/mixin.py", D + "data_model/cell.py", D + "data_model/statement.py"],
     [("closure", D + "slicing/mixin.py:SliceableMixin._make_slice_helper/make_multi_slice"), ("grouping", D + "slicing/mixin.py:make_cell_dict_from_closure/format_slice"),
      ("statement slices of a cell", D + "data_model/cell.py:Cell.compute_multi_slice_stmts/slice/code")],
     [("prev_cell/prev_stmt", "earlier version", D + "data_model")])
prop("C05", "Flow order decides which recorded dependencies count",
     "In in-order notebooks exactly the recorded parents placed strictly above a cell count as its dependencies and exactly the recorded children placed strictly below count as its dependents, each with all recorded symbols, whereas in any-order notebooks all recorded ones count; for every symbol version the provider used is the lowest-placed of those parents. When the interface reports a cell order, every reported cell is found at its reported position and the other way round, cells are enumerated by that position, and cells no longer reported are not found at any position and come after all others. Positions suspended for a while are back in force however the suspension ends.",
     ["histories", "inputs", "configurations"], "every dependency graph, cell order, reorder/insert/delete history, flow order and enabled contexts",
     "Tests use fixed short notebooks in execution order; boundary positions, reorders, deletions and early or failing exits from a suspension are not sampled.",
     [D + "data_model/cell.py", D + "slicing/mixin.py", D + "flow.py", D + "comm_manager.py"],
     [("directional edges", D + "data_model/cell.py:Cell.directional_parents/directional_children"), ("provider table", D + "data_model/cell.py:Cell.get_latest_parent_by_ts_map"),
      ("positions", D + "data_model/cell.py:Cell.set_cell_positions/from_position/override_position_index_for_current_flow_semantics")],
     [("_position_by_cell_id/_cell_id_by_position", "cell order and its inverse", D + "data_model/cell.py")],
     ["Cell.directional_parents, Cell.position, Cell.from_position"])
prop("C06", "Waiter links lead to exactly the cells to run first",
     "In every schedule, a waiting cell is linked to exactly those non-waiting cells that can be reached from it by following direct links through waiting cells (itself excluded), and a ready-making cell lists exactly the waiting cells linked to it; links of cells that are not waiting stay as they were. The direct links of a waiting cell are, in dependency-graph schedules, its dependencies permitted by the flow order that are ready or waiting, and in liveness schedules the cells overwriting a symbol it waits for, only those placed above it in in-order flow; the cell executed last is never among them.",
     ["histories", "inputs", "configurations"], "every set of waiting cells, every link graph (chains, cycles, diamonds), every schedule, flow order and last executed cell",
     "Tests only look at which cells are ready or waiting; the links behind them, especially through several waiting cells or cycles, are never compared.",
     [D + "frontend.py"],
     [("closure", D + "frontend.py:FrontendCheckerResult._compute_waiter_and_ready_maker_links"), ("direct links", D + "frontend.py:FrontendCheckerResult._compute_ready_making_cells")],
     [("waiter_links/ready_maker_links", "links in both directions", D + "frontend.py")],
     ["FrontendCheckerResult.waiter_links, .ready_maker_links, .to_json()"])
prop("C07", "Dependency schedules: waiting cells are the least closed set",
     "In dependency-graph and hybrid schedules the waiting cells are exactly the smallest set that contains the cells already found waiting and every checked cell depending (as permitted by the flow order) on a ready or waiting cell. A waiting cell is neither ready nor newly ready and loses its ready mark, while every other cell keeps its status; the liveness schedule is left alone. In every schedule newly ready cells are ready, the ready marks on the cells agree with the reported ready cells, and in in-order flow no cell at or above the last executed one becomes newly ready.",
     ["histories", "inputs", "configurations"], "every dependency graph (chains, cycles, any cell order), every set of ready and waiting cells, every schedule and flow order",
     "Tests have a handful of two- or three-cell notebooks; long chains met in an unfavourable order, cycles and mixtures of ready and waiting parents are not sampled.",
     [D + "frontend.py", D + "data_model/cell.py"],
     [("closure", D + "frontend.py:FrontendCheckerResult._compute_dag_based_waiters/_compute_is_ready"), ("ready marks", D + "data_model/cell.py:Cell.set_ready")],
     [("waiting_cells/ready_cells/new_ready_cells", "status reported per cell", D + "frontend.py")],
     ["FrontendCheckerResult.waiting_cells, .ready_cells, .new_ready_cells, Cell.is_ready"])
prop("C08", "The reported dependency graph is live, converse and faithfully sent",
     "In every computed schedule each checked cell has an entry in the reported parents and in the reported children, and the children are exactly the converse of the parents. The reported parents are recorded dependencies permitted by the flow order, namely those still providing a symbol that was not removed and is not internal, that the parent updated in its last run, and that it would update again according to its last check (when it only writes such symbols); in in-order flow a parent superseded by a lower-placed provider of all its symbols is left out. The message sent to the interface carries exactly the computed result (waiting cells including those that fail to typecheck, newly ready cells only when allowed) and is valid JSON.",
     ["histories", "inputs", "configurations"], "every dependency graph, set of writes and checks, schedule, flow order and notebook history",
     "Tests never inspect the reported graph or the serialised message beyond a few keys; the interface relies on both for every run.",
     [D + "frontend.py", D + "comm_manager.py"],
     [("graph", D + "frontend.py:FrontendCheckerResult._compute_filtered_parents"), ("message", D + "frontend.py:FrontendCheckerResult.to_json"), ("response", D + "comm_manager.py:CommManager.handle_compute_exec_schedule")],
     [("cell_parents/cell_children", "reported graph", D + "frontend.py")],
     ["FrontendCheckerResult.cell_parents, .cell_children, .to_json()"])
prop("C10", "Symbol dependencies: both ends agree, assignments replace, augments add",
     "A symbol lists another as a dependency exactly when that one lists it as a user, at all times. Updating a symbol with new dependencies leaves it depending on exactly those (never on itself) and, unless the update overwrites, on its earlier ones; an overwriting update keeps the earlier ones too when the symbol is among the new dependencies or one of these directly depends on it, and augmented assignment does not overwrite. Mutating an immutable value and importing the same module again change no dependency, no other symbol's dependencies change, and a symbol collected as garbage leaves no edge behind.",
     ["histories", "inputs"], "every symbol graph, every sequence of assignments, augmented assignments, mutations, failures and deletions, every set of new dependencies",
     "Tests check slices or staleness after short programs; they never compare both ends of every edge, and a stale edge left by one overwrite shows up only in much later cells.",
     [D + "data_model/symbol.py"],
     [("update", D + "data_model/symbol.py:Symbol.update_deps"), ("collection", D + "data_model/symbol.py:Symbol.collect_self_garbage")],
     [("parents/children", "dependency and user edges", D + "data_model/symbol.py")],
     ["Symbol.parents, Symbol.children"])
prop("C20", "deps/users and rdeps/rusers answer with exactly the right symbols",
     "For any program expression with a symbol, deps and users list exactly its direct dependencies and users that are not anonymous, and rdeps and rusers exactly the symbols reachable through one or more dependency (user) edges, passing through anonymous ones but never listing these or the symbol itself, each once. Asking changes nothing, and asking about something without a symbol is a ValueError.",
     ["histories", "inputs"], "every symbol graph including cycles, long chains, and anonymous symbols on paths",
     "Tests ask about a handful of variables in short acyclic programs.",
     [D + "api/lift.py"],
     [("queries", D + "api/lift.py:deps/users/rdeps/rusers/_traverse")],
     [], ["ipyflow.deps, users, rdeps, rusers, lift"])
prop("C09", "Staleness: everything downstream of an update waits until it is rerun",
     "When a symbol is updated (an in-place change updates every name of the object) it stops waiting, and every symbol reachable from it over user edges (going on through symbols updated in the same run, but not through the update's own new dependencies, nor from a class that was not itself updated to its instances) waits until it is updated again; only those updated in the same cell run or with warnings disabled are spared, and nothing else starts to wait. A container waits while one of its elements does, readers of an updated element or of its container wait, and updating the container or all its waiting elements clears it. In any-order flow a previously run cell, other than the one just run, waits exactly when it reads, and does not merely copy, a waiting symbol it did not write before, and is ready exactly when it does not wait but reads such a symbol updated since it ran.",
     ["histories", "inputs"], "every dependency graph (chains, diamonds, cycles), every sequence of updates, re-executions and element assignments",
     "Tests check a handful of short chains; a symbol skipped behind a cycle, behind an updated symbol or behind one of the new dependencies shows only on particular graphs.",
     [D + "data_model/utils/update_protocol.py", D + "data_model/symbol.py", D + "frontend.py"],
     [("propagation", D + "data_model/utils/update_protocol.py:UpdateProtocol"), ("reading the marks", D + "data_model/symbol.py:Symbol.is_waiting"),
      ("cell statuses", D + "frontend.py:FrontendCheckerResult._check_one_cell")],
     [("required_timestamp, fresher_ancestors, namespace_waiting_symbols", "marks", D + "data_model/symbol.py, namespace.py")],
     ["Symbol.is_waiting, FrontendCheckerResult.waiting_cells, .ready_cells"])
prop("C13", "Memoized cells are skipped only when what they read is unchanged",
     "A memoized cell is skipped only when it has an earlier run of exactly the same text, every variable that run read and did not itself set (also through elements, attributes and called functions) now holds an equal value (same types and contents throughout or, where contents cannot be compared, the same object not updated since), and the results still are what that run left. A skip leaves every variable as executing the cell would have, stamped by the skipped execution, shows the recorded output exactly when asked to, and names the run reused. Plain cells are never skipped, and a rerun that reads equal plain data and updates nothing it reads is skipped.",
     ["histories", "inputs"], "every value, every pair of values that look alike (1, True, 1.0, [1], (1,)), every history of edits between two runs of a memoized cell",
     "Tests rerun a few memoized cells with the same or an obviously different input; a stale result needs two values that compare equal too easily, an input that was not recorded, or a result changed in between.",
     [D + "data_model/cell.py", D + "data_model/symbol.py", D + "memoization/__init__.py", D + "shell/interactiveshell.py"],
     [("reuse decision", D + "data_model/cell.py:Cell.get_memoized_counter"), ("recording", D + "data_model/cell.py:Cell._maybe_memoize_params"),
      ("comparison", D + "data_model/symbol.py:Symbol.make_memoize_comparable_for_obj")],
     [("_memoized_executions", "records per text", D + "data_model/cell.py")],
     ["%%memoize cell magic, Cell.skipped_due_to_memoization_ctr"])
prop("C17", "Cell versions are found by id, counter, tag and position after any history",
     "Each execution of a cell creates one version with the next execution counter, found from then on by this counter and, until the next version, by its id; it follows the previous version of the same id, its history lists all counters of the id in order, and it takes over the tags of its predecessor. A tag finds exactly the latest versions carrying it, whether given at creation, inherited, or added or removed by %tag. Replacing a placeholder id moves every lookup of the cell (id, position, tags, reactive tags, history, earlier versions) to the new id and changes no other cell.",
     ["histories", "inputs"], "every sequence of executions (also failing ones), first-time placeholders, taggings, reorderings and renames over any number of cells",
     "Tests look up a few freshly run cells; a version left behind in one table shows only after particular sequences of tagging, renaming and re-running.",
     [D + "data_model/cell.py", D + "line_magics.py"],
     [("creation", D + "data_model/cell.py:Cell.create_and_track"), ("rename", D + "data_model/cell.py:Cell.update_id"), ("tagging", D + "line_magics.py:tag")],
     [("_current_cell_by_cell_id, _cell_by_cell_ctr, _cells_by_tag, ...", "lookup tables", D + "data_model/cell.py")],
     ["cells().from_id/at_counter/from_tag/at_position, Cell.history, Cell.prev"])
prop("C12", "Editing a list keeps each element's recorded symbol with its element",
     "After any sequence of edits of a tracked list that add, remove or replace elements by position (append, extend, +=, insert anywhere, pop, remove, clear, and deletion or assignment of one element, with positions counted from either end), every symbol recorded for a position describes the object now there and carries that position as its name, no symbol is left for a position outside of the list, and each element added by a traced append, insert, extend or assignment has a symbol that depends on the variables it was built from. Moving an element changes neither its symbol nor its dependencies, and looking up a position from either end finds the same symbol.",
     ["histories", "inputs"], "every list length, every sequence of such edits, every position from either end, also out of range for insert; whole-slice edits, sort and reverse are out of scope",
     "Tests edit short lists at the front; a symbol left at the wrong position is visible only for particular combinations of length, position and later edits.",
     [D + "data_model/namespace.py", D + "data_model/scope.py", D + "tracing/external_calls/list_handlers.py"],
     [("moving symbols", D + "data_model/namespace.py:Namespace._remap_sym, shuffle_symbols_upward_from, delete_symbol_for_name"),
      ("handlers", D + "tracing/external_calls/list_handlers.py"), ("recording", D + "data_model/scope.py:Scope._upsert_symbol_for_name_inner")],
     [("_subscript_symbol_by_name", "symbols of the elements by position", D + "data_model/namespace.py")],
     ["Namespace.lookup_symbol_by_name_this_indentation, Symbol.obj, Symbol.parents"])
# MORE


def main():
    from registry import REG

    P.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    na = dict(NA)
    checks = []
    for p in P:
        r = REG.get(p["id"])
        if r is None:
            na.setdefault(p["id"], "not claimed: no check built")
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3-vt check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3-vt check.py %s --tier thorough" % p["id"],
                       "technique": r["technique"], "level": r["level"], "level_note": r["note"]})
    m = {"version": 1, "setup_cmd": "python3-vt tools/setup_check.py",
         "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
         "notes": "See DESIGN.md. Deductive contracts are discharged from /repo's current source on every run; the runtime part replays the same specifications on the real code and is never counted as proved."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))


NA = {}
if __name__ == "__main__":
    main()
