"""Source of properties.jsonl (run: python3 tools/mkprops.py)"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "capture/noworkflow/now/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [C + f if not f.startswith("capture/") else f for f in files],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe), "hook_needed": hook}})


prop("T01", "Capturing provenance does not change what a script computes",
     "Running a Python script under noWorkflow gives the same results as running it with plain Python: the same final values of its variables, the same printed output, the same side effects in the same order and number, and the same exceptions. This holds whatever values the script works on and whichever of its branches, loops, exception handlers and functions they drive it through.",
     ["inputs", "programs"],
     "for every script built of the supported constructs and all input values that steer it",
     "the suite runs each construct once with constants and looks at the stored provenance, never at whether results equal those of the plain script on every branch",
     ["collection/prov_definition/transformer_stmt.py", "collection/prov_definition/transformer_expr.py", "collection/prov_definition/ast_helpers.py", "collection/prov_definition/definition.py", "collection/prov_execution/collector.py", "collection/prov_execution/execution.py"],
     [("rewriting of statements and expressions into collector calls", "collection/prov_definition/transformer_stmt.py: RewriteAST; transformer_expr.py: RewriteDependencies"),
      ("runtime wrappers that evaluate the original operation and return its value", "collection/prov_execution/collector.py: Collector")],
     observe=["globals and output of the script run under Metascript.execution.collect_provenance"])

prop("T02", "Recorded dependencies cover every influence on a value",
     "If the value recorded for an evaluation of a trial can change when a value used to compute it changes, through data or through the conditions that led to it, then following the recorded dependencies and the members of collections from that evaluation reaches the evaluation of the value it was computed from. Dependencies only connect recorded evaluations of the same trial.",
     ["inputs", "programs"],
     "for every supported script, every recorded evaluation and every pair of runs that differ in one input value",
     "tests compare dependency edges of short scripts with constants; whether an edge is missing for some value or path is a statement over pairs of runs",
     ["collection/prov_execution/collector.py", "collection/prov_execution/structures.py", "collection/prov_definition/transformer_expr.py", "collection/prov_definition/transformer_stmt.py"],
     [("dependency-aware collection and creation of dependencies", "collection/prov_execution/collector.py: make_dependencies, create_dependencies, find_name, lookup"),
      ("condition scopes", "collection/prov_execution/collector.py: add_condition/remove_condition")],
     state=[("condition stack", "evaluations of the open conditions", "structures.py: ConditionExceptions, Activation.conditions")],
     observe=["evaluation, dependency stores of a finished collection"])

prop("T03", "Recorded evaluations carry the real values, bindings and call structure",
     "Every evaluation recorded in a trial describes what really happened: its representation is that of the value the expression, variable, argument, return or collection member had at that moment, it belongs to the activation that performed it, activations are nested as the calls were, and each parameter is bound to the argument that the call passed to it. Members recorded for a list, tuple, dictionary or set are exactly its items with their keys.",
     ["inputs", "programs"],
     "for every supported script, argument passing form and values",
     "the suite checks names and types of evaluations for one constant input per construct and a few parameter binding forms",
     ["collection/prov_execution/collector.py", "collection/prov_execution/structures.py", "persistence/lightweight/evaluation.py", "persistence/lightweight/activation.py"],
     [("evaluation creation at the end of each expression", "collector.py: evaluate_depa, add_evaluation"),
      ("argument matching", "collector.py: match_arguments/argument handling, structures.py: Parameter"),
      ("members of collections", "collector.py: _list, _dict, _set, _tuple, access")],
     observe=["evaluations, activations, members of a finished collection"])

prop("T04", "File accesses record the right mode, moment, content and activation",
     "Each successful opening of a file by the script while it is being captured is recorded once, with the given name, the mode (or flags) and buffering actually requested, the activation that opened it, the moment of the opening, the hash of the content before it, and the hash of the content at the end of the function (or module, or class body) of the script that opened it. Both contents can be read back; a file that did not exist, and a directory or device, has no content. Openings, successful or not, have the result and the effects that they have in plain Python.",
     ["inputs", "histories", "programs"],
     "for every way to pass name, mode, flags and buffering, every content, and sequence of accesses and nested activations",
     "one doctest-style trial with a single read; no test opens with keyword arguments, flags, missing files or several accesses",
     ["collection/prov_execution/collector.py", "collection/prov_execution/execution.py", "persistence/models/file_access.py"],
     [("wrapper around builtin open, io.open, codecs.open and os.open", "collector.py: new_open; execution.py: configure"),
      ("content before, and after at the end of an activation", "collector.py: store_file, close_activation")],
     observe=["file access store after collection, content store"])

prop("C05", "The content store gives back exactly the bytes that were stored",
     "Whatever bytes are stored, the returned hash retrieves exactly those bytes with every storage engine, after the store is settled (closed, when the engine stores in the background) and in any later process that opens the store; equal contents get equal hashes and different contents different ones, whatever names they were stored with. Searching by a prefix of a hash (at least two characters in the plain engine; at least four that identify it in the git engines) finds a stored hash with that prefix, and listing the plain engine yields exactly the stored hashes. When a trial commits, the commit follows the previous one and its tree has the contents of exactly the files stored since then, whatever their names (repeated, refused by git, inside or outside of the project), so that git never collects them.",
     ["inputs", "histories", "configurations"],
     "for every sequence of put, get, find, commit and reopen operations over arbitrary contents, names of files, engines and orders of the background writes",
     "no test stores and reads back contents, other than through one trial with the default engine",
     ["persistence/content_database.py", "persistence/content/base.py", "persistence/content/plain_engine.py", "persistence/content/gitbase.py", "persistence/content/dulwich_engine.py", "persistence/content/pygit_engine.py", "persistence/content/parallel.py", "utils/compression.py"],
     [("put/get/find of engines", "persistence/content/plain_engine.py: PlainEngine; gitbase.py and git engines"),
      ("write queue and tree/commit creation", "persistence/content/parallel.py, gitbase.py")],
     observe=["content.put, content.get, content.find_subhash, content.listall"])

prop("C06", "Interrupted content writes never corrupt or lose stored content",
     "If storing a content is interrupted at any file system operation, or one of those operations fails, every content stored before remains readable and correct, and no hash ever yields bytes different from those it identifies. Storing the same content again afterwards succeeds and makes it readable. The same holds when another process stores contents at any moment of the write: both succeed.",
     ["crash_points", "fault_sequences", "inputs"],
     "for every crash, failure or preemption point within a write, every write split, and every later sequence of puts and gets",
     "tests never interrupt a write",
     ["persistence/content/plain_engine.py", "persistence/content/base.py", "utils/io.py"],
     [("object file creation", "persistence/content/plain_engine.py: put")],
     observe=["content.get / content.put after the interruption"])

prop("R07", "Restoring puts back exactly the recorded contents and loses nothing",
     "Restoring a trial or a single file writes, byte for byte, the content that the trial recorded for it, at its original location or the requested target inside the project. Contents that the restore overwrites or deletes remain recoverable from the store, files of other projects and files that were not selected are never touched, and a file whose recorded content is absent is reported instead of being replaced by something else.",
     ["inputs", "histories", "configurations"],
     "for every project layout, recorded access list, previous content and working directory",
     "no test runs a restore",
     ["cmd/cmd_restore.py", "persistence/models/trial.py", "persistence/models/file_access.py", "collection/metadata.py"],
     [("restore of script, modules and files", "cmd/cmd_restore.py: Restore"),
      ("backup trial before overwriting", "cmd/cmd_restore.py: create_backup"),
      ("project containment", "persistence/models/trial.py: versioned_files, file_access.py: is_internal")],
     observe=["file tree and content store after Restore.execute"])

prop("R08", "Restore and listing pick the access that the user asked for",
     "The versioned files of a trial map every project file accessed or imported to its recorded versions without mixing files or versions: initial contents are those before the first access of the trial, and later versions follow the order of accesses. Selecting a file by name, number, hash prefix or timestamp yields a version that matches the request, and a request that matches nothing is refused.",
     ["inputs", "histories"],
     "for every list of modules and file accesses with arbitrary names, paths, hashes, times and every selector",
     "no test selects among several accesses",
     ["cmd/cmd_restore.py", "persistence/models/trial.py", "persistence/models/file_access.py"],
     [("selection by id, hash, timestamp or number", "cmd/cmd_restore.py"),
      ("versioned_files, create_id/find by name", "persistence/models/trial.py")],
     observe=["Trial.versioned_files, restore of a single file"])

prop("H09", "Trial lineage: parents and heads follow the history of executions",
     "The parent of a new trial is the trial its script version derives from: the trial of the same script that was restored since its last run, or else the last run of that script, and never itself or a trial of an unrelated script. Each script has at most one head, restoring moves it to the restored trial and touches no other script, the parent chain never has a cycle, and looking a trial up by id, tag, sequence number or as the last one finds a matching trial, or nothing when none matches.",
     ["histories", "inputs"],
     "for every history of runs and restores over several scripts, with arbitrary start times",
     "doctests run two or three trials of one script in fixed order",
     ["persistence/models/trial.py", "persistence/models/head.py", "persistence/lightweight/trial.py", "collection/metadata.py", "persistence/models/relationships.py"],
     [("load parent and head update", "persistence/models/trial.py: load_parent, create_head, fast_update"),
      ("lookup by reference", "persistence/models/trial.py: load_trial")],
     observe=["Trial.parent_id, Head.load_head after each operation"])

prop("H10", "Automatic version tags are unique and grow with the kind of change",
     "Every tagged trial of an experiment gets a three-part version that no other trial has: the first part grows when the code changed, the second when only the command changed, and the third when neither did. A new version is higher than all the previous versions it is compared with in that part, regardless of the order or age of trials and of the number of digits.",
     ["histories", "inputs"],
     "for every history of tagged trials with arbitrary code, command, timestamps and versions",
     "the doctest walks a single sequence of four versions",
     ["persistence/models/tag.py", "persistence/models/trial.py", "collection/metadata.py"],
     [("search of the tag to increment", "persistence/models/tag.py: fast_load_auto_tag"),
      ("creation of the automatic tag", "persistence/models/tag.py: create_automatic_tag and callers")],
     observe=["Tag records after each creation"])

prop("X11", "Moving trials between repositories loses, changes and repeats nothing",
     "Exporting trials to a bundle, or pushing or pulling them, and importing them elsewhere yields the same records with the same field values (trials, tags, code, evaluations, activations, dependencies, members, accesses, heads of experiments, users and their groups). Importing is idempotent, never alters trials that were already there, and selects exactly the trials that the other side lacks.",
     ["inputs", "histories"],
     "for every content of the records and every pair of repositories",
     "no test serializes a bundle",
     ["utils/collab.py", "cmd/cmd_push.py", "cmd/cmd_pull.py", "cmd/cmd_export.py", "cmd/cmd_import.py", "persistence/lightweight/base.py", "vis/views.py"],
     [("bundle creation and loading", "utils/collab.py: export_bundle, import_bundle"),
      ("json of records", "persistence/lightweight/*.py: __json__, create_from_json_array")],
     observe=["tables of the destination after import"])

prop("S12", "Saving collected records stores each of them exactly once",
     "Records collected during a trial are written to the database exactly once and with their final values, regardless of how many partial saves happen and of which records are still incomplete at each of them. Nothing collected is missing after the final save, and a record that was completed between two saves is stored in its completed form.",
     ["histories", "schedules", "fault_sequences"],
     "for every interleaving of record creation, completion, removal and partial saves",
     "tests only do one final save",
     ["persistence/lightweight/base.py", "collection/metadata.py", "collection/prov_execution/execution.py", "persistence/lightweight/evaluation.py", "persistence/lightweight/activation.py"],
     [("object stores", "persistence/lightweight/base.py: ObjectStore, SharedObjectStore"),
      ("partial save", "collection/metadata.py / prov_execution/execution.py: store_provenance")],
     observe=["rows of each table after the last save"])

prop("G13", "Clustered dependency graphs keep nodes, order and reachability",
     "Grouping the evaluations of a trial into a dependency graph, with any combination of depth limit, filters, synonym policy and measures, gives an acyclic nesting in which every retained evaluation appears exactly once. An edge or path between two shown nodes exists exactly when the recorded dependencies connect the evaluations that they stand for, directly or through hidden ones, and no edge leads to a node that is not shown.",
     ["inputs", "configurations"],
     "for every evaluation/dependency structure and every configuration of the clusterizer",
     "tests compare a few scripts and configurations with expected drawings",
     ["models/dependency_graph/clusterizer.py", "models/dependency_graph/filters.py", "models/dependency_graph/synonymers.py", "models/dependency_graph/config.py", "models/dependency_graph/node_types.py", "models/dependency_graph/attributes.py"],
     [("clustering and dependency fixing", "models/dependency_graph/clusterizer.py: Clusterizer, _fix_dependencies"),
      ("filters, synonyms and depth", "filters.py, synonymers.py, clusterizer.py")],
     observe=["clusterizer main cluster, departing_arcs"])

prop("Q14", "Dependency queries return the exact closure",
     "Asking for what an evaluation derives from (or for what it influences) returns exactly the evaluations reachable over the recorded dependencies, collection members and accesses that were valid at that moment, none more and none fewer, whatever the order of records. Answers computed from preloaded data equal those computed by querying the database.",
     ["inputs"],
     "for every trial content and every queried evaluation",
     "no test runs the dependency querier",
     ["models/dependency_querier/__init__.py", "models/dependency_querier/querier.py", "models/dependency_querier/querier_options.py", "models/dependency_querier/node_context.py"],
     [("backward and forward navigation", "models/dependency_querier: DependencyQuerier.navigate"),
      ("member and checkpoint restrictions", "models/dependency_querier/querier_options.py")],
     observe=["DependencyQuerier.navigate_dependencies"])

prop("D15", "Trial differences classify every record exactly once",
     "Comparing two trials puts every module, environment attribute, file access and trial attribute into exactly one of added, removed, replaced or equal: equal records are not reported, records present on one side only are reported on that side, and a replacement pairs the two versions of the same item. Swapping the trials swaps additions and removals, and comparing a trial with itself reports nothing.",
     ["inputs"],
     "for every pair of record sets",
     "no test computes a diff",
     ["models/diff.py", "cmd/cmd_diff.py", "persistence/models/file_access.py", "persistence/models/module.py", "persistence/models/environment_attr.py"],
     [("set comparison with replacement pairing", "models/diff.py: diff_set, diff_dict")],
     observe=["Diff(...).trial, modules, environment, file_accesses"])

prop("D16", "The merged diff graph contains both trials without mixing them up",
     "The graph that compares two trials contains every node and edge of each trial's graph exactly once, marked as belonging to the first, the second or both, with each side's own counts and durations. Removing the nodes and edges of one side gives back the other side's graph.",
     ["inputs"],
     "for every pair of activation graphs",
     "no test builds a diff graph",
     ["models/graphs/diff_graph.py", "models/graphs/trial_graph.py", "models/graphs/structures.py"],
     [("node matching and edge merge", "models/graphs/diff_graph.py")],
     observe=["Diff graph JSON (nodes, edges)"])

prop("S17", "Activation graphs account for every activation exactly once",
     "Every view of the activations of a trial (tree, no match, exact match, namespace) accounts for each recorded activation exactly once: the counts and total durations of its nodes equal those of the activations they stand for, sequence edges count exactly the consecutive calls, and call and return edges connect every caller to what it called. Activations are only merged when the view says that they are equivalent.",
     ["inputs"],
     "for every forest of activations with arbitrary names, lines, durations and nesting",
     "no test builds these graphs from more than one activation",
     ["models/graphs/trial_graph.py", "models/graphs/structures.py", "persistence/models/graph_cache.py"],
     [("summarization visitors", "models/graphs/trial_graph.py; models/graphs/structures.py")],
     observe=["trial.graph.tree/no_match/exact_match/namespace_match"])

prop("P18", "Exported Prolog facts are readable and carry the recorded values",
     "Each record of a trial is exported as exactly one well-formed Prolog fact with the name and number of arguments that its declaration announces. Reading the fact back gives the recorded texts, numbers, times and nulls, whatever quotes, backslashes, commas or line breaks the texts contain (texts that are string literals appear without their quotes).",
     ["inputs"],
     "for every record of every kind and every text",
     "doctests export two records without special characters",
     ["utils/prolog.py", "models/trial_prolog.py", "persistence/models/module.py", "persistence/models/evaluation.py"],
     [("attribute formatting and escaping", "utils/prolog.py: PrologRepr, PrologNullable, PrologTimestamp"),
      ("export of all facts", "models/trial_prolog.py: export_text_facts")],
     observe=["PrologDescription.fact, TrialProlog.export_text_facts"])

prop("P19", "Provenance pattern queries return exactly the matching records",
     "A query written with the pattern language (fact tables, rules, wildcards, variables, conjunctions, disjunctions and comparisons) yields exactly the bindings for which the recorded tuples satisfy it, each derivation once, independently of the order of its records and, for fact tables, of its conjuncts. Queries leave no bindings behind: running one again, or after abandoning an iteration, gives the same answers.",
     ["inputs", "histories"],
     "for every content of the tables and every query of the bounded grammar",
     "the pattern language has no test in the suite",
     ["capture/noworkflow/patterns/machinery.py", "capture/noworkflow/patterns/rules/helpers.py", "capture/noworkflow/patterns/rules/temporal_inference_rules.py", "capture/noworkflow/patterns/rules/mode_access_rules.py", "capture/noworkflow/patterns/rules/activation_rules.py"],
     [("unification with backtracking", "patterns/machinery.py: Variable, Blank, Queryable, prolog_rule"),
      ("derived rules", "patterns/rules/*.py")],
     observe=["iteration over queries"])

prop("N20", "Notebook cleaning keeps every needed cell once and in order",
     "Merging a notebook with the history of its executed cells keeps every cell of the cleaned history exactly once and in execution order, and keeps every text cell of the original notebook exactly once and in its original order, relative to the code cells that survived.",
     ["inputs"],
     "for every notebook and every history, including repeated, edited, removed and reordered cells",
     "cleaning has no test in the suite",
     ["models/cleaning/merge.py", "models/cleaning/history.py", "cmd/cmd_clean.py"],
     [("longest common subsequence and merge", "models/cleaning/merge.py")],
     observe=["cells of the merged notebook"])

prop("H21", "The history graph orders trials and links each to its visible origin",
     "The evolution history shows each selected trial exactly once, in chronological order, and connects every trial to the nearest shown trial it derives from, following parents across hidden ones, and to nothing else. Filters by script and status select exactly the matching trials.",
     ["inputs", "histories"],
     "for every set of trials with arbitrary parents, scripts, statuses, tags and filters",
     "no test builds a history with hidden or missing parents",
     ["models/history.py", "models/graphs/history_graph.py"],
     [("edges to the nearest visible ancestor", "models/graphs/history_graph.py"),
      ("selection", "models/history.py")],
     observe=["History.graph nodes and edges"])

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fil:
        for item in P:
            assert len(item["title"]) <= 80, item["title"]
            assert item["statement"].count(". ") <= 2, item["id"]
            for name in item["anchors"]["files"]:
                assert os.path.exists(os.path.join("/repo", name)), name
            fil.write(json.dumps(item) + "\n")
    print(len(P), "properties")
