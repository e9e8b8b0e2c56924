#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                        "observe_at": list(observe)}}


B = "pieshell/pipeline/"
PROPS = [
    p("C01", "A command executes exactly the argument vector, cwd and environment written",
      "Running a command executes the program named by its first argument with exactly the written arguments in order: positional arguments as expanded, --name=value for keyword values, --name for True, nothing for False, underscores in names becoming dashes. Every list, iterator, function or pipeline argument becomes exactly one /dev/fd/N path whose descriptor N is, in the child, the pipe to that argument and collides with no other descriptor. The process runs in the environment's directory with exactly the environment's exported variables.",
      ["inputs", "programs"], "all argument lists (any length, any mix of kinds), all environments, all redirections in effect",
      "the tests run a handful of fixed commands (echo, cat, sort) and look at their output; argument lists are unbounded and mixed",
      [B + "command.py"], [("BaseCommand._arg_list, _handle_arg_pipes(_wrapper)", B + "command.py"), ("Command._child, Command._run", B + "command.py")],
      [("_arg", "positional arguments and option dictionaries in order", B + "command.py")], ["argv, cwd and environ of the executed program"]),
    p("C02", "Argument and path expansion is literal unless asked for, and relative to cwd",
      "R(...)-wrapped and non-string arguments reach the program verbatim; any other string has %(name)s replaced from the environment's variables and a leading ~ expanded, and is a pattern only if it then contains *, ? or [. A pattern is matched against the environment's own directory, taken literally, and yields exactly the matching paths, those below that directory as ./... (except at the root), or itself if nothing matches. Paths given to cd and env[...] resolve against the environment's directory, not the interpreter's.",
      ["inputs", "configurations"], "all argument strings, all variable values, all directories and directory contents",
      "one test with two patterns in the repository directory; argument text, cwd names and variable values range over all strings",
      ["pieshell/environ.py"], [("Environment._expand_argument", "pieshell/environ.py"), ("Environment._expand_path", "pieshell/environ.py")]),
    p("C03", "Building pipelines is pure, and equivalent spellings build the same command",
      "env.git.status('-s'), env.git('status', '-s') and env._('git', 'status', '-s') denote the same argument list, in order, keyword arguments last as one option set; a command whose first word is a registered builtin is that builtin and any other is an external program. Building a larger pipeline (attribute, call, -, +, |, <, >) never changes the pipelines it is built from, nor starts anything, and never shares a mutable argument list with them.",
      ["programs", "inputs"], "all sequences of construction operations and all argument values",
      "tests build a few two or three element commands; construction sequences are unbounded and aliasing shows only on reuse",
      [B + "command.py", B + "base.py", "pieshell/environ.py", B + "builtin.py"],
      [("BaseCommand.__new__/__init__/__call__/__getattr__/__sub__/__neg__", B + "command.py"), ("Environment.__getattr__", "pieshell/environ.py"), ("BuiltinRegistry.get_by_name", B + "builtin.py")]),
    p("C04", "Redirect tables: last registration wins, all else untouched, copies are isolated",
      "A redirect table maps each descriptor to its latest registered redirection: registering, merging or extending changes exactly the named descriptors, registering nothing-as-source removes exactly that one, and every field (source, flags, mode, pipe end, ownership) is preserved. Copies and merges share nothing mutable with their operands and leave them unchanged. A PIPE redirect becomes the write end for a writer and the read end for a reader with the other end exposed and both close-on-exec, a TMP or STRING a new temporary file, and the next free descriptor is above every descriptor in use and above 2.",
      ["inputs", "histories"], "all tables (any finite set of descriptors), all redirections, all operation sequences",
      "one redirection test with a fixed table; tables and operation sequences are unbounded",
      ["pieshell/redir.py", "pieshell/utils/pipe.py"], [("Redirects.register/merge/redirect/borrow/find_free_fd/make_pipes", "pieshell/redir.py"), ("Redirect.make_pipe", "pieshell/redir.py")],
      [("redirects", "fd -> Redirect", "pieshell/redir.py")]),
    p("C05", "A child process has exactly the descriptors its redirections say",
      "After a child applies its redirection table, every listed descriptor refers to its source as it was before any of them was applied (simultaneous assignment, whatever the numbers, swaps and shared sources included), is inherited across exec, files being opened with the listed flags and mode. Every descriptor not listed (except the debug log) is closed. If any redirection cannot be applied, the program is not executed and the child exits with failure.",
      ["inputs", "fault_sequences"], "all redirection tables over any descriptor numbers and all failures of open/dup2",
      "tests use only 0, 1, 2 with distinct fresh pipes; overlapping numbers, shared sources and failing opens are never exercised",
      ["pieshell/redir.py", B + "command.py"], [("Redirects.perform, move_existing_fds, close_other_fds", "pieshell/redir.py"), ("Redirect.perform/move/open", "pieshell/redir.py"), ("Command._run child branch", B + "command.py")]),
    p("C06", "Starting a pipeline leaks no descriptors and closes none it does not own",
      "After a pipeline is started, the parent has closed exactly once every descriptor it created only to hand to a child or to redirect to, keeps open exactly the pipe ends exposed for reading or writing and the descriptors owned by its in-process functions, and has not closed or replaced any descriptor that was lent to it (marked borrowed) or inherited from the environment.",
      ["programs", "configurations"], "all pipeline shapes (commands, functions, pipes, groups, redirected parts, argument pipes) and all ownership markings",
      "tests never look at the descriptor table; leaks and double closes show only for particular shapes and later in the session",
      ["pieshell/redir.py", B + "pipe.py", B + "group.py", B + "redirect.py", B + "command.py", B + "function.py"],
      [("Redirects.close_source_fds, Redirect.close_source_fd", "pieshell/redir.py"), ("Pipe/Group/CmdRedirect/Command/Function._run", B)]),
    p("C07", "Pipes, groups and redirection operators connect exactly the ends they name",
      "a | b connects the standard output of a to the standard input of b through one new pipe, leaves a's standard input, b's standard output and all other descriptors as given to the whole, and starts every process of both in order; a + b starts both with the same descriptors; redirecting a pipeline overrides exactly the named descriptors for it. |, < and > with a path, None (/dev/null), Redirect, function, iterator or pipeline on either side mean the same as the explicit form, with the data flowing left to right; | True is the pipeline itself.",
      ["programs", "inputs"], "all pipelines built by these operators, all operand kinds on either side, all given redirections",
      "tests run fewer than ten fixed shapes; shapes nest arbitrarily and operands have many kinds",
      [B + "base.py", B + "pipe.py", B + "group.py", B + "redirect.py"], [("Pipeline._coerce/__or__/__ror__/__gt__/__lt__/__add__", B + "base.py"), ("Pipe._run, Group._run, CmdRedirect._run", B)]),
    p("C08", "Reading output yields exactly the bytes or lines produced, however they arrive",
      "Iterating over a pipeline yields exactly the lines of its output in order, each once, without the newline, a final line without newline included, decoded as UTF-8 as a whole line; reading it as bytes yields exactly the bytes produced. This holds for every division of the output into reads and every interleaving of arrival with consumption; iteration ends after end of file, when the completion check given has run.",
      ["inputs", "schedules"], "all byte streams, all chunkings into reads, all interleavings of readiness events and next-item requests",
      "tests read a few short outputs that arrive in one chunk; chunk boundaries inside lines or characters and slow producers are not sampled",
      ["pieshell/iterio.py"], [("InputHandler/LineInputHandler.handle_event, __anext__", "pieshell/iterio.py")],
      [("buffer, eof, future", "bytes read but not yet delivered; end of file seen; waiting consumer", "pieshell/iterio.py")]),
    p("C09", "A function's output is written once, in order, completely converted, errors kept",
      "Every item a function or iterator in a pipeline produces is written exactly once and in order, followed by one newline: bytes as they are, strings as UTF-8, other values as their text, None not at all. When the items end the output is closed and the stage is complete; when producing an item raises, the output is closed and the stage has failed with exactly that exception; nothing is written or closed twice afterwards, whatever write-readiness events arrive.",
      ["inputs", "schedules"], "all item sequences and types, all interleavings of write-readiness events with a pending item, all failure points",
      "tests use a few short generators; duplicate readiness events during a pending item and late failures are not exercised",
      ["pieshell/iterio.py", B + "function.py"], [("OutputHandler/LineOutputHandler.send_output, destroy", "pieshell/iterio.py"), ("Function._run convert", B + "function.py")],
      [("recursion_lock, done_future, destroyed", "an item is pending; outcome; closed", "pieshell/iterio.py")]),
    p("C10", "Waiting ends when all processes ended, wakes every waiter, reports every failure",
      "A running pipeline is running exactly while one of its processes runs; waiting for it returns only when none does, every concurrent waiter is woken, raises a failure listing exactly the failed processes if any failed, a suspension if it was suspended, and otherwise succeeds. A pipeline is listed among its environment's running pipelines from start until all its processes ended, and never afterwards; its completion work is done exactly once.",
      ["schedules", "histories"], "all numbers of processes, all orders of process completion relative to waiting, several waiters",
      "tests wait once for pipelines that end quickly; completion order and concurrent waiters are schedules",
      [B + "running.py", B + "base.py", B + "builtins.py"], [("RunningPipeline.wait/handle_finish/failed_processes/running_processes", B + "running.py"), ("Pipeline.run", B + "base.py")],
      [("finished, finish_future", "completion done; future shared by the waiters", B + "running.py")]),
    p("C11", "Every child status change reaches exactly its process, correctly decoded",
      "Each child status change is delivered to the handler of that process and to no other: normal exit with its exit status, death by signal with the signal number (with or without core dump), stop with the stop signal, and continue; any number of changes coalesced into one signal notification are all delivered, in order. A process counts as ended exactly when it exited or was killed, once, with that final status.",
      ["inputs", "schedules", "histories"], "all wait statuses, all sets of registered handlers, all batches of coalesced status changes, both signal back ends",
      "tests see exit codes 0 and 1 delivered singly; wait statuses range over 2^16 and batches over all interleavings",
      ["pieshell/signalio/__init__.py", "pieshell/signalio/manager_signalfd.py", "pieshell/signalio/manager_asyncio.py", "pieshell/signalio/signalutils.py"],
      [("get_sigchlds", "pieshell/signalio/signalutils.py"), ("SignalManager.handle_event/match_signal/register/deregister", "pieshell/signalio/manager_*.py"), ("ProcessSignalHandler.handle_event", "pieshell/signalio/__init__.py")]),
    p("C12", "Captured output is complete, per process and descriptor, and cleaned up once",
      "When a pipeline has ended, each process has, for every descriptor captured as a string, the complete final content of that capture; every string-capture file is then removed, also when several processes share it, only after all have read it. Temporary-file captures keep their file, are listed under their descriptor, and are removed exactly when asked; nothing else is removed.",
      ["histories", "inputs"], "all sets of processes and capture tables, shared or not, all file contents",
      "one test captures stderr of one process; sharing between parallel processes and undecodable bytes are not covered",
      [B + "running.py", "pieshell/redir.py"], [("RunningItem.handle_pipeline_finish(_destructive), output_files, remove_output_files", B + "running.py"), ("RunningPipeline.handle_finish", B + "running.py")]),
    p("C13", "Running never changes the pipeline value; each run is independent",
      "Running a pipeline value runs a deep copy: the value keeps its structure, arguments and redirections and can be run again with the same meaning, and no two runs share a pipeline or redirection object with each other or with the value, not even for a part used in several places. The copy has the same shape: lists, tuples and dictionaries (and kinds of them) are copied element by element in order, objects that define how they are copied are copied that way, everything else (strings, numbers, functions, iterators, environments, classes) is the same object. Building on a value (adding arguments, piping, redirecting, grouping) leaves it as it is.",
      ["programs", "histories"], "all pipeline structures and argument values, all sequences of runs",
      "tests run each pipeline once; sharing and mutation show only in reuse of arbitrary structures",
      ["pieshell/utils/copy.py", B + "base.py", B + "command.py", B + "pipe.py", B + "group.py", B + "redirect.py", B + "function.py", "pieshell/redir.py"],
      [("copy.deepcopy, copy_session", "pieshell/utils/copy.py"), ("__deepcopy__ of every pipeline class", B)]),
    p("C14", "Derived environments inherit everything not overridden and are isolated",
      "Deriving an environment (env(...), env[path]) yields one whose directory, exported variables, interactivity and default redirections equal the parent's except for those given, a relative directory being taken against the parent's; afterwards no change of variables, directory or default redirections (env | x, x | env: of the one descriptor named) of either affects the other. Changing to a missing directory raises and changes nothing; a non-interactive environment never changes the interpreter's own directory.",
      ["inputs", "histories"], "all parent environments, all combinations of overrides (empty ones included), all later changes",
      "tests derive one or two environments; the combinations and later mutations are unbounded",
      ["pieshell/environ.py"], [("Environment.__call__/__init__/_cd/_exports", "pieshell/environ.py"), ("CdBuiltin", B + "builtins.py")]),
    p("C15", "Shell variables: assignments are read back, and names resolve in one fixed order",
      "In a shell scope, assigning a name and reading it gives the assigned value: a name that is an exported variable of the current environment is assigned in, and read from, the exports, any other is local. Reading resolves local names, then exports, then the enclosing scope, then Python built-ins, then commands; the scope lists every local and exported name.",
      ["histories", "inputs"], "all names, values, exported sets and sequences of assignments and reads",
      "tests assign one variable; shadowing depends on histories of assignments and exports",
      ["pieshell/environ.py"], [("EnvScope.__setitem__/__getitem__/keys", "pieshell/environ.py")]),
    p("C16", "Sourcing a bash script imports exactly its exported variables and functions",
      "bashsource sources the files its arguments stand for (expanded like a command's arguments, whatever their names) in order in one bash, and then parses what bash prints for its variables and functions so that every exported variable gets exactly the value it had in bash, whatever it contains (also control characters, which bash prints as $'...'), an exported variable without a value becoming the empty string; every defined function is recorded with its source text as bash prints it. Nothing else is imported, whatever the bodies of the functions contain, and the environment's other variables and functions stay as they were. (Arrays are never exported by bash and are not imported; functions one of whose later lines, at the start of the line, looks like the first lines of a function as bash prints it are excluded.)",
      ["inputs"], "all sets of exported variables with arbitrary values (quotes, dollars, backslashes, newlines, control characters) and functions with arbitrary bodies",
      "one test sources a script with one simple variable; values and function bodies range over all strings",
      [B + "builtins.py"], [("parse_declares", B + "builtins.py"), ("unquote_ansic", B + "builtins.py"), ("BashSource.parse_decls", B + "builtins.py"), ("BashSource._run", B + "builtins.py")]),
    p("C17", "Iterator adapters preserve every item, order, end and exception",
      "Converting between synchronous and asynchronous iteration, and mapping or filtering items, yields exactly the (mapped, selected) items in order, each once, awaiting items that are coroutines, passes None placeholders through unmapped, ends exactly when the source ends and lets an exception of the source or function through at its position.",
      ["inputs"], "all item sequences, lengths, functions and failure points",
      "tests convert a few short lists; sequences are unbounded",
      ["pieshell/utils/asyncutils.py", "pieshell/utils/jsonutils.py"], [("asyncitertoiter, itertoasync, asyncmap", "pieshell/utils/asyncutils.py"), ("map, filter", "pieshell/utils/jsonutils.py")]),
    p("C18", "Grouping processes by name loses and duplicates none, under valid names",
      "The tree of a pipeline's processes contains every process exactly once, reachable by attribute names: each group holds exactly the processes whose key at that level has that name, a group of one is that process itself, and larger groups are divided further by more specific keys. Names never start with a digit.",
      ["inputs"], "all finite collections of processes and all key strings, including equal ones",
      "tests look at one two-process pipeline; collisions need particular names",
      ["pieshell/tree.py", B + "running.py"], [("TreeGroup.__init__/__getattr__/__dir__", "pieshell/tree.py"), ("RunningProcess._getkey, RunningFunction._getkey", B + "running.py")]),
    p("C19", "Suspend and resume signal every live process of that pipeline and nothing else",
      "Suspending a running pipeline sends SIGSTOP, and resuming it SIGCONT, to each of its processes that has not ended, once, and to no other process id: never to one that has ended, nor to functions, and a process that disappears meanwhile does not disturb the others. A terminal stop marks only the pipeline being waited for as suspended and wakes its waiter.",
      ["histories", "schedules"], "all sets of processes in all states, all orders of suspend, resume, stop notifications and process ends",
      "no test suspends a pipeline; ended and vanished processes are schedules",
      [B + "running.py", B + "builtins.py"], [("RunningPipeline.suspend/restart", B + "running.py"), ("RunningProcess.suspend/restart", B + "running.py"), ("StopSignalHandler", B + "running.py")]),
    p("C20", "A subshell runs its pipeline in a child and reports that pipeline's outcome",
      "A subshell runs the given pipeline in a child process in the environment's directory with the subshell's descriptors, waits for it, and exits with 0 exactly if it succeeded, and otherwise with a non-zero status: the exit status of its last process if that is non-zero, else 1. The child never continues the parent's program, whatever the pipeline does.",
      ["programs", "fault_sequences"], "all inner pipelines and all ways they end (success, failure of any process, exceptions)",
      "no test uses a subshell; outcomes depend on arbitrary inner pipelines",
      [B + "builtins.py"], [("SubShell._child, SubShell._handle_arg_pipes_wrapper", B + "builtins.py"), ("Command._run child branch", B + "command.py")]),
    p("C21", "Importing finds the first matching .pysh file and runs it in its own scope",
      "Importing a name loads the first NAME.pysh found along the search path in order (the last component for dotted names, the current directory for an empty entry) and nothing when there is none; the module's attributes are exactly the names its code defined, resolved like shell variables in a fresh scope with a derived environment, so that one module's assignments never reach another or the shell: reading an attribute is reading that variable in the module, assigning it is assigning the variable, and special (__x__) names the code did not define are missing. An already imported module is the same object.",
      ["configurations", "histories"], "all search paths, module names, directory contents and import histories",
      "no test imports a .pysh module",
      ["pieshell/module.py"], [("Finder.find_module", "pieshell/module.py"), ("Loader.load_module", "pieshell/module.py"), ("Module.__getattr__/__setattr__", "pieshell/module.py")]),
    p("C22", "Every pipeline eventually finishes once its processes and functions can",
      "A pipeline whose processes terminate and whose functions return always finishes: no combination of full pipes, slow consumers or unread output makes it block for ever, and interactive work never starves.",
      ["schedules"], "all pipelines, buffer sizes and schedules",
      "liveness over all schedules",
      ["pieshell/iterio.py", B + "running.py"], [("event loop driven handlers", "pieshell/iterio.py")]),
    p("C23", "A pipeline sent to another machine means the same there",
      "Pickling a pipeline, or any part of one, and unpickling it, here or in another process, gives a pipeline of the same class, structure, arguments (functions and classes go by name) and redirections, whose environments have the same directory, exports (or none of their own), interactivity, default redirections and bash functions; what only exists here is not sent: variable scope, running and last pipelines, processes. It works whatever ran or is running, leaves the original as it is, and can be repeated. remote(words..., pipeline) starts exactly one ssh with those words and a command line on which pieshell runs that pipeline once, with its output, input and failure.",
      ["programs", "histories"], "all pipelines and environments whose values pickle can send, whatever ran before",
      "no test pickles a pipeline",
      [B + "base.py", B + "builtins.py", "pieshell/shell.py", "pieshell/environ.py", "pieshell/redir.py"], [("describable_object_reduce, DescribableObject.__setstate__", B + "base.py"), ("Environment.__getstate__, R.__getattr__", "pieshell/environ.py"), ("SpecialRedirect.__getattr__", "pieshell/redir.py"), ("Remote._run", B + "builtins.py"), ("main (--pcmd)", "pieshell/shell.py")]),
    p("C24", "Showing a pipeline runs it only at the prompt; what runs, runs once",
      "Showing a pipeline (repr) runs it exactly when it is shown itself, not inside another repr, its environment is interactive and it is not what has been started; otherwise, and for pipes, groups, redirections, functions, commands with pipelines among their arguments, running pipelines, processes and their errors, nothing is run or opened and the text tells about every part (and the environment, where it is another one than around). What has been started, builtins included, is marked so, so that showing it does not run it again. Ending at the user's wish is no error, failures are raised. repr always gives a text, and the printing state is as before, whatever happens. +p, ~p, await p, run_interactive, p & None and reading p (iteration, str, bytes) run it exactly once; cd, bg, fg and clear_dir_cache do their work once. (subshell takes its pipeline as a positional argument.)",
      ["programs", "histories"], "all pipelines, environments, nestings of repr and outcomes",
      "no test shows a pipeline of an interactive environment; running twice depends on what is shown where and when",
      [B + "base.py", B + "command.py", B + "running.py", B + "builtins.py"], [("pipeline_repr, Pipeline.__repr__, Pipeline.__name__", B + "base.py"), ("_repr of pipes, groups, redirections, functions, commands", B), ("RunningPipeline.__repr__, PipelineError.__str__", B + "running.py"), ("_run of the builtins", B + "builtins.py")]),
]

TECH = "contract-based deductive verification: obligations generated from the current source by pyvc (symbolic execution, loop invariants, callee contracts), discharged by z3/cvc5; failed obligations replayed on the real code"
CLAIMED = json.load(open(os.path.join(HERE, "tools", "claimed.json")))
NA = {
    "C22": "liveness under all schedules: contracts over single functions cannot express eventual termination of the composed system (kernel pipes, external programs, event loop); the safety half is decided by C08-C11",
}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in PROPS:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x in PROPS:
        i = x["id"]
        if i in CLAIMED:
            checks.append({"property": i, "quick_cmd": "python3-vt check.py %s --tier quick" % i,
                           "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "proof",
                           "level_note": CLAIMED[i]["note"], "theorems": CLAIMED[i].get("theorems", [])})
            if not checks[-1]["theorems"]:
                del checks[-1]["theorems"]
        else:
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    m = {"version": 1,
         "setup_cmd": "python3-vt -c \"import z3, sys; sys.path.insert(0, '.'); import pyvc.engine\" && mkdir -p evidence",
         "checks": checks, "not_applicable": na,
         "notes": "pyvc reads /repo/pieshell on every run; no hooks in /repo. Repairs of genuine defects are listed in KNOWN_FINDINGS.txt."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
