"""Per property: how it is decided (goes into DESIGN.md)."""
NOTES = {
"C01": "spec/CmdList.tla gives the semantics of lists (`;`, newline, `&&`, `||`, `&`), pipelines and their status, the `exit` status, signals and `$?`-visible "
       "results as a function of the parsed line and the status of each probe; TLC checks gating laws on all small lists. The driver renders lines, runs them "
       "in-process, by `dsh -c` and as lines piped into dsh, and compares which probes ran, in which order, and the status of the line and the session.",
"C02": "spec/DataFlow.tla moves words through stages, redirections (`>`, `>>`, `<`, `2>`, `2>>`, `&>`, `&>>`, `2>&1`), substitutions `$( )` and `<( )` and the captures; "
       "state: content of the files. Words include 300 kB blocks (more than a pipe), invalid UTF-8 and pauses. Each session is a sequence of `dsh -c` lines in one folder; "
       "after every line the content of every file and the output are compared.",
"C03": "spec/Safety.tla decides from the words that will really be executed (after alias, variable and quote removal) which commands are dangerous, what is asked, "
       "and what runs for each answer; state: level and allowlist. The driver runs lines in a real shell under a PTY whose PATH holds only recording stand-ins and answers "
       "the questions; Lisp commands, single commands, MCP tool calls and variable settings use the same state.",
"C05": "spec/History.tla models the history table of several sessions, in memory and on disk, with background writer, context, paging cursor, search, forward/backward "
       "and deletion; the harness runs the same actions on real databases, including sessions dropped without a shutdown, and compares lists read by each session.",
"C06": "spec/Secrets.tla models a line as words, assignments, options, headers and URLs, and what of it the history may keep for each mode, keyword and pattern set; "
       "configuration rollback and session secrets are part of the state. The harness evaluates the line in a real shell, reads the entries in memory and from a newly "
       "opened database, and searches every file below the scratch home for the secret values.",
"C12": "spec/OutRing.tla is the bounded store with texts of multi-byte characters and limits on entries, bytes and entry size; spec/OutHist.tla is a session of recorded "
       "lines, smart pipes and reads by `$OUT[N]`, `$ERR[N]` and `out`. Both directions, in one session process per history.",
"C11": "spec/Env.tla has shell variables, exported names, the environment, executable files in folders and the current directory; it gives what a child sees of seven "
       "variables, what `$NAME` is and which file a name stands for. Three exhaustive graphs (variables, PATH and files, directories) are replayed completely in a live shell; "
       "a stub records environment, arguments, folder and the path it was started from. Settings go through `set`, `set -x`, `read`, `export`, Lisp `vset`, `setenv`, `add_path`.",
"C14": "spec/Words.tla defines arguments of structured words (quoted, escaped, variables, `~`, patterns matched against a modelled folder tree, alternatives, aliases); the driver "
       "renders words to shell text with random escaping and quoting, and compares the argument vectors the stub records. Values hold operators, quotes, patterns and `$( )`.",
"C04": "spec/Agent.tla has the files as a map from places to folders, texts and links, the rules of .gitignore and the three allowlists; it defines where a path leads, what each of the tools "
       "answers, and what `execute` starts. The harness runs a stand-in for the model on the loopback network whose reply asks for the calls, answers the questions through standard input, and reports "
       "the answers the model got, the files that differ, what the stubs recorded and how many questions were asked. TLC checks containment, that nothing is lost, and that without a yes nothing changes.",
"C13": "spec/Editor.tla is the line as a sequence of characters with a cursor, unfinished lines, history with the place in it and what is searched for; every key is an action, and the place of the "
       "cursor follows from the widths on rows of 9 columns. The harness delivers key events to a real Repl (feature `verif`), reads line and cursor, and parses what was drawn. "
       "A ghost completion may or may not be there, so accepting one allows every text that adds to the line the rest of a known command, name or path.",
"C15": "spec/Rename.tla has files as places (folders and a name of characters) and a pattern as characters, `*`, `?`, sets and groups; the new name of a file is computed by matching with the groups "
       "as long as possible from left to right, and all files move at once. Properties: no two files at one place, nothing lost, all or nothing. The driver gives each file its own contents, runs dsh -c 'dmv ...' "
       "and finds each file again.",
"C10": "spec/Direnv.tla keeps the variables, the settings files, what is allowed, and the applied folders with what each changed; cd takes back the folders no longer around (innermost first) and applies the new ones. "
       "Properties: what is applied lies around the current folder; with everything taken back only what the user set remains; outside nothing is applied. A real Shell runs the lines; stubs record environment, folder and place.",
"C08": "spec/Serve.tla is the disk as places with files, folders, fifos and links, a resolution of paths with links and .., and the answer to each request. Properties: nothing of a file outside is in an answer, every file inside "
       "can be had, listings are complete, asking changes nothing. The driver lays the tree, starts `dsh -c 'serve ...'`, sends targets with random escapes byte for byte, changes files in place or anew (also with an unchanged length and time), "
       "and follows the links of listings with an HTML parser.",
"C21": "spec/Hooks.tla gives the log of events (hooks called with their arguments, commands run, in which folder) for a line of commands of every kind, with failing hooks. Properties: calls lie around what runs, all hooks are called, "
       "an unknown command stops the line, a change of folder is told. The driver writes a config.lisp with lambdas, named functions and failing hooks in random order, runs the lines in one shell, and reads the log from its output.",
"C17": "spec/Config.tla holds all state a config statement can change as one record; a load runs the statements from there (servers of the file alone) and is dropped as a whole when one fails. Properties: a failed load changes nothing, a failed start is a plain shell, "
       "servers come from the file only. Generated histories of statements, loads (failing statement or bad parenthesis anywhere, missing file) and starts run on real engines, which report all of the state after each step; TLC checks every step.",
"C22": "spec/Lisp.tla is an interpreter of the language: environments are a sequence of records, Eval gives environments, success and value. Properties: scopes nest, let and parameters leave nothing behind. Random typed programs (definitions, closures, macros, "
       "bounded recursion, shadowing, faults) are written as text with random blanks and comments and run on one engine per history; values, shown texts and globals are compared with Eval. Deep loops (20000 calls) and texts that must fail are actions of their own.",
}
