"""The properties and how each is decided: the source of properties.jsonl and MANIFEST.json (tools/gen.py)."""
TECH = "explicit TLA+ model checked by TLC; model walks replayed on the code; recorded code traces validated by TLC"
PROPS = []
NA = []
HOOKS = dict(guard="cargo feature `verif` of doge-shell: entry points that feed keys to the line editor and read its state", enable="features = [\"verif\"] on the path dependency in harness/Cargo.toml",
             source_commits=["01a896f9715027fb8febfd41bccb55085ad1b500"])


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None, note="", tech=TECH):
    PROPS.append(dict(
        entry=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                   why_tests_cant=why,
                   anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                mechanism=[dict(name=n, where=w) for n, w in mechanism],
                                observe_at=list(observe), hook_needed=hook)),
        note=note, tech=tech))


prop("C05", "Command history: every execution counted once, durable, navigable",
     "Every executed command is one entry that carries its execution count, latest time, project context and latest "
     "outcome; it moves to the newest position when it is executed again, is still there after a restart, crash or "
     "reload (other sessions' commands included), and is never lost, duplicated or miscounted. Stepping back and "
     "forward visits exactly the entries that start with the active search prefix, newest to oldest and back, "
     "skipping none; prefix lookup returns the newest match. Filtered searches (text ignoring case, outcome, "
     "minimum duration, session, directory, project, limit) return exactly the matching entries, newest first.",
     ["histories", "crash_points", "inputs"],
     "all interleavings of executions (single and batched), recorded outcomes, other sessions' writes, restarts with "
     "any load limit, background loading of older entries, reloads, navigation and searches; synchronous and "
     "background writer",
     "the tests write a handful of commands and read them back once; they never combine restart, reload, a second "
     "session, partial loading and prefix navigation in one history",
     ["dsh/src/history/command_history.rs", "dsh/src/history/entry.rs", "dsh/src/history/context.rs", "dsh/src/db.rs"],
     [("in-memory move-to-end with count, upsert into SQLite", "dsh/src/history/command_history.rs write_batch"),
      ("newest-N load, merge on reload", "dsh/src/history/command_history.rs load_recent/load_older_than/reload"),
      ("cursor and prefix navigation", "dsh/src/history/command_history.rs back/forward/search_first"),
      ("filters", "dsh/src/history/command_history.rs search_entries")],
     [("entries", "in-memory list, oldest first", "History::histories"),
      ("rows", "durable entries", "table command_history"),
      ("cursor", "navigation position", "History::current_index")],
     ["the list of entries", "results of navigation and search", "a fresh session on the same database"],
     note="Every (state, action) pair of the bounded model is replayed on the real history and SQLite file; longer "
          "random histories are accepted or rejected by TLC. Order among executions with equal timestamps is open.")


prop("C01", "Command lists: what runs, in which order, where, and the resulting status",
     "In a line of commands separated by ; && || & and line ends (a command goes on behind |, &&, || or a backslash at the end of a line), commands run left to right in the current directory that the "
     "commands before them left (a cd inside a substitution moves nobody); the command after && runs only if the last "
     "command that ran succeeded, the one after || only if it failed, a skipped command changes nothing, and every "
     "other command runs exactly once. A pipeline's status is its last command's exit status (a command killed by a "
     "signal fails), a job started with & counts as success, capturing the output with |> changes neither what runs "
     "nor the status, and the status of the line is that of the last command that ran, inside $( ) as well. "
     "If the line names a command that does not exist, none of the line's commands runs and it fails.",
     ["inputs", "histories"],
     "all command lines built from external commands with any status or fatal signal, pipelines, cd, background and "
     "captured jobs, substitutions and unknown commands; in one long-lived session, under dsh -c and for lines piped "
     "to dsh",
     "the tests evaluate single lines with two or three jobs; the combinations of gating, pipelines, background, "
     "capture and substitution in one line, and sessions of several lines, are never run",
     ["dsh/src/shell/eval.rs", "dsh/src/shell/parse.rs", "dsh/src/shell.pest", "dsh/src/process/job.rs",
      "dsh/src/process/job_wait.rs"],
     [("gating loop", "dsh/src/shell/eval.rs eval_str"), ("status of a pipeline", "dsh/src/process/job.rs last_process_state"),
      ("substitution jobs", "dsh/src/shell/eval.rs launch_subshell"), ("captured jobs", "dsh/src/shell/eval.rs execute_with_capture")],
     [("cwd", "working directory of the session", "process state"), ("last status", "status of the last command that ran", "eval_str")],
     ["log written by the commands themselves (name, directory)", "status of eval_str / dsh -c", "directory after the line"],
     note="Commands are probes that log themselves; all lines of the bounded model (up to three jobs) plus random "
          "sessions, dsh -c and piped lines. Interactive (PTY) evaluation and the exit builtin are not covered here.")


prop("C02", "Data flow: every byte goes where pipes, redirections and substitutions say",
     "In a non-interactive command line the output of each pipeline command is the next one's input whatever its size, "
     "and the last one's output and every command's error output reach the shell's own, complete and in order. A "
     "redirection (< > >> 2> 2>> &> &>>) acts on the command it is written on, quoted or glued names included; each "
     "named file is created, emptied unless appended to, and gets exactly that output, the last redirection of a stream "
     "winning, and no other file changes. $(...) becomes its output split at whitespace, (...) one argument per line, "
     "<(...) a readable file with the output, with nothing lost, added or left hanging.",
     ["inputs", "schedules"],
     "all pipelines of external commands and builtins (writers to stdout, stderr or both, filters, large and slow "
     "output, bytes that are not UTF-8) with any redirections and nested substitutions, over files left by earlier lines",
     "the tests run one pipe or one redirection at a time with a few bytes; combinations of several redirections, "
     "inner pipeline stages, output larger than a pipe, pauses within a line and nesting are never run",
     ["dsh/src/process/redirect.rs", "dsh/src/process/io.rs", "dsh/src/process/job.rs", "dsh/src/process/job_process.rs",
      "dsh/src/process/process.rs", "dsh/src/shell/parse.rs", "dsh/src/shell/eval.rs", "dsh/src/shell.pest"],
     [("pipes between stages", "dsh/src/process/io.rs create_pipe, job.rs launch_process"),
      ("redirections", "dsh/src/process/io.rs apply_output_redirects"),
      ("substitutions", "dsh/src/shell/parse.rs parse_command, eval.rs spawn_subshell"),
      ("captured output shown", "dsh/src/process/io.rs OutputMonitor")],
     [("files", "content of the files", "file system"), ("terminal", "what reaches stdout and stderr", "fds 1 and 2")],
     ["stdout and stderr of dsh -c", "content of every file of the folder after the line"],
     note="The model's lines are run by dsh -c in a folder of their own. A builtin does not wait for commands before it, "
          "so builtins are first, or last after silent commands; files written by a command that may still run are left alone.")


prop("C12", "Output history: the last outputs are kept and can be used again",
     "In a non-interactive session every pipeline ending in |> is recorded with its complete stdout, stderr and exit status, and every "
     "other foreground pipeline whose last command prints something to the shell's own stdout with that text (without "
     "terminal colours) and its status; redirected, background and silent lines are not, and reading never changes the "
     "record. $OUT[N] and $ERR[N] as an argument, a line that starts with |, out N and out --list all give exactly the "
     "N-th newest text ($OUT, $ERR, out: the newest). The record drops only its oldest entries, only when "
     "its limits on entries and bytes demand it, and cuts a text over the entry's limit at whole characters with a mark.",
     ["histories", "inputs"],
     "all sequences of recorded lines, pipelines, smart pipes and reads; all sequences of entries with texts of 1 to 4 "
     "byte characters of any length against all limits",
     "the tests push a few short ASCII entries; pipelines, statuses, several entries read back by different means in one "
     "session, and multi-byte texts at the limits are never run",
     ["dsh-types/src/output_history.rs", "dsh/src/process/job_pty.rs", "dsh/src/shell/eval.rs", "dsh-builtin/src/out.rs",
      "dsh/src/environment/variables.rs"],
     [("bounded store", "dsh-types/src/output_history.rs OutputHistory::push, OutputEntry::truncate"),
      ("recording", "dsh/src/process/job_pty.rs capture_output_and_history, dsh/src/shell/eval.rs execute_with_capture"),
      ("reading", "dsh/src/environment/variables.rs get_var, dsh-builtin/src/out.rs")],
     [("entries", "recorded outputs, newest first", "Environment::output_history")],
     ["the recorded entries", "the arguments a command receives", "what out prints"],
     note="OutRing is the store on its own with its limits; OutHist is a session. Interactive (PTY) capture is not covered.")


prop("C03", "Safety gate: nothing dangerous runs unasked",
     "At level normal, a line, or a substitution in it, with a command whose executed words are dangerous (rm or chmod -R/-r, "
     "cp -rf, forced git, uploads, secrets read, dd and the like, at any place in a pipeline, or a net tool before an "
     "interpreter) runs only after the user agreed, once per line and substitution; at strict every line does; at loose none. "
     "Refusal gives status 130 and runs nothing of what was refused; what was agreed to for always, and only exactly that text, is not asked "
     "again. The same levels and allowlist decide for commands from Lisp (blocked instead of asked), single commands, "
     "tool calls (by name and arguments, unless evidently read-only) and loader variables like LD_PRELOAD.",
     ["inputs", "histories"],
     "all lines of lists, pipelines, quotes, aliases, variables and nested substitutions, and all sequences of level "
     "changes, permissions, answers, Lisp commands, tool calls and variable settings",
     "the tests call the checker with one ready-made job; what a line really executes after expansion, the answers and "
     "their effect on later lines are never run",
     ["dsh/src/safety/mod.rs", "dsh/src/shell/eval.rs", "dsh/src/repl/confirmation.rs", "dsh/src/lisp/builtin.rs",
      "dsh/src/lisp/default_environment.rs", "dsh/src/environment/mcp.rs"],
     [("check", "dsh/src/safety/mod.rs check_jobs, check_command, check_mcp_tool, check_env_modification"),
      ("question", "dsh/src/repl/confirmation.rs, dsh/src/shell/eval.rs refused_by_safety_guard"),
      ("lisp", "dsh/src/lisp/builtin.rs command, setenv")],
     [("level", "safety level", "Environment::safety_level"), ("allow", "permitted texts", "Environment::execute_allowlist")],
     ["which commands started (stand-ins that record it)", "how many questions were asked", "status of the line"],
     note="Commands are stand-ins in a folder that is the whole PATH; a pseudo terminal answers the questions.")


prop("C06", "Secrets reach neither the history nor any file",
     "A line is sensitive when it assigns a variable whose name contains a sensitive keyword (built in or added, in any letter case) or "
     "matches an added pattern, gives --password, --passwd, --passphrase, --token, --secret, --api-key, --access-token or -p a value, has an "
     "Authorization: Bearer value or a URL parameter token, access_token, api_key, apikey, auth or password, or contains a match of an added "
     "pattern: in mode skip (the default) it is in no history entry and no file, in mode redact it is stored, with its status, with each such "
     "value or match replaced by *** whatever its quotes and everything else unchanged. Other lines, and in mode none all lines, are stored "
     "exactly as given with their status. Session secrets can be read until set anew, cleared or the shell ends and are never in a file, and a config file that "
     "fails changes none of mode, keywords, patterns and session secrets.",
     ["inputs", "histories"],
     "all lines of words, assignments, options, headers and URLs with any quoting, and all sequences of mode changes, added "
     "keywords and patterns, session secrets, failing and succeeding config files, and restarts",
     "the tests give the filter a few ready-made texts; whole sessions, what the database file holds, quoted values, "
     "several secrets in one line, added patterns and rollback are never run",
     ["dsh/src/secrets.rs", "dsh/src/shell/eval.rs", "dsh/src/shell/mod.rs", "dsh/src/lisp/builtin.rs", "dsh/src/lisp/mod.rs"],
     [("detection and redaction", "dsh/src/secrets.rs is_sensitive_command, redact_command, process_for_history"),
      ("recording", "dsh/src/shell/eval.rs eval_str, dsh/src/shell/mod.rs record_history_outcome"),
      ("rollback", "dsh/src/lisp/mod.rs run_config_lisp, dsh/src/secrets.rs snapshot, restore")],
     [("mode", "history mode", "SecretManager::history_mode"), ("kws, pats", "added keywords and patterns", "SecretManager"),
      ("ses", "session secrets", "SecretManager::session_secrets")],
     ["history entries in memory and in a newly opened database", "status stored", "content of every file of the home folder", "values Lisp reads"],
     note="Patterns are literal texts, anchored or not. Quotes and backslashes of a redacted value are not compared.")


prop("C14", "Words of a line become exactly the arguments the command gets",
     "Each word of a line is one argument: text in single quotes and escaped characters are taken literally, $NAME outside single quotes is the value of "
     "the shell variable, else of the environment variable, else stays as written, an unquoted ~ that begins a word is the home folder, adjacent quoted "
     "and unquoted parts are joined, an empty quoted word is an empty argument, and no value is ever split, matched or interpreted again. An unquoted word with "
     "* ? or [ ] becomes the sorted paths that match it (a ./ stays in front), or stays as it is when none does, and {a,b} makes one word for each "
     "alternative, in order. An alias named by an unquoted first word is replaced by the words of its value, expanded in the same way; "
     "a quoted name is no alias.",
     ["inputs", "histories"],
     "all lines made of words with any parts and characters, patterns and alternatives, for any values of variables and aliases and any files, in one session "
     "in which these change",
     "the tests expand a few single words; values with blanks, quotes, operators or patterns, words of several parts and aliases "
     "with patterns are hardly combined",
     ["dsh/src/parser/expansion.rs", "dsh/src/parser/ast.rs", "dsh/src/shell/parse.rs", "dsh/src/shell.pest", "dsh/src/environment/variables.rs"],
     [("expansion of a line", "dsh/src/parser/expansion.rs expand_alias, expand_braces"), ("words", "dsh/src/parser/ast.rs get_string, dsh/src/shell/parse.rs parse_argv")],
     [("loc, sys", "shell and environment variables", "Environment::variables, system_env_vars"), ("al", "aliases", "Environment::alias"), ("fs", "files", "folders")],
     ["the argument vectors the commands were started with"],
     note="Patterns are words of their own, without ** and names that begin with a dot.")


prop("C11", "Variables reach children exactly when exported, and PATH decides what runs",
     "A command started from the shell sees each environment variable with the value given last by set -x or setenv, or by export or any later change of an exported "
     "shell variable, and no shell variable that is not exported; exporting a name alone does not remove or change the variable, and TERM is xterm-256color "
     "when unset or empty. A command name without / runs the first executable file of that name in the folders of PATH as children see it at that moment "
     "(files added or removed, PATH set, exported or extended by add_path included; add_path puts the folder first), a name with / the file at that place. "
     "cd sets PWD and OLDPWD, cd - returns to OLDPWD, and a cd that fails changes nothing.",
     ["histories"],
     "all sequences of set, set -x, setenv, vset, read, export, add_path, cd, files appearing and disappearing, and commands",
     "the tests look at single settings; the precedence of exports, environment and shell variables over a session, and the lookup "
     "cache while files and PATH change, are not run",
     ["dsh/src/environment/variables.rs", "dsh/src/environment/paths.rs", "dsh/src/process/process.rs", "dsh/src/proxy/mod.rs", "dsh/src/lisp/builtin.rs",
      "dsh-builtin/src/export.rs", "dsh-builtin/src/set.rs", "dsh-builtin/src/add_path.rs", "dsh-builtin/src/cd.rs"],
     [("environment of a child", "dsh/src/process/process.rs prepare_execution"), ("lookup", "dsh/src/environment/paths.rs lookup, reload_path")],
     [("loc, exp, sys", "variables, exported names, environment", "Environment"), ("files", "executables", "folders of PATH"), ("cwd", "current directory", "process")],
     ["environment, arguments, folder and executable path a started stub records"],
     note="A stub records how it was started. Every (state, action) pair of the bounded models is replayed.")


prop("C04", "AI tools reach, change and start only what they may, and ask first",
     "In an AI chat the file tools (edit, read_file, ls, search) work only on what lies, after links and .. are followed, in the current folder or the skills folder, and on "
     "nothing the current folder's .gitignore excludes; a file is created or changed only by edit, after the user's yes to that call, to exactly the given contents, and a refused or "
     "declined call changes nothing, not even folders. execute starts, once and without a shell, exactly the words given, and only when the program's name or the whole command is in "
     "the allowlist (AI_CHAT_EXECUTE_ALLOWLIST, else chat-execute-add and openai-execute-tool.json) or the program lies in the skills folder and the user said yes; "
     "operators, substitutions and -c or -e texts for interpreters are refused. An MCP tool is called only after a yes. Each call of the model gets one answer, in order, "
     "cut to 4096 bytes between characters.",
     ["inputs", "histories"],
     "all sequences of tool calls of a model with any paths, links, .gitignore rules, programs, arguments, allowlists and answers of the user",
     "the tests call single tools on fresh folders with a stand-in for the user; links, ignored parents, allowlist sources, several calls in one reply and answers are not combined",
     ["dsh-builtin/src/chatgpt.rs", "dsh-builtin/src/chatgpt/tool/mod.rs", "dsh-builtin/src/chatgpt/tool/edit.rs", "dsh-builtin/src/chatgpt/tool/read.rs",
      "dsh-builtin/src/chatgpt/tool/ls.rs", "dsh-builtin/src/chatgpt/tool/search.rs", "dsh-builtin/src/chatgpt/tool/execute.rs", "dsh-builtin/src/chatgpt/tool/gitignore.rs"],
     [("where a path leads", "dsh-builtin/src/chatgpt/tool/mod.rs resolve_tool_path"), ("what may start", "dsh-builtin/src/chatgpt/tool/execute.rs run"),
      ("calls and answers", "dsh-builtin/src/chatgpt.rs execute_chat_message")],
     [("fs", "files, folders, links", "the file system"), ("rules", "ignored names", ".gitignore"), ("allow, env, file", "allowlists", "ShellProxy, environment, configuration file")],
     ["the requests a stand-in model gets, the files afterwards, what stubs record, the questions answered"],
     note="The model is a stand-in on the loopback network. .gitignore lines are plain names, folders, endings, rooted names and exceptions.")


prop("C13", "The line editor: what is typed is what is shown and what runs",
     "The line is a text and a cursor: each key changes exactly what it names, whatever characters are in it (typing and pasting insert at the cursor, Backspace, Ctrl-W, Ctrl-K and Ctrl-U "
     "delete, arrows and words move), the drawn text is the line and the cursor is drawn behind the display width of the text before it. Enter runs exactly the "
     "line shown, all lines of an unfinished one (open quote or bracket, \\, | or && at its end) joined, with an abbreviation before the cursor replaced; Ctrl-C drops all of it. Up and Down walk "
     "through the commands of the history that begin with what was typed, newest first, and Down past the newest brings what was typed back. Accepting a ghost "
     "completion only adds to what was typed.",
     ["inputs", "histories"],
     "all sequences of keys and pasted texts with characters of any width, any history, abbreviations, commands and files, with brackets typed in pairs or not",
     "the tests call single functions of the editor; sequences of keys over characters of several bytes, unfinished lines, history search and completions together are not run",
     ["dsh/src/input/editor.rs", "dsh/src/repl/handler.rs", "dsh/src/repl/key_action.rs", "dsh/src/repl/key_handlers/editing.rs", "dsh/src/repl/key_handlers/navigation.rs",
      "dsh/src/repl/key_handlers/execution.rs", "dsh/src/repl/render.rs", "dsh/src/repl/input_analysis.rs", "dsh/src/parser/check.rs"],
     [("keys", "dsh/src/repl/handler.rs handle_key_event"), ("text and cursor", "dsh/src/input/editor.rs Input"), ("drawing", "dsh/src/repl/render.rs print_input")],
     [("line, cur", "text and cursor", "Input"), ("pend", "unfinished lines", "Repl::multiline_buffer"), ("hist, idx, word", "history and place in it", "History")],
     ["the text and cursor, what is drawn, the commands run, the newest history entry"],
     hook="cargo feature verif", note="Keys are delivered as terminal events to the editor of a real session; the terminal has 9 columns.")


prop("C15", "dmv renames many files at once and loses none",
     "dmv gives every file its pattern matches (in the folder, with **/ in all folders below) exactly the name the replacement says: $0 is the name, $1, $2, ... what the "
     "groups matched, and text put in is not read as pattern or replacement again. All renames count as done at once, so names can be exchanged and shifted. When two "
     "files would get one name or a folder or, without -f, a file not renamed itself is in the way, dmv fails and changes nothing at all; -f only overwrites files that are not "
     "renamed themselves. -n changes nothing and lists exactly what would be done.",
     ["inputs", "histories"],
     "all sets of files and all sequences of dmv with any pattern, replacement and options",
     "the tests rename one or two files with simple patterns; exchanges, cycles, clashes over folders, links, characters of several bytes and -f are not combined",
     ["dsh-builtin/src/dmv.rs"],
     [("pattern and names", "dsh-builtin/src/dmv.rs pattern_to_regex, find_matching_files, generate_new_name"), ("conflicts and order", "dsh-builtin/src/dmv.rs command")],
     [("at", "place of each file", "the file system"), ("nd", "number of folders", "the file system")],
     ["the place of every file after each command (by its contents), the folders, status, the list -n prints"],
     note="Files are told apart by their contents. Patterns hold a small letter, so that they match no folder.")


prop("C10", "Settings of a folder hold inside that folder only",
     "After each cd the environment of commands and the PATH used to find them are what the user set, changed by the .env (or, without one, .envrc) of every folder around the current "
     "one that was allowed with allow-direnv, outer folders first, each as it was when it was entered, and by nothing else: folders that are not allowed have no effect, and leaving a folder brings "
     "back what was there when it was entered. Keys are taken in upper case, values as text without expansion (.envrc: without one pair of quotes around it), PATH_add puts a folder, "
     "taken from the settings' folder, in front of PATH, and lines that set nothing are passed over.",
     ["histories"],
     "all sequences of cd, allow-direnv, set -x, setenv, export and changes of settings files over nested folders",
     "the tests read one .envrc with two lines; entering, leaving, nesting, changed files, variables set before and inside, and PATH are not run",
     ["dsh/src/direnv.rs", "dsh/src/shell/hooks.rs", "dsh/src/environment/variables.rs", "dsh/src/lisp/builtin.rs"],
     [("which settings are applied", "dsh/src/direnv.rs check_path"), ("applying and taking back", "dsh/src/direnv.rs set_env, remove_env"), ("lines", "dsh/src/direnv.rs read_env_config_file, read_envrc_config_file")],
     [("vars", "environment", "Environment::system_env_vars, exported variables"), ("allow, loaded", "allowed and applied folders", "Environment::direnv_roots"),
      ("files", "settings", ".env, .envrc"), ("cwd", "current folder", "process")],
     ["environment and folder a started stub records, the stub PATH leads to"],
     note="Folders are named without symbolic links.")


prop("C08", "serve hands out the folder, all of it and nothing else",
     "While serve runs, each file at or below the served folder is answered under its path (any characters, percent-encoded or not) with its current bytes and the type of its name, and a folder with its "
     "index.html when that is a file inside the served folder and --no-index was not given, otherwise with a listing of its entries, each once, folders first and by name, the names shown as they are and the links leading "
     "to them. Nothing whose real place lies outside the served folder is ever handed out, whatever .., escapes or symbolic links a path uses. Only GET and HEAD are answered, and nothing on the disk changes. "
     "With --cors, and only then, every file and listing allows any origin; serve listens on 127.0.0.1 only, says so and fails with status 1 when the port is in use, and ends with status 0 on SIGINT or SIGTERM.",
     ["inputs", "histories"],
     "all trees of files, folders and links with names of any characters, and all sequences of requests and changes of the files, with every combination of the options",
     "the tests call the handlers with one or two plain names; escapes, names of any characters, links, files that change, and the running server are not tried",
     ["dsh-builtin/src/serve/mod.rs", "dsh-builtin/src/serve/handlers.rs"],
     [("where a path leads", "dsh-builtin/src/serve/handlers.rs handle_path_request, handle_root_request"), ("files and listings", "dsh-builtin/src/serve/handlers.rs serve_file, serve_directory_listing"),
      ("port, stop", "dsh-builtin/src/serve/mod.rs run_server")],
     [("w", "files, folders and links", "the file system"), ("cfg", "options", "ServeOptions")],
     ["status, headers and body of each answer, parsed links of a listing, state of the disk, exit status of the server"],
     note="Requests go byte for byte to `dsh -c 'serve ...'` on the loopback network.")


prop("C21", "Hooks are called for exactly what happens",
     "Every pre-exec hook is called with the text of a command before it runs, and every post-exec hook with the text and the exit status after it ended (in the foreground; plain, captured, piped or with Lisp stages), "
     "once each, and neither for a command that && or || passes over; a command that cannot be started has no post-exec call. Every on-chdir hook is called once for each change of folder (cd, a folder alone, "
     "pm work), then every project hook with the name if the folder lies in another project than before, the innermost one. For a line with an unknown command the command-not-found hooks are called with the first unknown name and nothing of the line "
     "runs. A hook is a function or the name of one, receives any text unchanged, and one that fails neither keeps the others from being called nor changes what the line does.",
     ["inputs", "histories"],
     "all sets of hooks, failing ones included, and all lines of commands of every kind, with any text and status, over folders in and between projects",
     "the tests call the hook lists by hand with one hook; failing hooks, hooks by name, texts with quotes, captures, lists, nested projects are not run in a shell",
     ["dsh/src/shell/hooks.rs", "dsh/src/shell/eval.rs", "dsh/src/shell/parse.rs", "dsh/src/lisp/mod.rs", "dsh-builtin/src/project.rs"],
     [("calls around commands", "dsh/src/shell/eval.rs eval_str"), ("calling all", "dsh/src/lisp/mod.rs LispEngine::run_hooks"), ("folders and projects", "dsh/src/shell/hooks.rs exec_chpwd_hooks, dsh-builtin/src/project.rs find_project_by_path")],
     [("hk", "hooks of each kind", "the Lisp lists *pre-exec-hooks* ..."), ("cwd", "current folder", "process")],
     ["what hooks print with their arguments, in order with the output of the commands"],
     note="Hooks of one kind may be called in any order. The text of a command is what is left after variables and aliases.")

prop("C17", "A configuration file loads entirely or not at all",
     "Loading config.lisp, at the start or with Reload Config, does what its statements say in order, on top of what the session has, except that the MCP servers are those of the file alone. If any statement of it fails, or it has a "
     "parenthesis too few or too many, or is missing, the load reports an error and everything is as before: aliases, abbreviations, shell variables, environment variables, Lisp definitions, palette actions, hooks, folders of PATH, allowed commands, "
     "MCP servers, preferences, safety level, completions, folders with settings, folders z leaves out. Shells work on with what they had, and later statements and files take effect as ever.",
     ["inputs", "histories"],
     "all sequences of statements typed in the session, config files of all these kinds of statement, reloads and starts, with the failing statement anywhere in the file",
     "the tests load a few files with one failing statement at the end and look at single fields; no test looks at all state after a history of loads, and unbalanced files are not loaded",
     ["dsh/src/lisp/mod.rs", "dsh/src/lisp/builtin.rs", "dsh/src/lisp/parser.rs", "dsh/src/lisp/stdlib/mcp.rs", "dsh/src/environment/mcp.rs", "dsh/src/command_palette/mod.rs"],
     [("the load", "dsh/src/lisp/mod.rs LispEngine::run_config_lisp"), ("the way back", "dsh/src/lisp/mod.rs EnvironmentSnapshot, restore_environment_snapshot, restore_process_env"), ("definitions", "dsh/src/lisp/model.rs Env::snapshot_entries, restore_entries"), ("actions", "dsh/src/command_palette/mod.rs ActionRegistry snapshot_actions, restore_actions")],
     [("c", "all a statement can change", "Environment, Env entries, REGISTRY, process environment")],
     ["all of this state after every step, and whether the load reported an error"],
     note="Contents of hash tables, variables captured by functions, and effects outside the shell (files, commands run by the file) are not taken back, and not looked at.")

prop("C22", "Lisp expressions have their defined value",
     "Evaluating a Lisp expression gives its value by the rules of the language or an error, never a crash: names are looked up where the text stands (let, parameters and ... shadow, closures keep and change what they captured, set changes the nearest definition), "
     "arguments are evaluated once from left to right, if, cond, when, and, or evaluate only what they choose, a quoted list holds what comma puts in, a macro's result is evaluated where it is used, calls at the end of a function need no stack, "
     "and arithmetic, comparisons, list functions, map, filter, apply and eval do what they say. An expression that fails keeps what it changed before, and the shell goes on.",
     ["inputs", "histories"],
     "all sequences of expressions built of all special forms and standard functions on whole numbers, texts, symbols, lists, functions and macros, nested in any way, over one session",
     "the tests evaluate some forms one by one; nestings (a macro whose body ends in a call, comma inside a function, eval or bound? at the end of a function), comparison and sort, errors in the middle, and shadowing across closures are not reached by samples",
     ["dsh/src/lisp/interpreter.rs", "dsh/src/lisp/default_environment.rs", "dsh/src/lisp/stdlib/math.rs", "dsh/src/lisp/stdlib/list.rs", "dsh/src/lisp/stdlib/core.rs", "dsh/src/lisp/model/value.rs", "dsh/src/lisp/model/env.rs",
      "dsh/src/lisp/model/list.rs", "dsh/src/lisp/model/lambda.rs", "dsh/src/lisp/parser.rs"],
     [("evaluation", "dsh/src/lisp/interpreter.rs eval_inner"), ("calls and tail calls", "dsh/src/lisp/interpreter.rs call_function_or_macro"), ("scopes", "dsh/src/lisp/model/env.rs Env"), ("native functions", "dsh/src/lisp/stdlib, default_environment.rs default_env"), ("text", "dsh/src/lisp/parser.rs parse")],
     [("h", "all environments with what they define", "Rc<RefCell<Env>>")],
     ["value or error of every expression, its text, and the globals after it"],
     note="Not covered: floats, hash tables and tables, order between values of different kinds, equality of native functions, calls nested so deep that the stack ends.")
