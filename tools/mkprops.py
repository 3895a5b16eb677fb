#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/src/"
P = []

def p(id, title, statement, over, text, why, files, mech, tech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note,
                  observe=observe or ["bytes written through the io callbacks", "calls of user callbacks", "return values of the public API"]))

p("P01", "Any input leaves the shell inside its buffers and able to return to its prompt",
  "Whatever bytes arrive, whatever names and paths the application registered and whatever buffer sizes initialisation accepts, the shell touches no memory outside its object and the buffers, strings and data it was given, hits no assertion and executes no undefined operation. "
  "After any input it becomes idle in a number of service calls bounded by the work requested, and after an interrupt it answers with a prompt. "
  "What it prints never depends on what its buffers or the stack happened to contain before.",
  ["inputs", "histories", "configurations"],
  "every byte sequence typed, every set of commands, files and nodes, every accepted buffer size and path limit, every initial content of the memory given to the shell",
  "The unit tests stub neighbouring modules, use 256-byte buffers and short names; overruns need long names, small buffers, odd bytes or interleaved unmounts.",
  [S + "ush_read_char.c", S + "ush_parse_char.c", S + "ush_autocomp_state.c", S + "ush_node.c", S + "ush_utils.c", S + "ush.c", S + "commands/"],
  [("input cursor bounded by the input buffer size", S + "ush_read_utils.c: ush_read_save_char"),
   ("bounded formatting into the output buffer", S + "ush.c: ush_printf"),
   ("path length limit", S + "ush_node.c: ush_node_get_absolute_path")],
  "generated byte/API histories on the real library under ASan+UBSan with exact-size heap buffers, run twice with different initial memory; step bound; shrinking",
  "Random exploration of input and API histories; memory errors are those ASan and UBSan see with every buffer an exact heap block. Trusts clang's sanitizers. Setting up a request the API documents as invalid (assertions on arguments) is outside the domain.")

p("P02", "The executed line is the line a VT100 user sees after editing",
  "When the user ends a line, the command line executed is exactly the text visible on the input row of a terminal rendering the echoed bytes, after any mix of typed characters, both backspace codes, cursor-key escape sequences and interrupts that fits the input buffer. "
  "Every line end (CR or LF) ends a line of its own: it executes the line once, an empty line gives just a fresh prompt, escape sequences and backspace at the line start change nothing, and an interrupt drops the line without executing it.",
  ["inputs", "histories"],
  "every keystroke history whose line stays within the input buffer, on small and large input buffers",
  "The tests feed single characters to stubbed handlers; whether echo and buffer stay in step is a property of whole keystroke histories.",
  [S + "ush_read.c", S + "ush_read_char.c", S + "ush_read_utils.c", S + "ush_prompt.c"],
  [("character handling, backspace and escape filtering", S + "ush_read_char.c"), ("echo of input", S + "ush_read_utils.c")],
  "generated keystroke histories, echoed bytes rendered by an independent VT100 row model and compared with the arguments the command receives; shrinking",
  "Random exploration with a screen model as the oracle, on three builds of the library.")

p("P03", "A command line is split into the arguments its quoting spells",
  "Every argument vector that can be spelled with double quotes, backslash escapes and blanks arrives at the command as exactly that vector: same number of arguments, same bytes, with empty quoted arguments, escaped blanks, quotes and backslashes preserved and hexadecimal escapes left for the command to decode. "
  "An unclosed quote extends to the end of the line and a line of blanks runs nothing.",
  ["inputs"],
  "all argument vectors and all spellings; all raw lines, exhaustively over a five-character hostile alphabet up to length six",
  "The tests check a list of example lines; tokenising is a grammar with unbounded inputs.",
  [S + "ush_parse.c", S + "ush_parse_char.c", S + "ush_parse_utils.c"],
  [("in-place parser state machine", S + "ush_parse_char.c"), ("argument collection", S + "ush_parse_utils.c: ush_parse_get_args")],
  "round trip: random argument vectors spelled with random quoting, plus bounded-exhaustive raw lines, against an independent tokenizer; shrinking",
  "Random exploration plus exhaustive enumeration of all lines up to six characters over {a, x, blank, quote, backslash}.")

p("P04", "A command line invokes exactly the one callback its name denotes",
  "A completed line calls the general command hook, if configured, and then one callback at most: the executable file or command its first word names, looked up first among the registered commands (latest group first, built-ins last) and then as a path from the current directory, with the object, the descriptor and the arguments of that line. "
  "A word that names nothing, a directory or a file that is not executable calls nothing and reports the corresponding error text.",
  ["inputs", "configurations"],
  "every set of mounted files and command groups, including colliding names, every working directory and every line",
  "Tests register one or two files with distinct names; precedence shows only with collisions between groups, built-ins, the current directory and other directories.",
  [S + "ush_file.c", S + "ush_commands.c", S + "ush_process.c", S + "ush_parse.c"],
  [("file lookup order", S + "ush_file.c: ush_file_find_by_name"), ("execution and error reporting", S + "ush_parse_utils.c, ush_process.c")],
  "model-based generation: random trees and groups with colliding names, every callback recorded and compared with a reference model; shrinking",
  "Random exploration against a reference model of lookup and dispatch.")

p("P05", "Every path spelling denotes the object that ordinary path resolution gives",
  "Absolute, relative, dot, dot-dot and trailing-slash spellings given to cd, ls, cat, xxd, help, echo redirection and execution all resolve against the current directory to the same mounted object, with dot-dot at the root staying at the root. "
  "A spelling that denotes no mounted object is reported as not found and changes nothing, and one longer than the configured path limit is refused rather than resolved to something else.",
  ["inputs", "configurations"],
  "every directory tree, working directory, path limit and path spelling (without doubled slashes)",
  "Tests resolve a fixed list of paths in one fixed tree.",
  [S + "ush_node.c", S + "ush_node_utils.c", S + "ush_utils.c", S + "ush_file.c"],
  [("absolute path construction and collapsing", S + "ush_node.c, ush_utils.c: ush_utils_get_collapse_path"), ("tree walk", S + "ush_node.c: ush_node_get_by_path")],
  "model-based generation: random trees and spellings, outputs compared with an independent resolver; shrinking",
  "Random exploration against a reference resolver. Paths containing // are outside the domain (the library does not define them).")

p("P06", "The directory tree is exactly what the mount and unmount history made it",
  "After any history of mounts, refused mounts, unmounts, remounts and directory changes, the set of directories and files reachable through the shell is the one the accepted operations produced, and every operation returns the status its precondition demands (already mounted, no parent, has children, not found). "
  "A refused operation changes nothing, and unmounting the current directory leaves the shell in the parent directory.",
  ["histories"],
  "every history of tree operations over overlapping path names",
  "Tests perform a few scripted mounts; unlinking middle children, remounting and refused operations only go wrong in particular orders.",
  [S + "ush_node_mount.c", S + "ush_node.c", S + "ush_node_utils.c"],
  [("mount preconditions and child list linking", S + "ush_node_mount.c: ush_node_mount"), ("unlinking", S + "ush_node_mount.c: ush_node_unmount")],
  "stateful model-based testing: random mount/unmount/cd histories against a reference tree, observed through cd, ls and file access; shrinking",
  "Random exploration of operation histories against a reference tree.")

p("P07", "ls shows exactly the children and files of the directory it was asked for",
  "Listing a directory prints one line for each child directory and one for each file mounted there, in a fixed order, with name, the read, write, execute and help capabilities the file really has and its description, and nothing else. "
  "Listing something that is not a directory reports an error, and listing never changes the current directory or the tree.",
  ["inputs", "configurations"],
  "every directory tree, working directory and spelling of the operand",
  "Tests check the state machine for one or two nodes with stubs.",
  [S + "commands/ush_cmd_ls.c"],
  [("listing state machine", S + "commands/ush_cmd_ls.c: ush_buildin_cmd_ls_service")],
  "model-based generation: listings of random trees compared with the reference rendering; shrinking",
  "Random exploration; output compared byte for byte (names fit the output buffer).")

p("P08", "cat writes the exact bytes of its operands in order",
  "cat outputs the concatenation of the data the named files hold, byte for byte in operand order, including empty and long binary contents, asking each file for its data exactly once. "
  "If an operand is missing or not readable, the corresponding error is reported and no data is written.",
  ["inputs"],
  "every operand list over every set of files and contents",
  "Tests print one or two short strings through stubs.",
  [S + "commands/ush_cmd_cat.c", S + "ush_write.c"],
  [("operand validation and data streaming", S + "commands/ush_cmd_cat.c"), ("chunked output", S + "ush_write.c")],
  "model-based generation: random contents and operand lists, raw output compared with the stored bytes; shrinking",
  "Random exploration with byte-exact comparison.")

p("P09", "An xxd dump parsed back gives the original bytes",
  "Dumping a file prints rows of offset, hexadecimal bytes and printable characters such that reading the hexadecimal columns back gives exactly the file's bytes, with consecutive row offsets and non-printable bytes shown as dots. "
  "The last row is padded to the row width and a missing or unreadable file is reported instead of dumped.",
  ["inputs", "configurations"],
  "every content and length; all lengths from zero to three rows enumerated",
  "Tests dump one fixed array; row-boundary lengths and all byte values are not reached.",
  [S + "commands/ush_cmd_xxd.c", S + "ush_utils.c"],
  [("row state machine", S + "commands/ush_cmd_xxd.c: ush_buildin_cmd_xxd_service"), ("printable test", S + "ush_utils.c: ush_utils_is_printable")],
  "round trip: dumps of random and enumerated contents parsed back to bytes and compared; shrinking",
  "Random exploration plus enumeration of every length up to three rows.")

p("P10", "echo delivers exactly the bytes its argument spells",
  "echo decodes its text argument, including hexadecimal escapes of either letter case for every byte value, and prints it, or with a redirection passes exactly those bytes to the setter of the named file once and prints nothing. "
  "A file that is missing or not writable is reported and receives nothing.",
  ["inputs"],
  "every byte string and every mix of plain and escaped spelling, every target",
  "Tests decode a handful of strings.",
  [S + "commands/ush_cmd_echo.c", S + "ush_utils.c"],
  [("escape decoding", S + "ush_utils.c: ush_utils_decode_ascii"), ("redirection", S + "commands/ush_cmd_echo.c")],
  "round trip: random and enumerated byte strings spelled with random escapes and compared with what the setter or terminal receives; shrinking",
  "Random exploration plus enumeration of all 256 escapes. Text printed to the terminal is compared when it contains no NUL byte.")

p("P11", "TAB completes only to real names and never damages the line",
  "TAB replaces the word being typed by the longest common prefix of the names it can denote, by the whole name when there is one, and otherwise lists all of these names and redisplays the prompt with the same line. "
  "Text before the word is kept, the line never outgrows the input buffer, nothing is executed by TAB, and the line executed afterwards is the one shown.",
  ["inputs", "configurations"],
  "every set of registered names, every partial line and every input buffer size",
  "Tests walk the state machine with stubbed candidates; shared prefixes, full buffers and repeated TABs are histories over name sets.",
  [S + "ush_autocomp.c", S + "ush_autocomp_state.c", S + "ush_autocomp_utils.c", S + "ush_utils.c"],
  [("candidate counting, listing and prefix computation", S + "ush_autocomp_state.c"), ("word splitting", S + "ush_utils.c, ush_autocomp_utils.c")],
  "model-based generation: random name sets with shared prefixes and lines with TABs against a reference completer and screen model; shrinking",
  "Random exploration. A name in another directory typed with a directory part is not completed by the library and not claimed.")

p("P12", "Slow or busy input and output never change the result",
  "A session whose read and write callbacks refuse at arbitrary moments produces exactly the same output bytes, in the same order, and the same callback calls as the session with a device that is always ready. "
  "No byte is lost, duplicated or reordered, and a refused byte is offered again unchanged.",
  ["schedules", "inputs"],
  "every schedule of refusals by the read and write callbacks, over every session",
  "Tests let every read and write succeed or fail once; a lost byte needs a refusal at one particular state.",
  [S + "ush_write.c", S + "ush_write_utils.c", S + "ush_read_char.c", S + "ush_process.c"],
  [("retry of refused bytes", S + "ush_write_utils.c"), ("read polling", S + "ush_read_char.c")],
  "differential: the same generated session with an immediate device and under random refusal schedules; shrinking",
  "Random exploration of refusal schedules.")

p("P13", "Shell objects in one program do not influence each other",
  "Two or more shells with their own descriptors, commands and trees, served in any interleaving or from within one another's callbacks, each produce exactly the output and callback calls they produce when run alone. "
  "All state of a shell lives in the memory the application gave it.",
  ["schedules", "histories"],
  "every interleaving of service calls, nested ones included, of two or three shells with different contents and inputs",
  "Tests use one global object.",
  [S + "ush.c", S + "ush_commands.c", S + "commands/", S + "ush_autocomp_state.c"],
  [("all state in the shell object", "src/inc/ush_types.h: struct ush_object"), ("built-in commands linked through a node inside the object", S + "ush.c: ush_init")],
  "differential: generated shells interleaved by a random schedule versus each run alone; shrinking",
  "Random exploration of interleavings at service-call granularity and of service calls nested in callbacks of another shell.")

p("P14", "Printed text arrives complete, once and in order, followed by the prompt",
  "Text given to a print function, from a command callback or between commands, appears on the output exactly once and unaltered, whatever its content and length, followed by a line end where the function adds one and by a new prompt. "
  "Several formatted prints in a row appear concatenated exactly as the standard formatting functions give them if they fit the output buffer, and text that does not fit is cut and marked with the overflow message without writing outside the buffer.",
  ["inputs", "histories", "configurations"],
  "every text, format and arguments, every output buffer size accepted, every moment of printing",
  "Tests print short strings into a 256-byte buffer.",
  [S + "ush.c", S + "ush_write.c", S + "ush_write_utils.c"],
  [("print entry points", S + "ush.c: ush_print, ush_printf, ush_print_no_newline, ush_flush"), ("output streaming", S + "ush_write.c")],
  "generated print histories over output buffer sizes, compared with vsnprintf and with the requested texts; shrinking",
  "Random exploration. With output buffers under 24 bytes only safety of an overflowing formatted print is judged.")

p("P15", "An interrupt returns any session to a clean prompt",
  "After any keystrokes whatsoever followed by the interrupt key, the shell behaves from then on exactly like a freshly started shell with the same tree, files and current directory: same prompt, same answers, same callbacks. "
  "No half-typed escape sequence, quote, over-long line or completion leaks into later commands.",
  ["inputs", "histories"],
  "every garbage prefix followed by every later session",
  "Tests check the interrupt in one state at a time.",
  [S + "ush_read_char.c", S + "ush_reset.c", S + "ush_read.c", S + "ush_autocomp.c"],
  [("interrupt handling", S + "ush_read_char.c"), ("input state reset", S + "ush_reset.c, ush_read.c: ush_read_start")],
  "metamorphic: session after garbage and interrupt compared with the session on a fresh shell; shrinking",
  "Random exploration of garbage prefixes and sessions.")

p("P16", "help reports every command and each file's own help",
  "help without operand lists every registered command once with its description, over all command groups and built-ins, and with an operand prints the help text of the file or command that name denotes. "
  "A missing file or one without help is reported as such, and help runs no callback.",
  ["inputs", "configurations"],
  "every set of command groups and files and every operand",
  "Tests list one group with stubs.",
  [S + "commands/ush_cmd_help.c"],
  [("help state machine over the command groups", S + "commands/ush_cmd_help.c")],
  "model-based generation: help output over random groups and files compared with the reference rendering; shrinking",
  "Random exploration; output compared byte for byte (names fit the output buffer).")

p("P17", "Reset and re-initialisation give a shell indistinguishable from a new one",
  "A shell initialised on memory with any previous content, reset at any moment, initialised again in the middle of work, or deinitialised and set up again behaves exactly like a fresh shell with the same contents. "
  "Reset drops pending input, output and running commands and returns to the root directory with a new prompt; deinitialisation leaves nothing mounted.",
  ["histories", "crash_points"],
  "every session, every service call at which it is interrupted, every prior memory content",
  "Tests call init and deinit once on zeroed objects.",
  [S + "ush.c", S + "ush_reset.c", S + "ush_node.c"],
  [("initialisation and deinitialisation", S + "ush.c: ush_init, ush_deinit, ush_reset"), ("recursive node clearing", S + "ush_node.c: ush_node_deinit_recursive")],
  "metamorphic: interrupted and restarted shells compared with fresh ones at random interruption points; shrinking",
  "Random exploration of interruption points, restart kinds and sessions.")

p("P18", "Every build configuration gives the same shell, minus what was switched off",
  "Any combination of enabled built-in commands, autocompletion, styles, translated messages, alignment and dump width that builds gives a shell that behaves as the defaults do except for exactly the configured differences. "
  "A command that is switched off is unknown, an enabled one works alone and in any combination, messages are the configured texts and styles only add terminal escape sequences.",
  ["configurations", "inputs"],
  "every generated configuration, each with random sessions",
  "The tests are compiled with one configuration.",
  ["src/config/", S + "ush_commands.c", S + "commands/", S + "ush_autocomp.c", "src/inc/ush_const.h"],
  [("conditional compilation and command table", S + "ush_commands.c, src/inc/ush_preconfig.h")],
  "generated build configurations, each compiled and driven by random sessions against the reference model parameterised by the configuration; shrinking",
  "Random exploration of configurations (14 per quick run, 42 per thorough run, every built-in alone and left out) and sessions.")

p("P19", "The service loop makes progress while busy and is silent when idle",
  "Whenever the service call reports idle, there is nothing left to do: further calls change nothing and print nothing until new input arrives, and all output of completed commands has been delivered. "
  "While there is work, the shell reports busy and finishes any command in a number of calls proportional to its output and input, so it never spins or stalls.",
  ["inputs", "schedules"],
  "every session, judged at every service call",
  "Tests inspect single service calls with stubs.",
  [S + "ush.c", S + "ush_read.c", S + "ush_write.c", S + "ush_process.c"],
  [("service dispatcher and its busy result", S + "ush.c: ush_service")],
  "generated sessions with the busy/idle contract and step bound monitored at every service call; shrinking",
  "Random exploration with the contract monitored at every call.")

p("P20", "The library never allocates memory dynamically",
  "No operation of the library, including error paths, completion, listing, formatted printing, mounting and deinitialisation, calls a heap allocation function.",
  ["inputs", "histories"],
  "every session and API history",
  "The README promises it; no test looks at it.",
  [S],
  [("stack arrays and caller-provided buffers only", S + "ush_node.c, ush_utils.c, ush_process.c")],
  "generated sessions with the library's heap entry points intercepted and counted; shrinking",
  "Random exploration. Intercepts malloc, calloc, realloc, free, strdup, strndup, posix_memalign and aligned_alloc at the library's link boundary; what libc allocates inside its own functions is not the library's.")

p("P21", "Command groups are available exactly while they are registered",
  "After any history of adding and removing command groups exactly the commands of the registered groups are executable, completable and listed by help, a name registered twice resolving to the group added last. "
  "Adding or removing one group, or trying to remove one that is not registered, keeps every other group and the built-in commands intact.",
  ["histories"],
  "every history of group registrations and removals with colliding names",
  "Tests add one group.",
  [S + "ush_commands.c", S + "ush_file.c"],
  [("group list", S + "ush_commands.c: ush_commands_add, ush_commands_remove")],
  "stateful model-based testing of group histories, observed through execution, help and completion; shrinking",
  "Random exploration of group histories against the reference model.")

p("P22", "The public path and text helpers compute what their names say",
  "For every input string the public helpers (path depth, path level, parent path, last component, joining, collapsing of dot segments, prefix matching, argument lookup, printable test, escape decoding) return the mathematically defined result and write only within the result's length. "
  "Collapsing is idempotent, joining and splitting are inverse, and decoding never lengthens its text.",
  ["inputs"],
  "every input string, on exact-size buffers",
  "Tests check tables of examples.",
  [S + "ush_utils.c", S + "ush_parse_utils.c", "src/inc/ush_utils.h"],
  [("helper functions", S + "ush_utils.c")],
  "property-based testing of each helper against an independent definition on exact-size buffers under ASan; shrinking",
  "Random exploration against independent definitions. Paths with // are outside the domain.",
  ["return values and output buffers of the helper functions"])

p("P23", "A long-running command is serviced until it finishes and owns the shell",
  "A command that enters the processing state has its process callback called once per service turn with its own descriptor until it declares itself finished, and no typed input is consumed or executed meanwhile. "
  "Output it prints appears in order, after it finishes the prompt returns and the waiting input is handled completely and in order.",
  ["inputs", "schedules"],
  "every number of turns, every print pattern and every queued input",
  "Tests step one callback with stubs.",
  [S + "ush_process.c", S + "ush.c"],
  [("process state", S + "ush_process.c: ush_process_start, ush_process_service")],
  "model-based generation of long-running commands with queued input, callback calls and consumption monitored at every service call; shrinking",
  "Random exploration with the contract monitored at every call.")

p("P24", "Different shells may be serviced from different threads",
  "Shell objects with their own descriptors, nodes and callbacks can be served at the same time by different threads without any locking, because they share no memory that is ever written. "
  "No data race occurs inside the library and every shell behaves exactly as when it runs alone.",
  ["schedules", "inputs"],
  "every thread schedule of two or three shells and every session in each",
  "Tests are single threaded and use one object.",
  [S, "src/inc/ush_types.h"],
  [("all state in caller-provided objects, no writable statics", S + ", src/inc/ush_types.h: struct ush_object")],
  "generated sessions of several shells run in parallel threads under ThreadSanitizer, differential against each run alone; shrinking",
  "Random exploration; ThreadSanitizer reports races by happens-before, so a race need not be hit in time, only executed.")

p("P25", "The application's tables, texts and file contents are only ever read",
  "Descriptors, file tables, names, help texts, mount paths, printed strings and the contents returned by data getters can live in read-only memory, as they do on a microcontroller. "
  "No command, completion, listing or print writes to them, and every command gives its normal output.",
  ["inputs", "histories"],
  "every tree, table and file contents and every command history",
  "Tests keep their fixtures in writable memory.",
  [S, S + "commands/", "src/inc/ush_types.h"],
  [("const tables", "src/inc/ush_types.h: struct ush_file_descriptor, struct ush_descriptor"), ("data getters read in place", S + "commands/ush_cmd_cat.c, ush_cmd_xxd.c")],
  "generated sessions over worlds whose constant data lies in write-protected pages, compared with the reference model; shrinking",
  "Random exploration; a write faults at once.")

p("P26", "The tree and the commands may change while the shell is answering",
  "Mounting and unmounting directories and adding and removing command groups is allowed at any service call, also from inside a callback, while ls, help, cat or TAB is at work: entries present all the time appear exactly once and in order, others at most once, cat reads what each operand names at that moment and reports a vanished one as not found, and the prompt comes back. "
  "Once the shell waits for input again, objects that were taken away are never accessed and everything answers from the new tree.",
  ["inputs", "schedules", "histories"],
  "every tree, every command and every point at which the change happens",
  "Tests never change the tree between two service calls of one command.",
  [S + "ush_node_mount.c", S + "ush_commands.c", S + "commands/ush_cmd_ls.c", S + "commands/ush_cmd_help.c", S + "commands/ush_cmd_cat.c", S + "ush_autocomp_state.c"],
  [("walk over linked nodes across service calls", S + "commands/ush_cmd_ls.c, ush_cmd_help.c, " + S + "ush_autocomp_utils.c"),
   ("operands resolved again for every file", S + "commands/ush_cmd_cat.c"), ("unlinking", S + "ush_node_mount.c: ush_node_unmount, " + S + "ush_commands.c: ush_commands_remove")],
  "generated change schedules (kind and service call) inside generated commands, presence invariants over the output plus the reference model afterwards, removed node objects poisoned; shrinking",
  "Random exploration; storage of removed objects is assumed to stay valid until the shell waits for input.")
p("P27", "Any session of users and application together behaves as specified",
  "Whatever order things happen in - command lines with typing mistakes, single keys, TAB, ^C, application prints, mounting, unmounting and remounting of tables and nodes, command groups, working-directory changes, changing file contents, resets, deinit and init, refused input and output, hundreds of repetitions - every line gets the output and callbacks that the line, the tree and the contents at that moment call for, and nothing of the history beyond them matters. ",
  ["inputs", "schedules", "histories"],
  "every history of user and application actions of any length",
  "Tests check one feature in a fresh shell; state left behind by one feature and seen by another is never exercised.",
  [S + "ush.c", S + "ush_read.c", S + "ush_read_char.c", S + "ush_node_mount.c", S + "ush_commands.c", S + "ush_prompt.c", S + "ush_write.c"],
  [("state machine shared by all features", S + "ush.c: ush_service"), ("per-line reset of the editing state", S + "ush_read_utils.c: ush_read_start"),
   ("caller-owned nodes and tables", S + "ush_node_mount.c, " + S + "ush_commands.c")],
  "stateful model-based testing: generated histories over thirteen kinds of operation, outputs, callbacks, contents and working directory compared with the reference model after each; shrinking",
  "Random exploration of histories of up to 120 operations, now and then with a line repeated up to 700 times.")

ids = [x["id"] for x in P]
with open(V + "/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(dict(id=x["id"], title=x["title"], statement=x["statement"],
                                quantifier=dict(over=x["over"], text=x["text"]), why_tests_cant=x["why"],
                                anchors=dict(files=x["files"], mechanism=[dict(name=a, where=b) for a, b in x["mech"]],
                                             observe_at=x["observe"], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="python3 check.py --setup",
         checks=[dict(property=x["id"], quick_cmd="python3 check.py %s quick" % x["id"], thorough_cmd="python3 check.py %s thorough" % x["id"],
                      evidence_file="evidence/%s.json" % x["id"], technique="property-based testing: " + x["tech"], level="exploration",
                      level_note=x["note"]) for x in P],
         not_applicable=[], notes="No hooks in /repo: the library is rebuilt from its sources with its own custom configuration file.")
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    assert x["statement"].count(". ") <= 2, x["id"]
