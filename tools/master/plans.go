package main

// plan is what one check explores.
type plan struct {
	quick, thorough int
	rule            string
	real, stub      []string
	assume          []string
}

var cliReal = []string{"the whole cddlc command (cmd/cddlc, commands, config, lexer, parser, environment, ast, transforms/codegen, token) compiled from /repo", "urfave/cli, yaml.v2, encoding/json, go/format, os, io, bufio, log of the real build"}
var cliStub = []string{"Linux system calls: files, directories, descriptors, console (simulated kernel and disk)", "clock, process id, random state, process exit and power supply"}
var libReal = []string{"lexer, parser, environment, ast, astutils, transforms/codegen compiled from /repo", "go/format and the standard library of the real build"}
var libStub = []string{"the goroutine scheduler: one simulated thread runs at a time and a switch may happen before every statement of the repository", "the sync package in repository sources (cooperative locks)", "random state of maps"}
var assume = []string{
	"the simulated kernel follows POSIX for the calls the program makes; any call it does not know ends the check with an error",
	"after a power loss an ordered prefix of directory operations and any subset state (none, torn prefix, zero-filled or all) of each file's unsynced writes survives",
	"sampling: a clean batch is evidence, not proof",
}

var allReal = append(append([]string{}, libReal...), cliReal...)
var allStub = append(append([]string{}, cliStub...), libStub...)

var plans = map[string]plan{
	"C01": {200000, 2000000, "a random project (configuration file or none, 1-3 builds, 1-5 sources, some of them linked or with odd names, sometimes two for one output, earlier outputs, distractors) and one generate run with up to 3 planted faults (errors, short, torn and interrupted transfers, full disk, descriptor limit, console failures) and optional noise; oracle: exit status against completeness of every output, complete code being what a fault-free run of each source on its own gives, itself checked against the generator's knowledge of the source; non-trivial when a fault or noise event fired; shapes are distinct by exit status and by kind, system call class and position of the fired faults", cliReal, cliStub, assume},
	"C02": {200000, 2000000, "a random project with earlier outputs and sources that do or do not parse, 1-3 generate processes (interleaved at system calls), planted errors, kills before, in and after a call, power loss with partial loss of unsynced writes; oracle: every output path is compared after every mutating system call, after every kill and after recovery from power loss with its previous and its complete new content; non-trivial when a fault, kill, power loss or preemption happened; shapes as in C01 plus the number of processes", cliReal, cliStub, assume},
	"C03": {200000, 2000000, "a random project with distractor files, hand-written neighbours and files outside, 1-2 generate processes, planted errors and kills; oracle: all files but the configured outputs are compared after every mutating system call and at the end, and new files at the end are judged by whether a kill or a refused clean-up excuses them; shapes as in C01", cliReal, cliStub, assume},
	"C04": {100000, 1000000, "a history of 1-5 phases, each an optional edit of sources or configuration and 1-2 generate runs with errors, kills or power loss, followed by one fault-free run; oracle: the last run succeeds and every configured output is what a fresh checkout gets; every run ends within 30 million + 600 per byte of its files statements and system calls; shapes as in C01 over all phases", cliReal, cliStub, assume},
	"C05": {160000, 1600000, "a random project built 2-4 times under independently varied clock, process id, random and map seeds, directory listing order, transfer splitting and interruption, earlier outputs, other sources in the same run, file modes and times, environment, umask and failing console; oracle: byte equality of every output; shapes: the set of things varied and the exit status", cliReal, cliStub, assume},
	"C06": {360000, 2400000, "a random project with 0-2 configuration files that are intact, cut off, garbage, unreadable, a directory, a symbolic link or a link loop, distractor files named cddlc.*, faults biased to the first system calls; oracle: the files written are exactly outputs of the listed builds, an unusable configuration makes the run fail before any write; shapes: configuration state, fired faults and exit status", cliReal, cliStub, assume},
	"C07": {600000, 4000000, "1-4 init processes interleaved at system calls in a directory whose cddlc.json is missing, a file, empty, a directory, a link (dangling or not) or unreadable, with errors, kills and short writes, sometimes other writers; oracle: the existing entry is unchanged after every mutating call, at most one success (exactly one without faults), the default configuration exactly once; shapes: prior state, number of processes, exit statuses, fired faults", cliReal, cliStub, assume},
	"C08": {300000, 3000000, "one init with errors, kills or power loss at any system call, then a retry and generate on what it left; oracle: success means the complete default configuration and a generate run equal to one without configuration; failure leaves nothing and the retry succeeds; a prefix left by a kill is refused by generate before any write; shapes: fired faults, kind of rest left, exit statuses", cliReal, cliStub, assume},
	"C09": {240000, 2400000, "a generated source damaged 1-3 times as storage does (cut, flipped, overwritten, lost, repeated, zeroed, spliced), files of arbitrary bytes and long repetitions; lexer, parser and the lex, parse and generate commands on it; oracle: no panic, end of file within length+2 tokens, at most 20000+600 statements per byte, at most 64 MB + 24 KB per byte allocated and 100 kB + 2 kB per byte of diagnostics printed (up to 1 MB sources in the thorough tier); shapes: distinct damaged source texts", allReal, allStub, assume},
	"C10": {800000, 8000000, "a generated source (comments and text literals with characters of all encoded lengths) and 1-2 storage damages, among them recodings, exchanged blocks and blocks of up to 3000 bytes overwritten inside one token; an independent scanner decides whether the result has an unclosed or mismatched bracket or quotation or invalid UTF-8; oracle: a diagnostic exists and lies inside the source, generate fails and leaves the output as it was; the intact source has no diagnostic; shapes: damage kinds, structural defect and length", allReal, allStub, assume},
	"C11": {800000, 8000000, "a generated source with known tokens (kind, literal, offset, line, column) and 1-2 storage damages; oracle: the tokens ending before the damage are the true ones, rules followed by the intact head of another rule before the damage keep their trees, no diagnostic lies before them; shapes: distinct damaged source texts", libReal, libStub, assume},
	"C12": {240000, 2400000, "2-4 callers, each lexing, parsing, walking, formatting and generating from its own source, as threads preempted before arbitrary statements of the repository, after optional earlier work, with twins (same shape, other contents), several jobs per caller and sparse or dense switching; two unordered accesses to one map of the repository end the run as they do in Go; oracle: each result equals that of a fresh process; shapes: number and kind of callers, logarithms of source sizes and of the number of switches, switching density", libReal, libStub, assume},
	"C13": {300000, 3000000, "sources placed in one buffer (adjacent, overlapping, with spare capacity), lexed and parsed while the buffer is overwritten after creation, between scans, by another thread during parsing and afterwards, by callers working on neighbouring parts at the same time under a watching thread; oracle: buffer bytes unchanged by lexing, results equal to those from a private copy; shapes: placement, overwrite kind and moment", libReal, libStub, assume},
	"C14": {400000, 4000000, "1-2 concurrent sessions of up to 33 inputs (valid, conflicting, dangling, ending in a broken rule, damaged, of up to 140 rules) parsed with one environment each, threads preempted at statements; oracle: a reference model of first-declaration-wins bindings and of the expected diagnostics by offset; shapes: kinds and sizes of the inputs", libReal, libStub, assume},
	"C15": {120000, 2000000, "a session script of rules, broken rules, damaged lines, garbage, commands and commands within a line, lines of up to 4 MB, ended by :exit, end of input, an input error or a partial line; the same bytes delivered in three different splittings with interruptions; oracle: equal output, one prompt per line, the diagnostics and trees a model session gives for each line, exit status by ending; shapes: splitting style, number of pieces, ending", cliReal, cliStub, assume},
	"C16": {600000, 6000000, "1-3 generators and 2-9 flushes to writers that fail at a chosen byte or write with one of 15 errors, with other generators used in between; oracle: error exactly when the writer failed, accepted bytes a prefix of, and success exactly, the complete output, which is the same at every flush; shapes: sequence of generators, fault positions and outcomes", libReal, libStub, assume},
	"C17": {450000, 3000000, "lex and parse on valid, damaged, missing or wrong arguments, with failing, short and interrupted reads and writes, console failing after any byte, sources over 64 KB and files whose size is not reported; oracle: status 0 only with the complete listing of a fault-free run, which is itself compared with the true tokens and rules; no file modified; shapes: fired faults and exit status", cliReal, cliStub, assume},
	"C18": {200000, 2000000, "a generate run interleaved at system calls with an editor that atomically replaces, breaks or removes sources up to 6 times; oracle: every output written is the complete code of one version that existed during the run; a source that vanished before it was read makes the run fail; shapes: edits and their kinds during the run, exit status, switches", cliReal, cliStub, assume},
	"C19": {20000, 200000, "projects of 34-1100 small sources in 1-77 builds under a limit of 32 open files, and small ones under limits of 3-10; oracle: success under 32, otherwise non-zero status when the limit was hit and no output damaged; shapes: limit, number of outputs, exit status, most files open", cliReal, cliStub, assume},
	"C20": {200000, 2000000, "a generate run interleaved at system calls with an editor that atomically replaces, breaks, removes or creates the configuration up to 5 times, or with an init process that creates it; oracle: the files written and the exit status are those of one version of the configuration that existed during the run; shapes: the versions, what was edited during the run, exit status, switches", cliReal, cliStub, assume},
	"C21": {450000, 3000000, "one generate, init, lex, parse or qrepl run with broken or damaged sources, unusable configurations, wrong arguments, up to 2 planted faults and a failing standard output; oracle: a run that exits non-zero has written to standard error the text of a system call error it met, or every diagnostic of a source it refused; shapes: command, fired faults and exit status", cliReal, cliStub, assume},
	"C22": {400000, 4000000, "1-4 callers, each calling validators 1-12 (rarely 350) times with values at and next to limits, special floating-point values, shared and own regular expressions and values of known sizes, preempted before arbitrary statements; oracle: every answer is the one its arguments determine (an independent model), whatever was asked before and meanwhile", []string{"runtime/validators compiled from /repo", "regexp and reflect of the real build"}, libStub, assume},
	"C23": {100000, 1000000, "1-4 generate processes at once in a valid project (with an init or a reading command at times), some of them killed or failing, beside an editor that creates, renames and removes other files in the source, output and project directories; oracle: every process none of whose calls was made to fail exits 0, and the outputs are then complete", cliReal, cliStub, assume},
	"C24": {150000, 1500000, "a project and one command line that only looks (doctor, help in all forms, no or an unknown command, unknown flags before and after a command, lex, parse, qrepl with a script), with up to 2 planted faults or kills and failing consoles; oracle: no system call changes the disk, the command ends without crashing, and an unknown flag gives a non-zero status", cliReal, cliStub, assume},
	"C25": {200000, 3000000, "1-4 callers in one process, each loading and checking 1-5 configurations (JSON and YAML, intact, spoiled, linked, unreadable, of other names; plugins at directories, files, links, nothing) while an editor replaces the files, preempted at system calls or statements, with up to 2 planted faults; oracle: a configuration that is loaded says exactly what one version of its file says, undecodable ones are refused, Valid agrees with the disk, no file stays open or changes, and what one caller does with its configuration reaches no other", []string{"the config package compiled from /repo", "encoding/json, yaml.v2, os of the real build"}, allStub, assume},
	"C26": {200000, 2000000, "a project with valid, broken, damaged and unusual sources, untidy at times, and one command (generate, init, lex, parse, qrepl with a script, doctor, help, wrong arguments) run 2-4 times on copies of it without errors, under independently varied clock, process id, random and map state, listing order, file times, environment and splitting and interruption of transfers; oracle: equal exit status, equal text on standard output and standard error (time stamps, addresses and names of temporary files aside) and equal files afterwards; shapes: command, status, the things varied", cliReal, cliStub, assume},
	"C27": {120000, 1500000, "1-2 trees parsed once and read by 1-4 callers at the same time, preempted before arbitrary statements: each walks, formats, serialises, asks positions and the environment and generates code (from whole trees, single rules or several trees, with generators of its own), 1-5 times; oracle: each answer is the one that the same reading of a tree parsed separately gives alone, a reading in progress never sees the tree change, and the trees are afterwards what they were; shapes: readings, number of callers, logarithms of source sizes and of the number of switches", libReal, libStub, assume},
}
