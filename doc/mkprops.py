#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Edit here, run, commit both.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=state
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)

p("C01","cat copies every operand to standard output, byte for byte, in order",
  "When every operand can be read, cat writes to standard output exactly the concatenation of the operands' contents in operand order (\"-\" and the absence of operands meaning standard input, -u being an option and not an operand), adding, dropping and reordering nothing, and exits 0.",
  ["inputs"],"for every operand list, every file content (any bytes, any length) and every chunking of reads",
  "File contents, operand counts and read chunkings are unbounded; there are no tests of cat at all.",
  ["cmd/cat/main.go"],[("operand loop","main"),("per-operand copy","writeFile, write")],observe=["standard output","exit status"])
p("C02","An input that cannot be opened or read is never passed off as success",
  "When an input file of cat, cksum, cmp, diff, head or tsort cannot be opened, or a read of it fails part-way, the utility writes a diagnostic to standard error and exits with a non-zero status (2 for cmp and diff, whose status 1 means that the inputs differ).",
  ["inputs","fault_sequences"],"for every operand list and every point at which an open or a read can fail",
  "A failure can strike any open and any read of any operand; tests would have to inject a fault at each one.",
  ["cmd/cat/main.go","cmd/cksum/main.go","cmd/cmp/main.go","cmd/diff/main.go","cmd/head/main.go","cmd/tsort/main.go"],
  [("error paths to exit","every main and its helpers")],observe=["exit status","standard error"])
p("C03","No argument list or input makes a utility crash",
  "No argument list, environment, input content or input failure makes cat, cksum, cmp, cut, diff, head, kill, locale, test or tsort panic: no index or slice out of range, nil dereference, failed conversion, division by zero or explicit panic is reachable.",
  ["inputs","fault_sequences"],"for every argument vector (including the empty one after the program name), every input and every failing system call",
  "A panic needs one particular argument shape or content; tests sample a handful.",
  ["cmd/cat/main.go","cmd/cksum/main.go","cmd/cmp/main.go","cmd/cut/main.go","cmd/diff/main.go","cmd/head/main.go","cmd/kill/main.go","cmd/locale/main.go","cmd/test/main.go","cmd/tsort/main.go"],
  [("argument parsing loops","parseSettings, parse, main")],observe=["abnormal termination"])
p("C04","cksum prints the POSIX CRC and the byte count of each operand",
  "For each operand, in order, cksum prints one line holding the POSIX CRC-32 of exactly that operand's bytes followed by its length (polynomial 0x04C11DB7, high bit first, initial value 0, length octets appended low byte first, complemented), the number of bytes, and the operand; it exits 0 when every operand was read.",
  ["inputs"],"for every byte sequence of every length and every operand list",
  "The checksum of an unbounded byte sequence depends on all 256 table entries and on the shift and index arithmetic; a few vectors cannot pin them.",
  ["cmd/cksum/cksum.go","cmd/cksum/main.go"],[("table-driven CRC","memcrc, crctab"),("operand loop","main, run")],observe=["standard output"])
p("C05","cmp's exit status is 0 exactly for identical inputs and 1 for different ones",
  "When both inputs can be read, cmp exits 0 if they have the same bytes and the same length and 1 if they differ in any byte or one is a proper prefix of the other, with or without -l and -s; with -s it writes nothing.",
  ["inputs"],"for all pairs of byte sequences and all combinations of -l and -s",
  "The first difference can lie at any offset, and the shorter input can end anywhere.",
  ["cmd/cmp/main.go"],[("byte loop","cmp"),("options","parseSettings")],observe=["exit status","standard output","standard error"])
p("C06","cmp reports the differing bytes at their true position",
  "Without options cmp prints exactly one line for the first differing byte, giving its 1-based offset and the number of the line it lies on (one more than the newlines before it); with -l it prints for every differing byte, in order and for no other, its 1-based offset and the octal values of both bytes; it prints nothing on standard output when one input is a prefix of the other or they are equal.",
  ["inputs"],"for all pairs of byte sequences",
  "Offsets and line numbers are running counters over unbounded input.",
  ["cmd/cmp/main.go"],[("byte loop","cmp")],observe=["standard output"])
p("C07","diff's changes cover both files completely, once and in order",
  "The list of changes diff computes for two line sequences, read in order, gives the first sequence as the concatenation of its common and removed parts and the second as the concatenation of its common and added parts, so that the changes reproduce both files exactly.",
  ["inputs"],"for all pairs of line sequences",
  "The recursion splits arbitrary sequences at data-dependent points.",
  ["pkg/diff/diff.go"],[("recursive longest common run","Diff")],observe=["the change list"])
p("C08","diff's hunks name the true line numbers and show exactly the changed lines",
  "In the normal output format every hunk header carries the 1-based line ranges of both files that the change list implies (the line after which lines are added or deleted, \"a,b\" only for more than one line), followed by every removed line prefixed \"< \" and every added line prefixed \"> \", with \"---\" between them for a change; parts common to both files are not printed.",
  ["inputs"],"for every list of changes",
  "Line numbers are running sums over an unbounded list.",
  ["pkg/diff/output.go"],[("hunk formatting","basicOutput, fmtRange")],observe=["standard output"])
p("C09","diff exits 0 for files with the same lines, 1 when they differ, 2 on trouble",
  "diff exits 0 and prints nothing when the two files consist of the same lines, exits 1 after printing at least one hunk when they do not, and exits 2 with a message on standard error when its arguments are wrong or a file cannot be read.",
  ["inputs","fault_sequences"],"for all argument lists, pairs of files and failures to read them",
  "Which status is right depends on the whole of both files.",
  ["cmd/diff/main.go","pkg/diff/diff.go","pkg/diff/output.go"],[("status","main")],observe=["exit status"])
p("C10","head prints exactly the first N lines of each file, unchanged",
  "For each operand in order (standard input when there is none, or for \"-\"), head prints exactly its first N lines (N from -n, 10 by default), or all of it when it has fewer, byte for byte including a last line without a newline; with more than one operand each is preceded by the line \"==> NAME <==\", with an empty line before every header but the first.",
  ["inputs"],"for every operand list, every file content and every N",
  "Line lengths, file sizes and counts are unbounded; there are no tests of head.",
  ["cmd/head/main.go"],[("line loop","process"),("options","parseSettings")],observe=["standard output"])
p("C11","kill sends the requested signal once to each listed process and to no other",
  "When its arguments are valid, kill sends to each PID operand, in order and exactly once, the signal selected by the last -s NAME (case-insensitively) or -NUMBER option, or SIGTERM without one, and signals nothing else; when an argument is invalid it signals nothing at all and exits non-zero with a diagnostic, and kill -l signals nothing.",
  ["inputs","fault_sequences"],"for every argument list",
  "Sending real signals is hard to test, and every name, order of options and number of PIDs matters.",
  ["cmd/kill/main.go"],[("argument loop, signal table","main, signalMap")],observe=["signals sent","exit status"])
p("C12","test's primaries decide what their POSIX definitions say",
  "Each unary file or string primary that test implements (-b -c -d -e -f -g -h -L -n -p -S -s -u -z) is true exactly when POSIX says so of its operand (false for a file that does not exist), following symbolic links except for -h and -L, and each binary primary (= != -eq -ne -gt -ge -lt -le) is the named relation between its operands, an operand of a numeric primary that is no number being an error (status 2).",
  ["inputs"],"for all operands and all file states",
  "Each primary depends on file mode bits or on arbitrary strings and numbers; there are no tests of test.",
  ["cmd/test/tests.go"],[("primary tables","flagMap, infixMap")],observe=["exit status"])
p("C13","test reads its arguments by their number and exits 0, 1 or 2 accordingly",
  "No argument is false and a single one is true unless it is empty, whatever it looks like; two arguments are a negation (\"!\") or a unary primary, three a binary primary if the second argument is one and otherwise a negation of two, longer lists only negations of shorter ones; the status is 0 for true, 1 for false and 2 with a diagnostic for an expression that cannot be interpreted.",
  ["inputs"],"for every argument list",
  "Operands may look like operators in any combination.",
  ["cmd/test/main.go"],[("argument-count grammar","parse, main")],observe=["exit status"])
p("C14","tsort prints every item once, no item after one it must precede",
  "For a list of pairs without cycles tsort prints every word of its input exactly once, one per line, so that the first word of each pair comes before the second, and exits 0; it never prints a partial or wrong order with status 0, reporting a cycle or an odd number of words on standard error with a non-zero status.",
  ["inputs"],"for all lists of pairs, including repeated pairs and pairs of equal words",
  "Graphs are unbounded and map iteration order varies between runs.",
  ["pkg/tsort/tsort.go","cmd/tsort/main.go"],[("ordering","Sorter.Add, heads, isBlocked, Order"),("input","run")],observe=["standard output","exit status"])
p("C15","The option parser assigns options and returns operands as POSIX guidelines say",
  "The option parser treats each leading argument that starts with \"-\" and is longer than one character as a bundle of options: each declared boolean option in it is set, an option with an argument takes the rest of its bundle or else the following argument, \"--\" or the first other argument ends the options and everything after it is returned unchanged and in order; an undeclared option, a missing argument or a number that is none is an error.",
  ["inputs"],"for every argument list and every set of declared options",
  "Bundles combine arbitrary characters, including multi-byte ones, with arbitrary arguments.",
  ["pkg/flag/parse.go","pkg/flag/flag.go"],[("scan","Parser.Parse"),("assignment","execute")],observe=["destinations","returned operands","error"])
p("C16","locale reports the environment with the POSIX precedence of LC_ALL and LANG",
  "locale prints one line per variable, LANG, the six LC_ categories and LC_ALL, each derived from the environment variable of the same name; a category shows the value of LC_ALL in quotes when that is set and not empty, otherwise its own value, otherwise that of LANG in quotes.",
  ["configurations"],"for every setting of the environment variables, with any characters in their values",
  "Eight variables with arbitrary values and three sources for each category.",
  ["pkg/locale/locale.go","cmd/locale/main.go"],[("precedence","getVal"),("collection and printing","FromEnv, String")],observe=["standard output"])
p("C17","The piece table always holds the text that its edits describe",
  "After any sequence of insertions and deletions within bounds, the text of a piece table is what the same edits give on a plain byte sequence: an insertion at a position puts exactly the given bytes there, a deletion removes exactly the given range (cut off at the end of the text), and no edit changes any other byte, whatever earlier edits split.",
  ["histories"],"for every original text and every sequence of insertions and deletions",
  "Piece lists grow without bound and each edit depends on how earlier ones split the pieces.",
  ["pkg/txt/piece_table.go"],[("piece list","Insert, Delete"),("rendering","String, Read")],state=[{"name":"piece list","meaning":"the text as a list of ranges of the original and of the appended bytes","where":"PieceTable.head"}],observe=["String"])
p("C18","ed never damages a file: it is replaced whole or left as it was",
  "When ed writes, the target file ends up with exactly the addressed text or, if any step fails, still has its former contents; the new contents are complete and flushed in a file of their own in the same directory before they replace the target, whose permission bits they keep, the temporary file does not survive a failure, the failure is reported with \"?\" and the buffer is kept. Without an operand the target is the remembered file: the one last read by e, or the first written when there was none.",
  ["fault_sequences","crash_points"],"for every failing step of a write and every crash point between steps",
  "Each file operation can fail or the process die after it; tests cover only success.",
  ["pkg/ed/ed.go"],[("atomic replace","writeFile"),("w command","processCommand")],observe=["file system","responses"])
p("C19","No command makes ed crash or go backwards in the buffer",
  "No sequence of parsed commands, addresses and buffer contents makes ed panic or hang: every command either acts or answers with a line starting with \"?\".",
  ["histories","inputs"],"for all sequences of commands on all buffers",
  "Addresses, offsets and buffer sizes combine without bound.",
  ["pkg/ed/ed.go","pkg/ed/address.go"],[("command execution","processCommand, addrLine, addrLines")],observe=["abnormal termination"])
p("C20","ed's commands act on exactly the addressed lines and set the current line",
  "For every valid pair of addresses, d removes exactly the lines from the first to the second address, c replaces them, a and i put the given text after or before the addressed line, p and n show exactly those lines, = shows the line number; all other lines keep their content and order and the current line becomes the one POSIX names. e replaces the buffer by the lines of the named file, the last one becoming current, or changes nothing when the file cannot be read.",
  ["histories","inputs"],"for every buffer, every valid address pair and every text",
  "Line positions are sums of line lengths over arbitrary buffers.",
  ["pkg/ed/ed.go","pkg/txt/piece_table.go"],[("line addressing","getLineAddr, getLines"),("commands","processCommand")],observe=["buffer","responses"])
p("C21","ed answers commands one by one, in order, from a single writer",
  "ed's responses appear on its output in the order of the commands, each after the command has been carried out; input is parsed by one goroutine that hands every command over exactly once and only the command loop writes to the output or touches the buffer.",
  ["schedules"],"for every interleaving of the parsing and the executing goroutine",
  "The interleaving is up to the scheduler.",
  ["pkg/ed/ed.go"],[("command channel","ProcessCommands")],observe=["output order"])
p("C22","Only results go to standard output",
  "Diagnostics and debugging text of every utility and package go to standard error: standard output receives nothing but the results the utility is specified to print.",
  ["inputs"],"for every run of every utility",
  "A stray message appears only on some path.",
  ["cmd","pkg/ed/ed.go"],[("diagnostics","debug, die, errorMsg")],observe=["standard output"])
p("C23","A regular expression matches exactly the texts it means",
  "An expression made of ordinary characters, the period and bracket lists of characters, each alone or followed by *, {m}, {m,} or {m,n} (unescaped braces, as this package has it), with or without ^ at its beginning and $ at its end, is accepted, and Matches reports true for exactly the texts that contain (with ^: begin with, with $: end with, with both: are) a concatenation of what its elements stand for.",
  ["inputs"],"for all such expressions and all texts",
  "Patterns and texts are unbounded; backtracking goes wrong for particular pairs only.",
  ["pkg/regexes/bre.go","pkg/regexes/bre_evaluate.go"],[("parser","ParseBre, parseCount"),("matcher","Bre.Matches, elementsMatch")],observe=["match result"])
p("C24","Lexing a locale definition always ends, with every keyword recognised",
  "Lexing any locale definition text comes to an end, with its tokens or with an error (a panic raised on purpose), never in an endless loop or a run-time fault; comment lines and the comment_char and escape_char lines yield no token, a line that ends in the escape character is joined with the next one, and each keyword of the supported categories yields its own token followed by those of its operand.",
  ["inputs"],"for all texts",
  "Texts are unbounded.",
  ["pkg/locale/localelex.go"],[("lexer states","localelex.go")],observe=["token stream"])
p("C25","The same input always gives the same output",
  "The output and exit status of every utility are a function of its arguments, environment and inputs: no output depends on map iteration order, goroutine scheduling, time or randomness.",
  ["schedules","inputs"],"for every run of every utility on the same input",
  "Map iteration order and scheduling differ between runs at random.",
  ["cmd","pkg/tsort/tsort.go","cmd/kill/main.go"],[("iteration over maps","Sorter.heads, kill -l")],observe=["standard output"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
