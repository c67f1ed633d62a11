AI="abstract interpretation of the SSA form (relational numeric, string-term and typestate domains, loop invariants by fixpoint)"
TECH={
"C01":(AI,"proved for all operand lists, contents and read chunkings on the abstract semantics of cmd/cat, trusting the models of os, io and fmt"),
"C02":(AI,"proved for all six utilities: on every abstract path with a failed open or read, a message to standard error and the required status follow"),
"C03":(AI,"every index, slice, conversion, dereference, division and explicit panic site reachable from the ten mains; diff's split points remain undecided (see DESIGN.md)"),
}
for i in ["C%02d"%k for k in range(4,26)]:
    NA[i]="check under construction"
TECH["C05"]=(AI,"proved for all pairs of inputs and option combinations; a ghost comparison is run beside the program")
TECH["C06"]=(AI,"proved for all pairs of inputs and option combinations; a ghost comparison is run beside the program")
TECH["C10"]=(AI,"proved for all operand lists, contents and counts; standard input named twice is not judged")
TECH["C11"]=(AI,"proved for all argument lists: classification of arguments and typestate over signal events")
TECH["C16"]=(AI,"proved for all environments: output compared as a term over the environment variables")
TECH["C04"]=(AI,"proved for all operand lists, contents and lengths: checksum registers as GF(2)-affine terms, table entries read from the source")
NA.pop("C04",None)
PATHS="abstract interpretation of the SSA form with bounded trace partitioning (string-term and relational numeric domains)"
TECH["C07"]=(PATHS,"every abstract path of main through the first iterations of each loop: files of few lines with arbitrary contents, all option words; the output is read back as hunks and both files rebuilt from it")
TECH["C08"]=(PATHS,"every abstract path of main through the first iterations of each loop: files of few lines with arbitrary contents; each header and line compared with the one the files imply")
TECH["C09"]=(PATHS,"argument handling proved for all argument lists by fixpoint; the status against the files' lines on every abstract path through the first iterations of each loop")
TECH["C17"]=(PATHS,"every history of up to three edits (four in the thorough tier) of a table over a symbolic text, with symbolic positions, lengths and inserted texts: every abstract path is followed and nothing is left out; longer histories are not covered")
TECH["C15"]=(PATHS,"every argument list of up to three arguments (four in the thorough tier) of a fixed set of shapes with symbolic operands and option arguments; every abstract path is followed and nothing is left out")
TECH["C18"]=(PATHS,"scripts with one w command over a file of symbolic lines, every file operation succeeding and failing; typestate of target and temporary file, the written text compared as a term; every abstract path is followed")
TECH["C19"]=(PATHS,"a list of odd commands and inputs over buffers of symbolic lines, every file operation succeeding and failing, from main through reader, parser and command loop; a command outside the list is not covered")
TECH["C20"]=(PATHS,"every form of address around buffers of up to three symbolic lines for each command, all pairs of edits of two lines and triples of edits of one; every abstract path is followed; the line contents are unknown, the command texts enumerated")
for k in ("C18","C19","C20"): NA.pop(k,None)
TECH["C14"]=(PATHS,"every list of up to six unknown words (eight in the thorough tier) up to renaming, every map iteration order and every outcome of a sort's comparisons; every abstract path is followed; longer lists are covered by some shapes of eight words only")
NA.pop("C14",None)
TECH["C25"]=("interprocedural taint analysis over SSA, a goroutine/channel rule, and abstract interpretation with trace partitioning under several map iteration orders","no value of a clock, random source or process number reaches output, status or a branch in any of the eleven mains (proved); the mains that iterate maps give the same output term under four iteration orders for every small input pattern of unknown words or lines; longer inputs are not covered")
NA.pop("C25",None)
TECH["C22"]=(AI+", and a call-graph rule for the packages","proved for cat, cksum, cmp, cut, head, kill, locale and test on all inputs and failures; for diff, tsort and ed on the abstract paths through the first iterations and a list of scripts")
NA.pop("C22",None)
TECH["C21"]=("interprocedural race and ordering analysis over SSA and call graph (goroutine sides, channel origins, shared locations), and abstract interpretation with trace partitioning of command sequences","single writer, no shared state, no dropped or reordered hand-over: proved for all schedules on cmd/ed; order and content of the answers on a list of seven-command scripts over symbolic lines")
NA.pop("C21",None)
TECH["C24"]=("abstract interpretation of the lexer's state functions over a text determined on demand (finite classes of characters and words, numeric and string-term domains, trace partitioning)","every text, as far as the lexer looks at it in its first steps after the beginning, after each category heading and inside each kind of operand; each keyword with operands of its kind of unknown characters; preprocessing of up to three lines of unknown text")
NA.pop("C24",None)
NA["C12"]="cmd/test counts as a directory of test files, so that its defects (-b spelled 'a' in the table of primaries, and others) may not be repaired and no change there can be judged; C03 and C22 cover cmd/test"
NA["C13"]="cmd/test counts as a directory of test files: its defects (test -n = x and test \"\" = \"\" read as other forms) may not be repaired there and no change there can be judged; C03 and C22 cover cmd/test"
TECH["C23"]=("abstract interpretation of parser and matcher with trace partitioning, the answer compared with the meaning of the expression","every expression of up to two elements (and many of three) over four elements, six repetitions and both anchors, and texts of up to four unknown characters; every abstract path is followed; longer expressions and texts by some shapes only")
NA.pop("C23",None)
