prop='C21'
edits=[('pkg/ed/ed.go', '\t\t\tdebug("line", cmd)\n', '\t\t\t// a lone $ names the last line\n\t\t\tif cmd == "$" {\n\t\t\t\tcmd = strconv.Itoa(len(ed.getLines()))\n\t\t\t}\n\t\t\tdebug("line", cmd)\n')]
needs='a $ command right after one that changes the number of lines, and a schedule in which it is read first'
breaks='the command refers to the buffer before the edit; the buffer is used by two goroutines at once'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/ed" ./cmd/ed || exit 99\nseq 1 2000 > "$t/f"\nfor k in $(seq 30); do\n  (for i in $(seq 40); do echo 1d; echo \'$\'; done; echo \'$p\') | timeout 20 "$t/ed" "$t/f" 2>/dev/null | grep -v \'^$\' > "$t/out" || exit 1\n  grep -q \'^?\' "$t/out" && exit 1\ndone\nexit 0\n'
