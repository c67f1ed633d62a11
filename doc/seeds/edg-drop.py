prop='C21'
edits=[('pkg/ed/ed.go', '\t\t\t\tcmds <- Command{err: err}\n', '\t\t\t\tselect {\n\t\t\t\tcase cmds <- Command{err: err}:\n\t\t\t\tdefault:\n\t\t\t\t}\n')]
needs='an impossible command read while the one before is being carried out'
breaks='impossible commands are not answered'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/ed" ./cmd/ed || exit 99\nseq 1 300 > "$t/f"\nfor i in $(seq 300); do echo "${i}p"; echo z; done > "$t/s"\nfor i in $(seq 300); do echo "$i"; echo \'?\'; done > "$t/want"\nfor k in $(seq 20); do\n  timeout 20 "$t/ed" "$t/f" < "$t/s" 2>/dev/null | grep -v \'^$\' | grep \'^[0-9?]\' | sed \'s/^?.*/?/\' | grep -v \'^300$\' > "$t/out"\n  grep -v \'^300$\' "$t/want" | cmp -s - "$t/out" || exit 1\ndone\n'
