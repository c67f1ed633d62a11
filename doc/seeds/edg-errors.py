prop='C21'
edits=[('pkg/ed/ed.go', '\t\t\t\tcmds <- Command{err: err}\n', '\t\t\t\tw.Write([]byte("?" + err.Error() + "\\n"))\n')]
needs='an impossible command after a valid one, and a schedule in which it is parsed before the first is answered'
breaks='answers come out of order'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/ed" ./cmd/ed || exit 99\nseq 1 300 > "$t/f"\nfor i in $(seq 300); do echo "${i}p"; echo z; done > "$t/s"\nfor i in $(seq 300); do echo "$i"; echo \'?\'; done > "$t/want"\nfor k in $(seq 20); do\n  timeout 20 "$t/ed" "$t/f" < "$t/s" 2>/dev/null | grep -v \'^$\' | grep \'^[0-9?]\' | sed \'s/^?.*/?/\' | grep -v \'^300$\' > "$t/out"\n  grep -v \'^300$\' "$t/want" | cmp -s - "$t/out" || exit 1\ndone\n'
