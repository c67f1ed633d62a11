prop='C22'
edits=[('cmd/cksum/main.go', '\tfmt.Fprintf(os.Stderr, format, args...)\n', '\tfmt.Fprintf(os.Stdout, format, args...)\n')]
needs='a file that cannot be opened'
breaks='the diagnostic is written on standard output'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/cksum" ./cmd/cksum || exit 99\n"$t/cksum" "$t/none" > "$t/out" 2>/dev/null\n[ ! -s "$t/out" ]\n'
