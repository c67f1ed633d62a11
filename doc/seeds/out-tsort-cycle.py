prop='C22'
edits=[('pkg/tsort/tsort.go', '\tif len(s.orderings) > 0 {\n', '\tif len(s.orderings) > 0 {\n\t\tfmt.Printf("tsort: cycle among %d items\\n", len(s.orderings))\n')]
needs='input with a cycle'
breaks='a diagnostic is written on standard output'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/tsort" ./cmd/tsort || exit 99\nprintf "a b b a\\n" | "$t/tsort" > "$t/out" 2>/dev/null\n[ ! -s "$t/out" ]\n'
