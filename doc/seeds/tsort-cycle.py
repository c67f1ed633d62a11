prop='C14'
edits=[('pkg/tsort/tsort.go', '\tif len(s.orderings) > 0 {\n', '\tif len(out) == 0 && len(s.orderings) > 0 {\n')]
needs='a cycle beside items that can be ordered'
breaks='a partial order is printed with status 0'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/tsort" ./cmd/tsort || exit 3\n\nprintf \'a b b c c b\\n\' | timeout 20 "$t/tsort" > "$t/out" 2>/dev/null\n[ $? -ne 0 ]\n'
