prop='C14'
edits=[('cmd/tsort/main.go', '\t\tif w1 == w2 {\n\t\t\tsorter.Add([]string{w1})\n', '\t\tif w1 == w2 {\n\t\t\tcontinue\n')]
needs='an item that occurs only in a pair with itself'
breaks='the item is not printed'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/tsort" ./cmd/tsort || exit 3\n\nprintf \'a a b c\\n\' | timeout 20 "$t/tsort" > "$t/out" || exit 1\n[ "$(sort "$t/out" | tr \'\\n\' \' \')" = "a b c " ]\n'
