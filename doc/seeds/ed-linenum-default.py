prop='C20'
edits=[('pkg/ed/address.go', '\t{aLast, aLast},             // ctlineNumber\n', '\t{aCur, aCur},               // ctlineNumber\n')]
needs='the command = without an address while the current line is not the last'
breaks='= answers with the current line'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/ed" ./cmd/ed || exit 3\nmkdir "$t/d"; cd "$t/d" || exit 3\n\nprintf \'a\\nb\\nc\\n\' > f\nprintf \'1p\\n=\\nQ\\n\' | timeout 20 "$t/ed" f > ../out 2>/dev/null\nprintf \'\\na\\n3\\n\' | cmp -s - ../out\n'
