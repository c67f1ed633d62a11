prop='C19'
edits=[('pkg/ed/address.go', '\t{aLast, aLast},             // ctlineNumber\n\t{aCur, aCur},               // ctshell\n', '\t{aLast, aLast},             // ctlineNumber\n')]
needs='the command !'
breaks='ed panics with an index out of range instead of answering ?'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/ed" ./cmd/ed || exit 3\nmkdir "$t/d"; cd "$t/d" || exit 3\n\nprintf \'one\\n\' > f\nprintf \'!ls\\n1p\\nQ\\n\' | timeout 20 "$t/ed" f > ../out 2>/dev/null\n[ "$(cut -c1-3 ../out | tr \'\\n\' \' \')" = " ? ( one " ]\n'
