prop='C01'
edits=[('cmd/cat/main.go', '\t_, err = io.Copy(w, r)\n', '\t_, err = io.CopyN(w, r, 1<<24)\n\tif err == io.EOF {\n\t\terr = nil\n\t}\n')]
needs='an operand longer than 16 MiB'
breaks='what lies beyond 16 MiB of an operand is dropped'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/u" ./cmd/cat || exit 3\nmkdir "$t/d"; cd "$t/d" || exit 3\n\nhead -c 17000000 /dev/zero > f; echo end >> f\n"$t/u" f | cmp -s - f\n'
