prop='C05'
edits=[('cmd/cmp/main.go', 'bufio.NewReader(f1)', 'bufio.NewReader(io.LimitReader(f1, 1<<24))'), ('cmd/cmp/main.go', 'bufio.NewReader(f2)', 'bufio.NewReader(io.LimitReader(f2, 1<<24))')]
needs='files that first differ beyond 16 MiB'
breaks='they are taken to be identical'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/u" ./cmd/cmp || exit 3\nmkdir "$t/d"; cd "$t/d" || exit 3\n\nhead -c 17000000 /dev/zero > f; cp f g; echo end >> f; echo END >> g\n"$t/u" -s f g; [ $? -eq 1 ]\n'
