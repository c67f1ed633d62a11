prop="C09"
edits=[("pkg/diff/diff.go",'''		if len(old) == len(new) {''','''		if len(new) < 2 {''')]
needs="an empty file against one of a single line"
breaks="diff exits 0 and prints nothing"
demo=r'''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/diff" ./cmd/diff || exit 99
run() { printf "$1" > "$t/a"; printf "$2" > "$t/b"; "$t/diff" "$t/a" "$t/b" > "$t/out"; s=$?; [ $s = "$3" ] && [ "$(cat "$t/out")" = "$(printf "$4")" ]; }
run "" "a\n" 1 "0a1\n> a\n"
'''
