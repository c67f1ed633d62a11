prop="C03"
edits=[("cmd/diff/main.go",'''		case "-U":
			if i+1 >= len(args) {''','''		case "-U":
			if i >= len(args) {''')]
needs="-U as the last argument"
breaks="diff panics with an index out of range"
demo='''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/diff" ./cmd/diff || exit 99
"$t/diff" a b -U > "$t/out" 2>&1; ! grep -q '^panic' "$t/out"
'''
