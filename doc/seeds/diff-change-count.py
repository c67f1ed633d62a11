prop="C08"
edits=[("pkg/diff/output.go",'''				lineNew += lineCount2
''','''				lineNew += lineCount
''')]
needs="a change that replaces lines by another number of lines, followed by another hunk"
breaks="the later hunks carry wrong line numbers of the second file"
demo=r'''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/diff" ./cmd/diff || exit 99
run() { printf "$1" > "$t/a"; printf "$2" > "$t/b"; "$t/diff" "$t/a" "$t/b" > "$t/out"; s=$?; [ $s = "$3" ] && [ "$(cat "$t/out")" = "$(printf "$4")" ]; }
run "a\nb\nc\nd\n" "x\ny\nb\nc\n" 1 "1c1,2\n< a\n---\n> x\n> y\n4d4\n< d\n"
'''
