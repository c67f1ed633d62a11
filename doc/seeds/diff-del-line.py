prop="C08"
edits=[("pkg/diff/output.go",'''				out = append(out, fmt.Sprintf("%sd%d", fmtRange(lineOld, lineCount), lineNew))''','''				out = append(out, fmt.Sprintf("%sd%d", fmtRange(lineOld, lineCount), lineOld))''')]
needs="a deletion that follows an insertion or deletion of lines"
breaks="the deletion names the wrong line of the second file"
demo=r'''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/diff" ./cmd/diff || exit 99
run() { printf "$1" > "$t/a"; printf "$2" > "$t/b"; "$t/diff" "$t/a" "$t/b" > "$t/out"; s=$?; [ $s = "$3" ] && [ "$(cat "$t/out")" = "$(printf "$4")" ]; }
run "a\nb\nc\n" "x\na\nb\n" 1 "0a1\n> x\n3d3\n< c\n"
'''
