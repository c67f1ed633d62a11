prop="C06"
edits=[("cmd/cmp/main.go",'''		if err1 == nil && err2 == nil {
			if b1 != b2 {''','''		if err1 == nil && err2 == nil {
			if b2 == byte('\\n') {
				l++
			}
			if b1 != b2 {'''),("cmd/cmp/main.go",'''			if b1 == byte('\\n') {
				l++
			}
			continue
''','''			continue
''')]
needs="a first difference at a newline of the second file"
breaks="the line number is one too large"
demo='''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/cmp" ./cmd/cmp || exit 99
printf 'ax\\n' > "$t/a"; printf 'a\\n\\n' > "$t/b"
"$t/cmp" "$t/a" "$t/b" | grep -q 'char 2, line 1$'
'''
