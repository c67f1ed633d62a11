prop="C09"
edits=[("cmd/diff/main.go",'''			} else if s.file2 == "" {
				s.file2 = a
			} else {
				return s, fmt.Errorf("aww jeez you can only compare two files, %s is the third", a)
			}''','''			} else {
				s.file2 = a
			}''')]
needs="three operands"
breaks="the third operand silently takes the place of the second"
demo=r'''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/diff" ./cmd/diff || exit 99
run() { printf "$1" > "$t/a"; printf "$2" > "$t/b"; "$t/diff" "$t/a" "$t/b" > "$t/out"; s=$?; [ $s = "$3" ] && [ "$(cat "$t/out")" = "$(printf "$4")" ]; }
: > "$t/a"; "$t/diff" "$t/a" "$t/b" "$t/a" 2> "$t/err"; [ $? = 2 ] && [ -s "$t/err" ]
'''
