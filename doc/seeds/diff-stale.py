prop="C07"
edits=[("pkg/diff/diff.go",'''		overlap = newOverlap''','''		for k, v := range newOverlap {
			overlap[k] = v
		}''')]
needs="a line of the first file that matched an earlier line of the second, followed later by a match one line below"
breaks="a run of common lines is taken too long: lines that differ are left out as equal"
demo=r'''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/diff" ./cmd/diff || exit 99
run() { printf "$1" > "$t/a"; printf "$2" > "$t/b"; "$t/diff" "$t/a" "$t/b" > "$t/out"; s=$?; [ $s = "$3" ] && [ "$(cat "$t/out")" = "$(printf "$4")" ]; }
run "a\nb\n" "a\nx\nb\n" 1 "1a2\n> x\n"
'''
