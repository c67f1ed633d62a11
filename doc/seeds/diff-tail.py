prop="C07"
edits=[("pkg/diff/diff.go",'''	comparisons = append(comparisons, Diff(old[subStartOld+subLen:], new[subStartNew+subLen:])...)''','''	if subStartNew+subLen < len(new) {
		comparisons = append(comparisons, Diff(old[subStartOld+subLen:], new[subStartNew+subLen:])...)
	}''')]
needs="lines deleted at the end of the file after a common part"
breaks="the deletion is left out"
demo=r'''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/diff" ./cmd/diff || exit 99
run() { printf "$1" > "$t/a"; printf "$2" > "$t/b"; "$t/diff" "$t/a" "$t/b" > "$t/out"; s=$?; [ $s = "$3" ] && [ "$(cat "$t/out")" = "$(printf "$4")" ]; }
run "a\nb\n" "a\n" 1 "2d1\n< b\n"
'''
