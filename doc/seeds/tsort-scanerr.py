prop="C02"
edits=[("cmd/tsort/main.go",'''	if scanner.Err() != nil {
		die("scan error! %s", scanner.Err())
	}

	out, err := sorter.Order()
	if err != nil {
''','''	out, err := sorter.Order()
	if err == nil && len(out) > 0 {
		err = scanner.Err()
	}
	if err != nil {
''')]
needs="a read that fails before the first word (a directory operand)"
breaks="tsort exits 0 with no output for an input it could not read"
demo='''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/tsort" ./cmd/tsort || exit 99
mkdir "$t/d"; "$t/tsort" "$t/d" > "$t/out" 2> "$t/err"; [ $? -ne 0 ] && [ -s "$t/err" ]
'''
