prop="C10"
edits=[("cmd/head/main.go",'''			n, err := strconv.Atoi(args[i])
			if err != nil {
				return s, err
			}
			s.numLines = n
''','''			n, err := strconv.ParseInt(args[i], 0, 64)
			if err != nil {
				return s, err
			}
			s.numLines = int(n)
''')]
needs="a count with a leading zero"
breaks="head -n 012 prints 10 lines, not 12"
demo='''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/head" ./cmd/head || exit 99
seq 20 > "$t/a"; [ "$("$t/head" -n 012 "$t/a" | wc -l)" -eq 12 ]
'''
