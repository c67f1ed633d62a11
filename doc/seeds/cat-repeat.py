prop="C01"
edits=[("cmd/cat/main.go",'''	for _, fn := range filenames {
		err := writeFile(fn)
''','''	for i, fn := range filenames {
		if i > 0 && fn == "-" && filenames[i-1] == "-" {
			break // standard input has been consumed
		}
		err := writeFile(fn)
''')]
needs="standard input named twice in a row with further operands behind it"
breaks="cat - - FILE drops FILE"
demo='''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/cat" ./cmd/cat || exit 99
cd "$t" && printf 'x\\n' > f && printf 'in\\n' | ./cat - - f > out && printf 'in\\nx\\n' | cmp - out
'''
