prop="C01"
edits=[("cmd/cat/main.go",'if s != "-u" {','if len(s) < 2 || s[:2] != "-u" {')]
needs="an operand whose name starts with -u"
breaks="an operand such as -update.txt is taken for an option and not copied"
demo='''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/cat" ./cmd/cat || exit 99
cd "$t" && printf 'a\\nb' > ./-update.txt && ./cat -u -update.txt > out && cmp out ./-update.txt
'''
