prop="C05"
edits=[("cmd/cmp/main.go",'''	defer f2.Close()

	buf1 := bufio.NewReader(f1)
''','''	defer f2.Close()

	if s.silent {
		// Files of different sizes differ: no need to read them
		st1, e1 := os.Stat(s.file1)
		st2, e2 := os.Stat(s.file2)
		if e1 == nil && e2 == nil && st1.Size() != st2.Size() {
			os.Exit(1)
		}
	}

	buf1 := bufio.NewReader(f1)
'''),("cmd/cmp/main.go","	l := 1\n","	l := 1 // line number\n")]
needs="-s and an input whose size is not the number of bytes it gives (a FIFO, a file in /proc)"
breaks="cmp -s exits 1 for identical inputs"
demo='''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/cmp" ./cmd/cmp || exit 99
echo abc > "$t/a"; mkfifo "$t/p"; echo abc > "$t/p" &
"$t/cmp" -s "$t/a" "$t/p"; r=$?; wait; [ $r -eq 0 ]
'''
