prop="C02"
edits=[("cmd/cmp/main.go",'''		return fmt.Errorf("could not open %s", s.file2)
	}
	defer f2.Close()
''','''		if os.IsNotExist(err) && s.silent {
			os.Exit(1)
		}
		return fmt.Errorf("could not open %s", s.file2)
	}
	defer f2.Close()
''')]
needs="-s and a second file that does not exist"
breaks="a missing file is reported as a difference (status 1, no message)"
demo='''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/cmp" ./cmd/cmp || exit 99
echo a > "$t/a"; "$t/cmp" -s "$t/a" "$t/missing" 2> "$t/err"; [ $? -eq 2 ] && [ -s "$t/err" ]
'''
