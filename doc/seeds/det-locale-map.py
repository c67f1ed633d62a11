prop="C25"
edits=[("pkg/locale/locale.go",'''	settings := []struct{ name, val string }{
		{"LC_COLLATE", l.collate},
		{"LC_CTYPE", l.ctype},
		{"LC_MESSAGES", l.messages},
		{"LC_MONETARY", l.monetary},
		{"LC_NUMERIC", l.numeric},
		{"LC_TIME", l.time},
	}

	for _, setting := range settings {
		out.WriteString(fmt.Sprintf("%s=%s\\n", setting.name, l.getVal(setting.val)))
	}
''','''	settings := map[string]string{
		"LC_COLLATE":  l.collate,
		"LC_CTYPE":    l.ctype,
		"LC_MESSAGES": l.messages,
		"LC_MONETARY": l.monetary,
		"LC_NUMERIC":  l.numeric,
		"LC_TIME":     l.time,
	}

	for name, val := range settings {
		out.WriteString(fmt.Sprintf("%s=%s\\n", name, l.getVal(val)))
	}
''')]
needs="two runs of locale to compare"
breaks="the categories come in a different order from run to run"
demo=r'''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/locale" ./cmd/locale || exit 99
for i in $(seq 60); do "$t/locale" | md5sum; done | sort -u > "$t/out"
[ $(wc -l < "$t/out") = 1 ]
'''
