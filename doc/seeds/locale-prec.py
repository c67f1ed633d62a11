prop="C16"
edits=[("pkg/locale/locale.go",'''	if l.all != "" {
		return "\\"" + l.all + "\\""
	}
	if val != "" {
		return val
	}
''','''	if val != "" {
		return val
	}
	if l.all != "" {
		return "\\"" + l.all + "\\""
	}
''')]
needs="LC_ALL and a category both set"
breaks="a category set explicitly overrides LC_ALL"
demo='''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/locale" ./cmd/locale || exit 99
env -i LC_ALL=C LC_TIME=fr_FR LANG=en "$t/locale" | grep -qx 'LC_TIME="C"'
'''
