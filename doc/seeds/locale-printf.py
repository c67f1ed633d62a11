prop="C16"
edits=[("pkg/locale/locale.go",'''		out.WriteString(fmt.Sprintf("%s=%s\\n", setting.name, l.getVal(setting.val)))
''','''		fmt.Fprintf(&out, setting.name+"="+l.getVal(setting.val)+"\\n")
''')]
needs="a value holding a percent sign"
breaks="the value is taken for a format"
demo='''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/locale" ./cmd/locale || exit 99
env -i LC_TIME='a%sb' "$t/locale" | grep -qxF 'LC_TIME=a%sb'
'''
