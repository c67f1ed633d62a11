prop='C23'
edits=[('pkg/regexes/bre.go', '\treturn rune(bpt) == r\n', '\treturn byte(bpt) == byte(r)\n')]
needs='a character whose code is another one of the expression plus a multiple of 256'
breaks='it matches'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ncat > "$t/main.go" <<\'G\'\npackage main\n\nimport (\n\t"os"\n\n\t"github.com/fwip/posix-utils/pkg/regexes"\n)\n\nfunc main() {\n\tfor i := 1; i+2 < len(os.Args); i += 3 {\n\t\tb, err := regexes.ParseBre(os.Args[i])\n\t\tif err != nil || b.Matches(os.Args[i+1]) != (os.Args[i+2] == "yes") {\n\t\t\tprintln(os.Args[i], os.Args[i+1], "expected:", os.Args[i+2])\n\t\t\tos.Exit(1)\n\t\t}\n\t}\n}\nG\nprintf \'{"Replace":{"%s/cmd/zzdemo/main.go":"%s/main.go"}}\' "$PWD" "$t" > "$t/o.json"\ngo build -overlay "$t/o.json" -o "$t/demo" ./cmd/zzdemo || exit 3\ntimeout 60 "$t/demo" a a yes a \u0161 no\n'
