prop='C10'
edits=[('cmd/head/main.go', "\t\t\tline, err := reader.ReadString('\\n')\n\t\t\tfmt.Print(line)\n", "\t\t\tline, err := reader.ReadSlice('\\n')\n\t\t\tif err == bufio.ErrBufferFull {\n\t\t\t\terr = nil\n\t\t\t}\n\t\t\tos.Stdout.Write(line)\n")]
needs='a line longer than the buffer of 4096 bytes'
breaks='each buffer-full of a long line counts as a line'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/u" ./cmd/head || exit 3\nmkdir "$t/d"; cd "$t/d" || exit 3\n\n{ head -c 10000 /dev/zero | tr \'\\0\' x; echo; echo two; echo three; } > f\n"$t/u" -n 2 f > ../out; [ "$(tail -n 1 ../out)" = two ]\n'
