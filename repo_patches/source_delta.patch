From f543764e8db2470bc7a4c1981eac427ddb72bdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:38 +0000
Subject: [PATCH 01/47] fix: cat exits non-zero when an operand cannot be read

---
 cmd/cat/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cat/main.go b/cmd/cat/main.go
index 639fa86..5f7548f 100644
--- a/cmd/cat/main.go
+++ b/cmd/cat/main.go
@@ -49,7 +49,7 @@ func main() {
 		err := writeFile(fn)
 		if err != nil {
 			os.Stderr.Write([]byte(fmt.Sprintf("Error encountered while attempting to read from %s: %s\n", fn, err)))
-			break
+			os.Exit(1)
 		}
 	}
 }
-- 
2.43.0


From 0bf3edbf7c30e614083e7d492df6c440853548a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:38 +0000
Subject: [PATCH 02/47] fix: cmp -l exits 1 when the files differ

---
 cmd/cmp/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index e1235b0..d7360a4 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -58,6 +58,7 @@ func cmp(s settings) error {
 	buf1 := bufio.NewReader(f1)
 	buf2 := bufio.NewReader(f2)
 	l := 1
+	differ := false
 	for i := 1; err == nil; i++ {
 		b1, err1 := buf1.ReadByte()
 		b2, err2 := buf2.ReadByte()
@@ -74,6 +75,7 @@ func cmp(s settings) error {
 				if !s.writeAll {
 					os.Exit(1)
 				}
+				differ = true
 			}
 			if b1 == byte('\n') {
 				l++
@@ -100,6 +102,9 @@ func cmp(s settings) error {
 
 	}
 
+	if differ {
+		os.Exit(1)
+	}
 	return nil
 }
 
-- 
2.43.0


From 894c64151406ac9e8ba2ddcb7e9ed186978a04cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:38 +0000
Subject: [PATCH 03/47] fix: cmp -s stays silent when one file is a prefix of
 the other

---
 cmd/cmp/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index d7360a4..2efc3da 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -87,14 +87,18 @@ func cmp(s settings) error {
 		}
 		if err1 != nil {
 			if err1 == io.EOF {
-				fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file1, "")
+				if !s.silent {
+					fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file1, "")
+				}
 				os.Exit(1)
 			}
 			return fmt.Errorf("Error reading %s: %s", s.file1, err1)
 		}
 		if err2 != nil {
 			if err2 == io.EOF {
-				fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file2, "")
+				if !s.silent {
+					fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file2, "")
+				}
 				os.Exit(1)
 			}
 			return fmt.Errorf("Error reading %s: %s", s.file2, err2)
-- 
2.43.0


From 45b88ce7f85cac0cf85f7f7f992eeb35ad1ca367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:38 +0000
Subject: [PATCH 04/47] fix: diff reports an operand it cannot read instead of
 treating it as empty

---
 cmd/diff/main.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index aa59f4f..99f5e1c 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -101,8 +101,16 @@ func main() {
 		os.Exit(1)
 	}
 
-	l1, _ := readLines(settings.file1)
-	l2, _ := readLines(settings.file2)
+	l1, err := readLines(settings.file1)
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "Oh heck an error: %s\n", err)
+		os.Exit(2)
+	}
+	l2, err := readLines(settings.file2)
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "Oh heck an error: %s\n", err)
+		os.Exit(2)
+	}
 	changes := diff.Diff(l1, l2)
 
 	fmt.Println(diff.Format(changes))
-- 
2.43.0


From 0614759264d63dc0922dde9def3e584d253884c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:38 +0000
Subject: [PATCH 05/47] fix: diff sends usage errors to stderr with status 2,
 including a bad -C count

---
 cmd/diff/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index 99f5e1c..36b5af9 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -39,6 +39,9 @@ func parseSettings(args []string) (settings, error) {
 			}
 			s.provideContext = true
 			s.contextSize, err = strconv.Atoi(args[i+1])
+			if err != nil {
+				return s, err
+			}
 			i++
 		case "-e":
 			s.edFormat = true
@@ -97,8 +100,8 @@ func readLines(fn string) ([]string, error) {
 func main() {
 	settings, err := parseSettings(os.Args[1:])
 	if err != nil {
-		fmt.Fprintf(os.Stdout, "Oh heck an error: %s\n", err)
-		os.Exit(1)
+		fmt.Fprintf(os.Stderr, "Oh heck an error: %s\n", err)
+		os.Exit(2)
 	}
 
 	l1, err := readLines(settings.file1)
-- 
2.43.0


From 8b461ef3b99d609874895cc61124ea10341a4811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:38 +0000
Subject: [PATCH 06/47] fix: diff exits 1 when the files differ and prints
 nothing when they do not

---
 cmd/diff/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index 36b5af9..c0e4947 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -116,5 +116,8 @@ func main() {
 	}
 	changes := diff.Diff(l1, l2)
 
-	fmt.Println(diff.Format(changes))
+	if out := diff.Format(changes); out != "" {
+		fmt.Println(out)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From a3544f96c18b63f2fce96070586c8e82d3bd2b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:38 +0000
Subject: [PATCH 07/47] fix: diff compares whole lines, carriage returns
 included, of any length

---
 cmd/diff/main.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index c0e4947..6d865ff 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -3,8 +3,10 @@ package main
 import (
 	"bufio"
 	"fmt"
+	"io"
 	"os"
 	"strconv"
+	"strings"
 
 	"github.com/fwip/posix-utils/pkg/diff"
 )
@@ -89,12 +91,20 @@ func readLines(fn string) ([]string, error) {
 		return nil, err
 	}
 	defer f.Close()
-	scanner := bufio.NewScanner(f)
+	reader := bufio.NewReader(f)
 	lines := make([]string, 0)
-	for scanner.Scan() {
-		lines = append(lines, scanner.Text())
+	for {
+		line, err := reader.ReadString('\n')
+		if line != "" {
+			lines = append(lines, strings.TrimSuffix(line, "\n"))
+		}
+		if err == io.EOF {
+			return lines, nil
+		}
+		if err != nil {
+			return lines, err
+		}
 	}
-	return lines, scanner.Err()
 }
 
 func main() {
-- 
2.43.0


From b7f207377c9b12bc5b4988bbe134e03bd13f9c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:38 +0000
Subject: [PATCH 08/47] fix: head reads standard input when it has no operands

---
 cmd/head/main.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index d3d8a3a..20afd01 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -19,11 +19,6 @@ func parseSettings(args []string) (settings, error) {
 		//filenames: []string{"-"},
 	}
 
-	if len(args) == 0 {
-		return s, nil
-		//return settings{}, fmt.Errorf("No arguments")
-	}
-
 	for i := 0; i < len(args); i++ {
 		if args[i] == "-n" {
 			i++
-- 
2.43.0


From 90d694fac179e52d497836a497aa71eb12976ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:38 +0000
Subject: [PATCH 09/47] fix: head diagnoses -n without a count instead of
 crashing

---
 cmd/head/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index 20afd01..dd36fd1 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -22,6 +22,9 @@ func parseSettings(args []string) (settings, error) {
 	for i := 0; i < len(args); i++ {
 		if args[i] == "-n" {
 			i++
+			if i >= len(args) {
+				return s, fmt.Errorf("-n needs a number of lines")
+			}
 			n, err := strconv.Atoi(args[i])
 			if err != nil {
 				return s, err
-- 
2.43.0


From b7f4d2ac39055df735fea8845e04cf69f97ae25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:38 +0000
Subject: [PATCH 10/47] fix: head reports errors as diagnostics instead of
 crashing

---
 cmd/head/main.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index dd36fd1..c58901c 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -42,6 +42,11 @@ func parseSettings(args []string) (settings, error) {
 	return s, nil
 }
 
+func die(err error) {
+	fmt.Fprintf(os.Stderr, "head: %s\n", err)
+	os.Exit(1)
+}
+
 func process(s settings) {
 
 	for i, filename := range s.filenames {
@@ -58,7 +63,7 @@ func process(s settings) {
 		} else {
 			f, err = os.Open(filename)
 			if err != nil {
-				panic(err)
+				die(err)
 			}
 		}
 
@@ -69,7 +74,7 @@ func process(s settings) {
 			j++
 		}
 		if scan.Err() != nil {
-			panic(scan.Err())
+			die(scan.Err())
 		}
 	}
 
@@ -78,7 +83,7 @@ func process(s settings) {
 func main() {
 	s, err := parseSettings(os.Args[1:])
 	if err != nil {
-		panic(err)
+		die(err)
 	}
 	process(s)
 }
-- 
2.43.0


From 1eb11e23e70dcbb5a71a87f5a6f1bb59ccf56810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:38 +0000
Subject: [PATCH 11/47] fix: head copies its lines byte for byte and of any
 length

---
 cmd/head/main.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index c58901c..93dd24f 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -67,14 +67,16 @@ func process(s settings) {
 			}
 		}
 
-		scan := bufio.NewScanner(f)
-		j := 0
-		for scan.Scan() && j < s.numLines {
-			fmt.Println(scan.Text())
-			j++
-		}
-		if scan.Err() != nil {
-			die(scan.Err())
+		reader := bufio.NewReader(f)
+		for j := 0; j < s.numLines; j++ {
+			line, err := reader.ReadString('\n')
+			fmt.Print(line)
+			if err == io.EOF {
+				break
+			}
+			if err != nil {
+				die(err)
+			}
 		}
 	}
 
-- 
2.43.0


From 5820e513ce4f4064ed16f123bb4a883e3560b5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 12/47] fix: kill sends the requested signal, not always KILL

---
 cmd/kill/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index a186ba1..692d887 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"syscall"
 )
 
 var signalMap = map[string]int{
@@ -67,8 +68,7 @@ func main() {
 	if err != nil {
 		errorMsg("couldn't find process with PID of %d: %s\n", pid, err)
 	}
-	//err = process.Signal(syscall.Signal(signal))
-	err = process.Kill()
+	err = process.Signal(syscall.Signal(signal))
 	if err != nil {
 		errorMsg("couldn't send signal %d to %d, %s", signal, pid, err)
 	}
-- 
2.43.0


From fa75fe87ad79698a82030ee158d345e585b650a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 13/47] fix: kill -l lists the signal names and sends nothing;
 kill prints no debug output

---
 cmd/kill/main.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index 692d887..ec4fed3 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -5,6 +5,7 @@ package main
 import (
 	"fmt"
 	"os"
+	"sort"
 	"strconv"
 	"strings"
 	"syscall"
@@ -61,9 +62,14 @@ func main() {
 	}
 
 	if listSignals {
-
+		names := make([]string, 0, len(signalMap))
+		for name := range signalMap {
+			names = append(names, name)
+		}
+		sort.Strings(names)
+		fmt.Println(strings.Join(names, " "))
+		return
 	}
-	fmt.Println("sending", signal, "to", pid)
 	process, err := os.FindProcess(pid)
 	if err != nil {
 		errorMsg("couldn't find process with PID of %d: %s\n", pid, err)
@@ -72,6 +78,4 @@ func main() {
 	if err != nil {
 		errorMsg("couldn't send signal %d to %d, %s", signal, pid, err)
 	}
-
-	fmt.Println("vim-go")
 }
-- 
2.43.0


From 727d72b759d515745c06e0d596f20f17ee79d2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 14/47] fix: kill diagnoses -s without a name and an empty
 operand instead of crashing

---
 cmd/kill/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index ec4fed3..8a5c283 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -41,13 +41,16 @@ func main() {
 			listSignals = true
 		case "-s":
 			i++
+			if i >= len(os.Args) {
+				errorMsg("-s needs a signal name\n")
+			}
 			signalName := strings.ToUpper(os.Args[i])
 			signal, ok = signalMap[signalName]
 			if !ok {
 				errorMsg("%s is not a valid signal name - check kill -l for help\n", a)
 			}
 		default:
-			if a[0] == '-' {
+			if strings.HasPrefix(a, "-") {
 				signal, err = strconv.Atoi(a[1:])
 				if err != nil {
 					errorMsg("%s isn't a number, bro...", a)
-- 
2.43.0


From 9cc7a1b5147b2ec28f8b18c6a3bd79acf88c77f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 15/47] fix: kill signals every PID operand, not just the last

---
 cmd/kill/main.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index 8a5c283..fe70901 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -31,7 +31,7 @@ func main() {
 
 	listSignals := false
 	signal := 15
-	var pid int
+	var pids []int
 	var err error
 	var ok bool
 	for i := 1; i < len(os.Args); i++ {
@@ -56,10 +56,11 @@ func main() {
 					errorMsg("%s isn't a number, bro...", a)
 				}
 			} else {
-				pid, err = strconv.Atoi(a)
+				pid, err := strconv.Atoi(a)
 				if err != nil {
 					errorMsg("expected a PID here..., got %s", a)
 				}
+				pids = append(pids, pid)
 			}
 		}
 	}
@@ -73,12 +74,17 @@ func main() {
 		fmt.Println(strings.Join(names, " "))
 		return
 	}
-	process, err := os.FindProcess(pid)
-	if err != nil {
-		errorMsg("couldn't find process with PID of %d: %s\n", pid, err)
+	if len(pids) == 0 {
+		errorMsg("expected at least one PID\n")
 	}
-	err = process.Signal(syscall.Signal(signal))
-	if err != nil {
-		errorMsg("couldn't send signal %d to %d, %s", signal, pid, err)
+	for _, pid := range pids {
+		process, err := os.FindProcess(pid)
+		if err != nil {
+			errorMsg("couldn't find process with PID of %d: %s\n", pid, err)
+		}
+		err = process.Signal(syscall.Signal(signal))
+		if err != nil {
+			errorMsg("couldn't send signal %d to %d, %s", signal, pid, err)
+		}
 	}
 }
-- 
2.43.0


From 4849574779413e5c50600d1588a155e091d36579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 16/47] fix: locale prints values containing % verbatim

---
 cmd/locale/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/locale/main.go b/cmd/locale/main.go
index 23ecf52..95c63dd 100644
--- a/cmd/locale/main.go
+++ b/cmd/locale/main.go
@@ -4,5 +4,5 @@ import "fmt"
 import "github.com/fwip/posix-utils/pkg/locale"
 
 func main() {
-	fmt.Printf(locale.FromEnv().String())
+	fmt.Print(locale.FromEnv().String())
 }
-- 
2.43.0


From 6f1d4407aa0d15e5d6cc9363c34a0df3915a83c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 17/47] fix: naming an item on its own no longer drops its
 tsort constraints

---
 pkg/tsort/tsort.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/tsort/tsort.go b/pkg/tsort/tsort.go
index 7e10f0f..fe11884 100644
--- a/pkg/tsort/tsort.go
+++ b/pkg/tsort/tsort.go
@@ -23,7 +23,9 @@ func (s *Sorter) Add(items []string) {
 		return
 	}
 	if len(items) == 1 {
-		s.orderings[items[0]] = nil
+		if _, ok := s.orderings[items[0]]; !ok {
+			s.orderings[items[0]] = nil
+		}
 		return
 	}
 	for i := 0; i < len(items)-1; i++ {
-- 
2.43.0


From c7df8eef5df5b6c60a4f6a58e32927e74bd3bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 18/47] fix: tsort gives the same order on every run

---
 pkg/tsort/tsort.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/tsort/tsort.go b/pkg/tsort/tsort.go
index fe11884..04848c7 100644
--- a/pkg/tsort/tsort.go
+++ b/pkg/tsort/tsort.go
@@ -1,6 +1,9 @@
 package tsort
 
-import "fmt"
+import (
+	"fmt"
+	"sort"
+)
 
 type Sorter struct {
 	orderings map[string][]string
@@ -51,6 +54,7 @@ func (s *Sorter) heads() []string {
 	for k := range candidates {
 		out = append(out, k)
 	}
+	sort.Strings(out)
 
 	return out
 }
-- 
2.43.0


From e2192b5956d3b3e3af5dd42d5353af6492ebcf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 19/47] fix: an unknown option or a missing option argument is
 an error, not a crash

---
 pkg/flag/parse.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/flag/parse.go b/pkg/flag/parse.go
index ff5f5e5..a6b553e 100644
--- a/pkg/flag/parse.go
+++ b/pkg/flag/parse.go
@@ -42,10 +42,19 @@ func (p *Parser) Parse() (positionalArgs []string, err error) {
 				continue
 			}
 
+			_, isString := p.strings[c]
+			_, isInt := p.ints[c]
+			if !isString && !isInt {
+				return nil, fmt.Errorf("man what's happening")
+			}
+
 			// Argument may be either bundled or separate
 			value := arg[j+2:]
 			if len(value) == 0 {
 				i++
+				if i >= len(p.Input) {
+					return nil, fmt.Errorf("option -%c needs an argument", c)
+				}
 				value = p.Input[i]
 			}
 
@@ -60,7 +69,6 @@ func (p *Parser) Parse() (positionalArgs []string, err error) {
 				}
 				continue
 			}
-			return nil, fmt.Errorf("man what's happening")
 			//// non-boolean flags may only be bundled if they are the last
 			//if j != len(arg)-2 {
 			//	return nil, ErrBadBundle(fmt.Errorf("inappropriate bundling of %c in %s", c, arg))
-- 
2.43.0


From f9ecbde0abdab8d17f821ff42d56a71eeb1118c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 20/47] fix: the rest of a word used as an option argument is
 not parsed as more options

---
 pkg/flag/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/flag/parse.go b/pkg/flag/parse.go
index a6b553e..43d3469 100644
--- a/pkg/flag/parse.go
+++ b/pkg/flag/parse.go
@@ -60,14 +60,14 @@ func (p *Parser) Parse() (positionalArgs []string, err error) {
 
 			if flag, ok := p.strings[c]; ok {
 				flag.execute(value)
-				continue
+				break
 			}
 			if flag, ok := p.ints[c]; ok {
 				err := flag.execute(value)
 				if err != nil {
 					return nil, err
 				}
-				continue
+				break
 			}
 			//// non-boolean flags may only be bundled if they are the last
 			//if j != len(arg)-2 {
-- 
2.43.0


From e9e15ee37e9c099d34c0a2da56083dac1bd2aa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 21/47] fix: the bundled argument of a multi-byte option starts
 after the whole character

---
 pkg/flag/parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/flag/parse.go b/pkg/flag/parse.go
index 43d3469..a162159 100644
--- a/pkg/flag/parse.go
+++ b/pkg/flag/parse.go
@@ -3,6 +3,7 @@ package flag
 import (
 	"fmt"
 	"os"
+	"unicode/utf8"
 )
 
 // Parser does the hard work of assigning parses
@@ -49,7 +50,8 @@ func (p *Parser) Parse() (positionalArgs []string, err error) {
 			}
 
 			// Argument may be either bundled or separate
-			value := arg[j+2:]
+			_, size := utf8.DecodeRuneInString(arg[j+1:])
+			value := arg[j+1+size:]
 			if len(value) == 0 {
 				i++
 				if i >= len(p.Input) {
-- 
2.43.0


From bf810854647a8518ef891cd2c0433b7b9b22ab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 22/47] fix: a zero PieceTable takes more than one insertion
 and does not alias its caller

---
 pkg/txt/piece_table.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/txt/piece_table.go b/pkg/txt/piece_table.go
index b64520c..a5325c9 100644
--- a/pkg/txt/piece_table.go
+++ b/pkg/txt/piece_table.go
@@ -113,11 +113,14 @@ func (p *piece) append(pieces ...*piece) {
 func (pt *PieceTable) Insert(text []byte, at int) {
 	idx := 0
 	var prev *piece
+	if pt.append == nil {
+		pt.append = bytes.NewBuffer(nil)
+	}
 	if pt.head == nil {
 		pt.head = &piece{
 			length: len(text),
 			offset: 0,
-			reader: bytes.NewReader(text),
+			reader: bytes.NewReader(append([]byte(nil), text...)),
 		}
 		return
 	}
-- 
2.43.0


From cafb11e46c70eceafa343ab95aaedd7df2c5e72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 23/47] fix: PieceTable.Delete past the end removes everything
 from its start

---
 pkg/txt/piece_table.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/txt/piece_table.go b/pkg/txt/piece_table.go
index a5325c9..37369b1 100644
--- a/pkg/txt/piece_table.go
+++ b/pkg/txt/piece_table.go
@@ -180,6 +180,10 @@ func (pt *PieceTable) Delete(length int, at int) {
 			return
 		}
 	}
+	// The deletion runs past the end of the text
+	if first != nil {
+		first.next = nil
+	}
 	//panic(fmt.Errorf("at (%d) too big, max %d", at, end))
 }
 
-- 
2.43.0


From 16111aa4845038f32835ac05d9190aae9a29b88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 24/47] fix: NewEra reports a malformed offset

---
 pkg/locale/time.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/locale/time.go b/pkg/locale/time.go
index ffeb1c7..701e57e 100644
--- a/pkg/locale/time.go
+++ b/pkg/locale/time.go
@@ -65,7 +65,7 @@ func NewEra(input string) (Era, error) {
 	// Offset
 	offset, err := strconv.Atoi(parts[1])
 	if err != nil {
-		return Era{}, nil
+		return Era{}, err
 	}
 	era.offset = offset
 
-- 
2.43.0


From 4b0dfd305ca8fc428064cba4a538af46a4b9c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 25/47] fix: an unterminated string in a locale definition is
 an error, not an endless loop

---
 pkg/locale/localelex.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index 45bedc3..a6e4e0a 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -340,7 +340,7 @@ func grabString(l *lexer.L) (ok bool) {
 			l.Emit('"')
 			return true
 		}
-		if r == '\n' {
+		if r == '\n' || r == lexer.EOFRune {
 			l.Error(fmt.Sprintf("Aww jeez. Got a newline before an end quote"))
 			return false
 		}
@@ -369,7 +369,11 @@ func grabMsg(l *lexer.L) (ok bool) {
 		return false
 	}
 	l.Emit('"')
-	for l.Next() != '"' {
+	for r := l.Next(); r != '"'; r = l.Next() {
+		if r == '\n' || r == lexer.EOFRune {
+			l.Error("Aww jeez. Ran out of line before an end quote")
+			return false
+		}
 	}
 	l.Rewind()
 	l.Emit(EXTENDED_REG_EXP)
-- 
2.43.0


From f68b5de17e4e1434dbd536fdd7b22a9f46eacee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:45 +0000
Subject: [PATCH 26/47] fix: ed keeps its debugging output off standard output

---
 pkg/ed/ed.go     | 5 +----
 pkg/ed/ed.peg    | 2 +-
 pkg/ed/ed.peg.go | 3 +--
 3 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index df49cf7..a615ba2 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -52,8 +52,6 @@ func (ed *Itor) Write() error {
 	var err error
 
 	tmpName := ed.filename + ".swp"
-	fmt.Printf("f is '%s', tmp is '%s'\n", ed.filename, tmpName)
-
 	stat, err := os.Stat(ed.filename)
 	if err != nil {
 		debug("cannae stat", ed.filename)
@@ -239,13 +237,12 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 			p.Execute()
 		}
 		if s.Err() != nil {
-			fmt.Println("Err:", s.Err())
+			debug("Err:", s.Err())
 		}
 		close(cmds)
 	}()
 
 	for cmd := range cmds {
-		fmt.Println("cmd", cmd)
 		// Special-case quit command for now
 		if cmd.typ == ctquit {
 			break // TODO: checking
diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 26da4ad..4dadc68 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -64,7 +64,7 @@ shellCmd <- '!' <param> {
 # A null command works as a print
 nullCmd <- startAddr?
 
-text <- <(!textTerm .)*> textTerm {p.curCmd.text = buffer[begin:end]; fmt.Println("t", p.curCmd.text)}
+text <- <(!textTerm .)*> textTerm {p.curCmd.text = buffer[begin:end]}
 
 textTerm <- '\n.'
 
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index 5882678..c244f0f 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -448,7 +448,6 @@ func (p *Parser) Execute() {
 
 		case ruleAction8:
 			p.curCmd.text = buffer[begin:end]
-			fmt.Println("t", p.curCmd.text)
 		case ruleAction9:
 			p.curCmd.end = p.curCmd.start
 		case ruleAction10:
@@ -2305,7 +2304,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 48 Action8 <- <{p.curCmd.text = buffer[begin:end]; fmt.Println("t", p.curCmd.text)}> */
+		/* 48 Action8 <- <{p.curCmd.text = buffer[begin:end]}> */
 		func() bool {
 			{
 				add(ruleAction8, position)
-- 
2.43.0


From b47bb2bb2bedfbe99a95a1306b18a0c9dfdd3c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:46 +0000
Subject: [PATCH 27/47] fix: ed answers unparsable commands in order, from the
 goroutine that owns the output

---
 pkg/ed/command.go | 1 +
 pkg/ed/ed.go      | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/ed/command.go b/pkg/ed/command.go
index 0df7ebe..f627862 100644
--- a/pkg/ed/command.go
+++ b/pkg/ed/command.go
@@ -8,6 +8,7 @@ type Command struct {
 	dest   address
 	text   string
 	params []string
+	err    error // set when the command line could not be parsed
 }
 
 type cmdType byte
diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index a615ba2..e9baf63 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -230,7 +230,7 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 			err := p.Parse()
 			if err != nil {
 				//fmt.Println("Err!", err)
-				w.Write([]byte("?" + err.Error() + "\n"))
+				cmds <- Command{err: err}
 				//close(cmds)
 				continue
 			}
@@ -243,6 +243,10 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 	}()
 
 	for cmd := range cmds {
+		if cmd.err != nil {
+			w.Write([]byte("?" + cmd.err.Error() + "\n"))
+			continue
+		}
 		// Special-case quit command for now
 		if cmd.typ == ctquit {
 			break // TODO: checking
-- 
2.43.0


From 66d1a3a03bc326e96ecace40c23d80cf8d3ccbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:47 +0000
Subject: [PATCH 28/47] fix: ed Q quits

---
 pkg/ed/ed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index e9baf63..119bdc6 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -248,7 +248,7 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 			continue
 		}
 		// Special-case quit command for now
-		if cmd.typ == ctquit {
+		if cmd.typ == ctquit || cmd.typ == ctquitForce {
 			break // TODO: checking
 		}
 		result := ed.processCommand(cmd)
-- 
2.43.0


From c89077390f2d33b5962113722fc014780b76743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:48 +0000
Subject: [PATCH 29/47] fix: ed counts blank last lines, carriage returns and
 long lines as what they are

---
 pkg/ed/ed.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 119bdc6..4336e9c 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -157,20 +157,12 @@ func (ed *Itor) getLineAddr(num int) int {
 
 func (ed *Itor) getLines() (lines []string) {
 	// Retrieve the piece table's output and tokenize into lines
-	s := bufio.NewScanner(strings.NewReader(ed.pt.String()))
-	for s.Scan() {
-		lines = append(lines, s.Text())
+	text := ed.pt.String()
+	if text == "" {
+		return nil
 	}
-	if s.Err() != nil {
-		panic(s.Err())
-	}
-
-	// If there's an empty line at the end, remove it
-	// This happens when the file ends in a newline character
-	if len(lines) > 0 && lines[len(lines)-1] == "" {
-		lines = lines[:len(lines)-1]
-	}
-	return lines
+	// The last newline ends the last line, it does not start another
+	return strings.Split(strings.TrimSuffix(text, "\n"), "\n")
 }
 
 func (ed *Itor) regexMatch(re string) (line int, found bool) {
-- 
2.43.0


From f5502efc67bbe2799f477de098c96a1e7fda4320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:49 +0000
Subject: [PATCH 30/47] fix: ed can show an empty buffer

---
 pkg/ed/ed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 4336e9c..ea00af1 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -118,7 +118,7 @@ func (ed *Itor) number(start, end int) string {
 func (ed *Itor) String() string {
 	s := ed.pt.String()
 	// POSIX requires a file to end with a newline
-	if s[len(s)-1] != '\n' {
+	if !strings.HasSuffix(s, "\n") {
 		s += "\n"
 	}
 	return s
-- 
2.43.0


From a17f808c1963cfb6d56175d66a24048693a7ab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:49 +0000
Subject: [PATCH 31/47] fix: ed appends after a last line that has no newline

---
 pkg/ed/ed.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index ea00af1..fd778d1 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -126,6 +126,10 @@ func (ed *Itor) String() string {
 
 func (ed *Itor) insertBeforeLine(lineNum int, text string) {
 	at := ed.getLineAddr(lineNum)
+	if length := len(ed.pt.String()); at > length {
+		// The last line has no newline yet
+		text, at = "\n"+text, length
+	}
 	ed.pt.Insert([]byte(text+"\n"), at)
 }
 
-- 
2.43.0


From e30f076921464ced15496cf030391321af840190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:50 +0000
Subject: [PATCH 32/47] fix: an ed search visits every line once, in any buffer

---
 pkg/ed/ed.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index fd778d1..3a8c517 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -177,15 +177,12 @@ func (ed *Itor) regexMatch(re string) (line int, found bool) {
 		debug(err)
 		return -1, false
 	}
-	n := (ed.currentLine % len(lines)) + 1
-	for ; ; n = (n % len(lines)) + 1 {
+	for i := 0; i < len(lines); i++ {
+		n := (ed.currentLine+i)%len(lines) + 1
 		debug("n is", n)
 		if regex.Match([]byte(lines[n-1])) {
 			return n, true
 		}
-		if n == ed.currentLine {
-			return -1, false
-		}
 	}
 	return -1, false
 }
-- 
2.43.0


From 28efd685c52ad00c96924ffa4242e8283ca9b73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:51 +0000
Subject: [PATCH 33/47] fix: ed resolves offsets and rejects bad addresses
 instead of crashing

---
 pkg/ed/ed.go | 112 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 94 insertions(+), 18 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 3a8c517..6b1b5b3 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -249,32 +249,71 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 	}
 }
 
-func (ed *Itor) addrLine(a address) int {
+// offsetSuffix is the part of an address that moves it, as in $-10
+var offsetSuffix = regexp.MustCompile(`[+-][0-9]*$`)
+
+func (ed *Itor) addrLine(a address) (int, error) {
 	var line int
+	text := strings.TrimSpace(a.text)
+	suffix := offsetSuffix.FindString(text)
+	text = strings.TrimSuffix(text, suffix)
+	offset, err := parseOffset(suffix)
+	if err != nil {
+		return 0, err
+	}
 	switch a.typ {
 	case lCurrent:
 		line = ed.currentLine
 	case lNum:
-		n, _ := strconv.Atoi(a.text)
+		n, err := strconv.Atoi(text)
+		if err != nil {
+			return 0, err
+		}
 		line = n
 	case lLast:
 		n := len(ed.getLines())
 		line = n
 	case lRegex:
-		regex := strings.Trim(a.text, "/")
+		regex := strings.TrimPrefix(strings.TrimSuffix(text, "/"), "/")
 		n, found := ed.regexMatch(regex)
 		line = n
 		if !found {
-			debug("oh no we don't have any way to communicate the invalid address")
+			return 0, fmt.Errorf("no match for %s", text)
 		}
 	//case lRegexReverse:
 	//n := ed.regexMatchReverse(a.text)
 	//line = n
 	default:
-		panic("Dunno a bout address")
+		return 0, fmt.Errorf("Dunno a bout address %s", a.text)
 	}
 
-	return line + a.offset
+	return line + a.offset + offset, nil
+}
+
+// parseOffset converts the moving part of an address, in which a lone sign means one line
+func parseOffset(suffix string) (int, error) {
+	switch suffix {
+	case "":
+		return 0, nil
+	case "+", "-":
+		suffix += "1"
+	}
+	return strconv.Atoi(suffix)
+}
+
+// addrLines resolves a pair of addresses, which must lie in order in the buffer.
+// first is 0 for the commands that may address the start of the buffer, 1 for the others.
+func (ed *Itor) addrLines(a, b address, first int) (start, end int, err error) {
+	if start, err = ed.addrLine(a); err != nil {
+		return 0, 0, err
+	}
+	if end, err = ed.addrLine(b); err != nil {
+		return 0, 0, err
+	}
+	if start < first || start > end || end > len(ed.getLines()) {
+		return 0, 0, fmt.Errorf("invalid address")
+	}
+	return start, end, nil
 }
 
 func linesIn(s string) int {
@@ -303,12 +342,23 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 
 	case ctprint:
-		return ed.Print(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		start, end, err := ed.addrLines(cmd.start, cmd.end, 1)
+		if err != nil {
+			return "?" + err.Error()
+		}
+		return ed.Print(start, end)
 
 	case ctnumber:
-		return ed.number(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		start, end, err := ed.addrLines(cmd.start, cmd.end, 1)
+		if err != nil {
+			return "?" + err.Error()
+		}
+		return ed.number(start, end)
 	case ctnull:
-		lineNum := ed.addrLine(cmd.start)
+		lineNum, _, err := ed.addrLines(cmd.start, cmd.start, 1)
+		if err != nil {
+			return "?" + err.Error()
+		}
 		ed.currentLine = lineNum
 		return ed.Print(lineNum, lineNum)
 
@@ -319,30 +369,56 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 
 	case ctdelete:
-		err := ed.Delete(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		start, end, err := ed.addrLines(cmd.start, cmd.end, 1)
+		if err != nil {
+			return "?" + err.Error()
+		}
+		err = ed.Delete(start, end)
 		if err != nil {
 			return "?" + err.Error()
 		}
-		ed.currentLine = ed.addrLine(cmd.start)
+		ed.currentLine = start
+		if last := len(ed.getLines()); ed.currentLine > last {
+			ed.currentLine = last
+		}
 
 	case ctappend:
-		start := ed.addrLine(cmd.start) + 1
-		ed.insertBeforeLine(start, cmd.text)
+		start, _, err := ed.addrLines(cmd.start, cmd.start, 0)
+		if err != nil {
+			return "?" + err.Error()
+		}
+		ed.insertBeforeLine(start+1, cmd.text)
 		ed.currentLine = start + linesIn(cmd.text)
 
 	case ctinsert:
-		ed.insertBeforeLine(ed.addrLine(cmd.start), cmd.text)
+		start, _, err := ed.addrLines(cmd.start, cmd.start, 0)
+		if err != nil {
+			return "?" + err.Error()
+		}
+		if start == 0 {
+			start = 1
+		}
+		ed.insertBeforeLine(start, cmd.text)
+		ed.currentLine = start - 1 + linesIn(cmd.text)
 
 	case ctchange:
-		err := ed.Delete(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		start, end, err := ed.addrLines(cmd.start, cmd.end, 1)
+		if err != nil {
+			return "?" + err.Error()
+		}
+		err = ed.Delete(start, end)
 		if err != nil {
 			return "?" + err.Error()
 		}
-		ed.insertBeforeLine(ed.addrLine(cmd.start), cmd.text)
-		ed.currentLine = ed.addrLine(cmd.start) + linesIn(cmd.text)
+		ed.insertBeforeLine(start, cmd.text)
+		ed.currentLine = start - 1 + linesIn(cmd.text)
 
 	case ctlineNumber:
-		return strconv.Itoa(ed.addrLine(cmd.start))
+		line, _, err := ed.addrLines(cmd.start, cmd.start, 0)
+		if err != nil {
+			return "?" + err.Error()
+		}
+		return strconv.Itoa(line)
 
 	default:
 		return "? (NYI)"
-- 
2.43.0


From 64ab98b18a8bba7603fff7e4568cdf0e9190e14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:57 +0000
Subject: [PATCH 34/47] fix: ed makes the last line it prints the current line

---
 pkg/ed/ed.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 6b1b5b3..6b0f164 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -346,6 +346,7 @@ func (ed *Itor) processCommand(cmd Command) string {
 		if err != nil {
 			return "?" + err.Error()
 		}
+		ed.currentLine = end
 		return ed.Print(start, end)
 
 	case ctnumber:
@@ -353,6 +354,7 @@ func (ed *Itor) processCommand(cmd Command) string {
 		if err != nil {
 			return "?" + err.Error()
 		}
+		ed.currentLine = end
 		return ed.number(start, end)
 	case ctnull:
 		lineNum, _, err := ed.addrLines(cmd.start, cmd.start, 1)
-- 
2.43.0


From 1cbff44d7a0fbd10af5f582384c82d4b874831a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:58 +0000
Subject: [PATCH 35/47] fix: ed reads a file when it opens it, so an unreadable
 or changing file cannot crash it later

---
 pkg/ed/ed.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 6b0f164..8c2e902 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -80,20 +80,15 @@ func (ed *Itor) Edit(filename string, force bool) error {
 	if !force && ed.unsaved() {
 		panic("oh no you haven't saved")
 	}
-	f, err := os.Open(filename)
+	data, err := ioutil.ReadFile(filename)
 	if err != nil {
 		debug("cannae open", err)
 		return err
 	}
-	stat, err := f.Stat()
-	if err != nil {
-		debug("cannae stat", err)
-		return err
-	}
 
 	debug("setting filename")
 	ed.filename = filename
-	ed.pt = txt.NewPieceTable(f, int(stat.Size()))
+	ed.pt = txt.NewPieceTable(bytes.NewReader(data), len(data))
 	ed.currentLine = len(ed.getLines())
 
 	return nil
-- 
2.43.0


From 3acca708cd2c17237f22be6e5403ced46212545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:59 +0000
Subject: [PATCH 36/47] fix: ed w keeps the buffer when it fails, flushes
 before it replaces the file and spares other files

---
 pkg/ed/ed.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 8c2e902..ebe44e6 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"io/ioutil"
 	"os"
+	"path/filepath"
 	"regexp"
 	"strconv"
 	"strings"
@@ -47,20 +48,31 @@ func (ed *Itor) closeFile() error {
 
 func (ed *Itor) Write() error {
 	data := ed.pt.String()
-	ed.closeFile()
 
 	var err error
 
-	tmpName := ed.filename + ".swp"
 	stat, err := os.Stat(ed.filename)
 	if err != nil {
 		debug("cannae stat", ed.filename)
 		return err
 	}
 	mode := stat.Mode()
-	//defer os.Remove(tmp.Name())
 
-	err = ioutil.WriteFile(tmpName, []byte(data), os.FileMode(mode))
+	tmp, err := ioutil.TempFile(filepath.Dir(ed.filename), filepath.Base(ed.filename)+".swp")
+	if err != nil {
+		return err
+	}
+	tmpName := tmp.Name()
+	_, err = tmp.Write([]byte(data))
+	if err == nil {
+		err = tmp.Chmod(os.FileMode(mode))
+	}
+	if err == nil {
+		err = tmp.Sync()
+	}
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
 	if err != nil {
 		os.Remove(tmpName)
 		return err
@@ -70,8 +82,7 @@ func (ed *Itor) Write() error {
 		os.Remove(tmpName)
 		return err
 	}
-
-	return ed.Edit(ed.filename, false)
+	return nil
 }
 
 // Edit opens a new file to edit!
-- 
2.43.0


From 9b3a63307be81c700d880e797d1b8f81ea4e90b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:59 +0000
Subject: [PATCH 37/47] fix: ed w honours its addresses and its file operand

---
 pkg/ed/ed.go | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index ebe44e6..4a4c59c 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -46,26 +46,32 @@ func (ed *Itor) closeFile() error {
 	return nil
 }
 
+// Write saves the whole buffer in the current file
 func (ed *Itor) Write() error {
-	data := ed.pt.String()
+	return writeFile(ed.filename, ed.pt.String())
+}
 
+// writeFile replaces the contents of a file, or creates it, all at once
+func writeFile(filename, data string) error {
 	var err error
 
-	stat, err := os.Stat(ed.filename)
-	if err != nil {
-		debug("cannae stat", ed.filename)
+	mode := os.FileMode(0644)
+	stat, err := os.Stat(filename)
+	if err == nil {
+		mode = stat.Mode()
+	} else if !os.IsNotExist(err) || filename == "" {
+		debug("cannae stat", filename)
 		return err
 	}
-	mode := stat.Mode()
 
-	tmp, err := ioutil.TempFile(filepath.Dir(ed.filename), filepath.Base(ed.filename)+".swp")
+	tmp, err := ioutil.TempFile(filepath.Dir(filename), filepath.Base(filename)+".swp")
 	if err != nil {
 		return err
 	}
 	tmpName := tmp.Name()
 	_, err = tmp.Write([]byte(data))
 	if err == nil {
-		err = tmp.Chmod(os.FileMode(mode))
+		err = tmp.Chmod(mode)
 	}
 	if err == nil {
 		err = tmp.Sync()
@@ -77,7 +83,7 @@ func (ed *Itor) Write() error {
 		os.Remove(tmpName)
 		return err
 	}
-	err = os.Rename(tmpName, ed.filename)
+	err = os.Rename(tmpName, filename)
 	if err != nil {
 		os.Remove(tmpName)
 		return err
@@ -335,6 +341,7 @@ func linesIn(s string) int {
 func (ed *Itor) processCommand(cmd Command) string {
 	var err error
 
+	addressed := cmd.start.typ != lNull
 	cmd = setDefaultAddresses(cmd)
 	switch cmd.typ {
 	case ctedit:
@@ -371,10 +378,24 @@ func (ed *Itor) processCommand(cmd Command) string {
 		return ed.Print(lineNum, lineNum)
 
 	case ctwrite:
-		err = ed.Write()
+		filename, data := ed.filename, ed.pt.String()
+		if cmd.text != "" {
+			filename = cmd.text
+		}
+		if addressed {
+			start, end, err := ed.addrLines(cmd.start, cmd.end, 1)
+			if err != nil {
+				return "?" + err.Error()
+			}
+			data = ed.Print(start, end) + "\n"
+		}
+		err = writeFile(filename, data)
 		if err != nil {
 			return "?" + err.Error()
 		}
+		if ed.filename == "" {
+			ed.filename = filename
+		}
 
 	case ctdelete:
 		start, end, err := ed.addrLines(cmd.start, cmd.end, 1)
-- 
2.43.0


From b9fd2c0f95c13a72e24fb0086a550ba3c4b1923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:15 +0000
Subject: [PATCH 38/47] fix: cmp reports a failure to read its second file when
 the first has ended

---
 cmd/cmp/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index 2efc3da..57f1b27 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -85,6 +85,10 @@ func cmp(s settings) error {
 		if err1 == io.EOF && err2 == io.EOF {
 			break
 		}
+		// A failure to read is trouble even when the other file has ended
+		if err2 != nil && err2 != io.EOF {
+			return fmt.Errorf("Error reading %s: %s", s.file2, err2)
+		}
 		if err1 != nil {
 			if err1 == io.EOF {
 				if !s.silent {
-- 
2.43.0


From e94784bfa2b037281623f4c2201f78c69d906d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:04 +0000
Subject: [PATCH 39/47] fix: ed: take text, file names and addresses by rune,
 as the parser counts them

---
 pkg/ed/ed.peg    | 16 ++++++++--------
 pkg/ed/ed.peg.go | 32 ++++++++++++++++----------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 4dadc68..b2f5458 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -38,19 +38,19 @@ addTextCmd <- startAddr? addTextC newLine text
 
 markCmd <- startAddr? 'k' <[a-z]> {
   p.curCmd.typ = ctmark
-  p.curCmd.params = []string{buffer[begin:end]}
+  p.curCmd.params = []string{text}
 }
 
 destCmd <- range? destC <addrO> {p.curCmd.dest = p.curAddr ; p.curAddr = address{}}
 
 readCmd <- startAddr? 'r' sp <param> {
   p.curCmd.typ = ctread
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
 
 writeCmd <- range? 'w' sp <param> {
   p.curCmd.typ = ctwrite
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
           / range? 'w' {
   p.curCmd.typ = ctwrite
@@ -58,13 +58,13 @@ writeCmd <- range? 'w' sp <param> {
 
 shellCmd <- '!' <param> {
   p.curCmd.typ = ctshell
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
 
 # A null command works as a print
 nullCmd <- startAddr?
 
-text <- <(!textTerm .)*> textTerm {p.curCmd.text = buffer[begin:end]}
+text <- <(!textTerm .)*> textTerm {p.curCmd.text = text}
 
 textTerm <- '\n.'
 
@@ -81,14 +81,14 @@ range <- startAddr ',' endAddr
        / sp* ';' sp*           {p.curCmd.start = aCur; p.curCmd.end = aLast}
 
 
-addrCmd <- <startAddr> addrC {p.curCmd.start.text = buffer[begin:end]}
+addrCmd <- <startAddr> addrC {p.curCmd.start.text = text}
          / addrC
 
 # Addresses
 startAddr <- sp* addrO sp* {p.curCmd.start = p.curAddr; p.curAddr = address{}}
 endAddr <- sp* addrO sp* {p.curCmd.end = p.curAddr; p.curAddr = address{}}
 
-addrO <- <addr offset?>  {p.curAddr.text = buffer[begin:end]}
+addrO <- <addr offset?>  {p.curAddr.text = text}
 
 addr <- literalAddr
       / markAddr
@@ -120,7 +120,7 @@ bareCmd <- 'h' {p.curCmd.typ = cthelp}
 
 offset <- ('+'/'-') [0-9]*
 
-paramCmd <- paramC sp <param> { p.curCmd.params = []string{buffer[begin:end]}}
+paramCmd <- paramC sp <param> { p.curCmd.params = []string{text}}
           / paramC
 
 paramC <- 'e' {p.curCmd.typ = ctedit}
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index c244f0f..f3480c9 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -422,7 +422,7 @@ func (p *Parser) Execute() {
 		case ruleAction2:
 
 			p.curCmd.typ = ctmark
-			p.curCmd.params = []string{buffer[begin:end]}
+			p.curCmd.params = []string{text}
 
 		case ruleAction3:
 			p.curCmd.dest = p.curAddr
@@ -430,12 +430,12 @@ func (p *Parser) Execute() {
 		case ruleAction4:
 
 			p.curCmd.typ = ctread
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction5:
 
 			p.curCmd.typ = ctwrite
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction6:
 
@@ -444,10 +444,10 @@ func (p *Parser) Execute() {
 		case ruleAction7:
 
 			p.curCmd.typ = ctshell
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction8:
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 		case ruleAction9:
 			p.curCmd.end = p.curCmd.start
 		case ruleAction10:
@@ -465,7 +465,7 @@ func (p *Parser) Execute() {
 			p.curCmd.start = aCur
 			p.curCmd.end = aLast
 		case ruleAction16:
-			p.curCmd.start.text = buffer[begin:end]
+			p.curCmd.start.text = text
 		case ruleAction17:
 			p.curCmd.start = p.curAddr
 			p.curAddr = address{}
@@ -473,7 +473,7 @@ func (p *Parser) Execute() {
 			p.curCmd.end = p.curAddr
 			p.curAddr = address{}
 		case ruleAction19:
-			p.curAddr.text = buffer[begin:end]
+			p.curAddr.text = text
 		case ruleAction20:
 			p.curAddr.typ = lCurrent
 		case ruleAction21:
@@ -499,7 +499,7 @@ func (p *Parser) Execute() {
 		case ruleAction31:
 			p.curCmd.typ = ctundo
 		case ruleAction32:
-			p.curCmd.params = []string{buffer[begin:end]}
+			p.curCmd.params = []string{text}
 		case ruleAction33:
 			p.curCmd.typ = ctedit
 		case ruleAction34:
@@ -2250,7 +2250,7 @@ func (p *Parser) Init() {
 		nil,
 		/* 42 Action2 <- <{
 		  p.curCmd.typ = ctmark
-		  p.curCmd.params = []string{buffer[begin:end]}
+		  p.curCmd.params = []string{text}
 		}> */
 		func() bool {
 			{
@@ -2267,7 +2267,7 @@ func (p *Parser) Init() {
 		},
 		/* 44 Action4 <- <{
 		  p.curCmd.typ = ctread
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2277,7 +2277,7 @@ func (p *Parser) Init() {
 		},
 		/* 45 Action5 <- <{
 		  p.curCmd.typ = ctwrite
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2296,7 +2296,7 @@ func (p *Parser) Init() {
 		},
 		/* 47 Action7 <- <{
 		  p.curCmd.typ = ctshell
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2304,7 +2304,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 48 Action8 <- <{p.curCmd.text = buffer[begin:end]}> */
+		/* 48 Action8 <- <{p.curCmd.text = text}> */
 		func() bool {
 			{
 				add(ruleAction8, position)
@@ -2360,7 +2360,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 56 Action16 <- <{p.curCmd.start.text = buffer[begin:end]}> */
+		/* 56 Action16 <- <{p.curCmd.start.text = text}> */
 		func() bool {
 			{
 				add(ruleAction16, position)
@@ -2381,7 +2381,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 59 Action19 <- <{p.curAddr.text = buffer[begin:end]}> */
+		/* 59 Action19 <- <{p.curAddr.text = text}> */
 		func() bool {
 			{
 				add(ruleAction19, position)
@@ -2472,7 +2472,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 72 Action32 <- <{ p.curCmd.params = []string{buffer[begin:end]}}> */
+		/* 72 Action32 <- <{ p.curCmd.params = []string{text}}> */
 		func() bool {
 			{
 				add(ruleAction32, position)
-- 
2.43.0


From bd9b57f0c08caa3c8d6ce769fca6665f470011fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:55 +0000
Subject: [PATCH 40/47] fix: ed: only a line that is a lone dot ends the text
 of a, i and c

---
 pkg/ed/ed.peg    | 2 +-
 pkg/ed/ed.peg.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index b2f5458..307d312 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -66,7 +66,7 @@ nullCmd <- startAddr?
 
 text <- <(!textTerm .)*> textTerm {p.curCmd.text = text}
 
-textTerm <- '\n.'
+textTerm <- '\n.' &'\n'
 
 rangeCmd <- range? sp* rangeC
 
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index f3480c9..614d26c 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -1083,7 +1083,7 @@ func (p *Parser) Init() {
 			position, tokenIndex = position64, tokenIndex64
 			return false
 		},
-		/* 12 textTerm <- <('\n' '.')> */
+		/* 12 textTerm <- <('\n' '.' &'\n')> */
 		func() bool {
 			position70, tokenIndex70 := position, tokenIndex
 			{
@@ -1096,6 +1096,9 @@ func (p *Parser) Init() {
 					goto l70
 				}
 				position++
+				if buffer[position] != rune('\n') {
+					goto l70
+				}
 				add(ruletextTerm, position71)
 			}
 			return true
-- 
2.43.0


From b675838b9cc25b09583be99874587702adacb226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:55 +0000
Subject: [PATCH 41/47] fix: ed: answer a failed e with ?, like every other
 failure

---
 pkg/ed/ed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 4a4c59c..40e9710 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -351,7 +351,7 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 		err = ed.Edit(filename, false)
 		if err != nil {
-			return err.Error()
+			return "?" + err.Error()
 		}
 
 	case ctprint:
-- 
2.43.0


From fb9e7b6bf6d4424f357bdd205b715b47360cf7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:58 +0000
Subject: [PATCH 42/47] fix: ed: collect the text of a, i and c after every
 kind of address

---
 pkg/ed/ed.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 40e9710..7bdc32f 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -15,8 +15,10 @@ import (
 	"github.com/fwip/posix-utils/pkg/txt"
 )
 
-// TODO: This is not comprehensive.
-var multlineCmdStart = regexp.MustCompile(`^\s*[0-9.$]*\s*,?\s*[0-9.$]*\s*[aic]\s*$`)
+// addrPattern matches one address
+const addrPattern = `([0-9]+|[.$]|'[a-z]|/(\\/|[^/])+/|\?(\\\?|[^?])+\?)([+-][0-9]*)?`
+
+var multlineCmdStart = regexp.MustCompile(`^\s*(` + addrPattern + `)?\s*([,;]\s*(` + addrPattern + `)?)?\s*[aic]\s*$`)
 
 func debug(args ...interface{}) {
 	fmt.Fprintln(os.Stderr, args...)
-- 
2.43.0


From 610f77747d4992e63b87b2182443c934b1328ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:36 +0000
Subject: [PATCH 43/47] fix: an unknown word in LC_COLLATE is an error, not an
 endless loop, and collating-element is recognised

---
 pkg/locale/localelex.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index a6e4e0a..d546a37 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -384,7 +384,7 @@ func grabMsg(l *lexer.L) (ok bool) {
 
 func sCollateCategory(l *lexer.L) lexer.StateFunc {
 	grabWhitespace(l)
-	l.Take(upperChars + lowerChars + "_")
+	l.Take(upperChars + lowerChars + "_-")
 	word := l.Current()
 	switch word {
 	case "END":
@@ -420,6 +420,8 @@ func sCollateCategory(l *lexer.L) lexer.StateFunc {
 		must(grabString, l)
 		grabWhitespace(l)
 		must(grabNewline, l)
+	default:
+		l.Error(fmt.Sprintf("unexpected keyword '%s'", word))
 	}
 
 	return sCollateCategory
@@ -438,6 +440,8 @@ func sCollateOrderStart(l *lexer.L) lexer.StateFunc {
 		l.Emit(BACKWARD_STR)
 	case "position":
 		l.Emit(POSITION_STR)
+	default:
+		l.Error(fmt.Sprintf("unexpected keyword '%s'", l.Current()))
 	}
 	return sCollateOrderStart
 }
-- 
2.43.0


From 784aa5aa22129acec4e6bf292b0b963b1235db99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:36 +0000
Subject: [PATCH 44/47] fix: a locale definition that ends in an escape
 character no longer crashes the lexer

---
 pkg/locale/localelex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index d546a37..831e064 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -529,7 +529,7 @@ func removeComments(input string) string {
 				if lastRune == utf8.RuneError {
 					panic(fmt.Errorf("couldn't read last rune of '%s'", l))
 				}
-				if lastRune != escapeChar {
+				if lastRune != escapeChar || i+1 == len(lines) {
 					break
 				}
 				i++
-- 
2.43.0


From 889f307ac165fd1a377eb9140ff1019f9c4f134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:36 +0000
Subject: [PATCH 45/47] fix: a comment_char line is not lexed as the beginning
 of a category

---
 pkg/locale/localelex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index 831e064..186f559 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -520,7 +520,9 @@ func removeComments(input string) string {
 			continue
 		}
 		// Check for escape/comment_char redefinition
-		checkSpecialWord(l, "comment_char", &commentChar)
+		if checkSpecialWord(l, "comment_char", &commentChar) {
+			continue
+		}
 		if !checkSpecialWord(l, "escape_char", &escapeChar) {
 
 			// Join newlines if they end with escape character
-- 
2.43.0


From 204cb11aa60e4340bf9928a423ee48174a5d6e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:38 +0000
Subject: [PATCH 46/47] fix: a repeated element of an expression stops at the
 first character it does not match

---
 pkg/regexes/bre_evaluate.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pkg/regexes/bre_evaluate.go b/pkg/regexes/bre_evaluate.go
index 1030c1d..f1104fe 100644
--- a/pkg/regexes/bre_evaluate.go
+++ b/pkg/regexes/bre_evaluate.go
@@ -41,13 +41,8 @@ func elementsMatch(elements []breDuplElement, runes []rune) (matches bool, match
 	matched := 0
 
 	// Find how many runes match the current element
-	for i := 0; i < e.count.max && i < len(runes); i++ {
-		if e.element.Matches(runes[i]) {
-			matched++
-		} else if matched < e.count.min {
-			// Return early if we don't have at least the minimum matches
-			return false, 0
-		}
+	for matched < e.count.max && matched < len(runes) && e.element.Matches(runes[matched]) {
+		matched++
 	}
 
 	// Check remainder of matches, backtracking when necessary
-- 
2.43.0


From 52cfdc79999262aae2fc0dcb7c6a5ea06e8784f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:38 +0000
Subject: [PATCH 47/47] fix: $ asks for a match that reaches the end of the
 text

---
 pkg/regexes/bre_evaluate.go | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/pkg/regexes/bre_evaluate.go b/pkg/regexes/bre_evaluate.go
index f1104fe..2a612e8 100644
--- a/pkg/regexes/bre_evaluate.go
+++ b/pkg/regexes/bre_evaluate.go
@@ -4,37 +4,26 @@ package regexes
 func (bre Bre) Matches(input string) bool {
 	runes := []rune(input)
 
-	if bre.anchorLeft || len(input) == 0 {
-		match, length := elementsMatch(bre.elements, runes)
-		if !match {
-			return false
-		}
-		if bre.anchorRight {
-			return length == len(runes)
-		}
-		return true
+	if bre.anchorLeft {
+		return elementsMatch(bre.elements, runes, bre.anchorRight)
 	}
 
-	for i := range runes {
-		match, length := elementsMatch(bre.elements, runes[i:])
-		if !match {
-			continue
+	for i := 0; i <= len(runes); i++ {
+		if elementsMatch(bre.elements, runes[i:], bre.anchorRight) {
+			return true
 		}
-		if bre.anchorRight && length != len(runes[i:]) {
-			continue
-		}
-		return true
 	}
 
 	return false
 }
 
 // recursive
-func elementsMatch(elements []breDuplElement, runes []rune) (matches bool, matchlen int) {
+// toEnd asks for a match of all the runes instead of some at their start
+func elementsMatch(elements []breDuplElement, runes []rune, toEnd bool) bool {
 
 	// No elements matches any string
 	if len(elements) == 0 {
-		return true, len(runes)
+		return !toEnd || len(runes) == 0
 	}
 
 	e := elements[0]
@@ -47,10 +36,10 @@ func elementsMatch(elements []breDuplElement, runes []rune) (matches bool, match
 
 	// Check remainder of matches, backtracking when necessary
 	for i := matched; i >= e.count.min; i-- {
-		if match, length := elementsMatch(elements[1:], runes[i:]); match {
-			return match, length + i
+		if elementsMatch(elements[1:], runes[i:], toEnd) {
+			return true
 		}
 	}
 
-	return false, 0
+	return false
 }
-- 
2.43.0

