package ipldgit

// Running the real code on concrete inputs: the search for failing inputs, and
// the comparison of the assumed models with the code they stand for.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"
)

type gen struct {
	*rand.Rand
	lits []string
	ints []int
	max  int // of a text's size
}

var (
	vStdout = os.Stdout
	vLits   []string
	vInts   []int
)

// vHarvest collects the literals of the package's sources.
func vHarvest() {
	if vLits != nil {
		return
	}
	vLits = []string{"\n", " ", "\x00", "\r", "<", ">"}
	fs, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_REPO"), "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") || strings.Contains(f, "ipldsch_") {
			continue
		}
		a, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(a, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit:
				if x.Kind == token.STRING || x.Kind == token.CHAR {
					if s, err := strconv.Unquote(x.Value); err == nil && s != "" {
						vLits = append(vLits, s)
					}
				} else if x.Kind == token.INT {
					if i, err := strconv.ParseInt(x.Value, 0, 32); err == nil && i > 0 && i < 1<<20 {
						vInts = append(vInts, int(i))
					}
				}
			}
			return true
		})
	}
	vInts = append(vInts, 1, 2, 16, 20, 32, 64, 100, 127, 128, 255, 256, 257, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097)
}

// vLoop tries cases for the time given; a case returns what is wrong.
func vLoop(t *testing.T, name string, f func(g *gen, i int) string) {
	vHarvest()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_CONC_SEED"), 10, 64)
	secs, _ := strconv.Atoi(os.Getenv("VERIF_CONC_SECONDS"))
	if secs == 0 {
		secs = 3
	}
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null
	defer func() { os.Stdout = vStdout; null.Close() }()
	until := time.Now().Add(time.Duration(secs) * time.Second)
	n := 0
	for i := 0; time.Now().Before(until); i++ {
		n++
		// one iteration must end
		g := &gen{rand.New(rand.NewSource(seed*1000003 + int64(i))), vLits, vInts, 5000}
		done := make(chan string, 1)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					done <- fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
				}
			}()
			done <- f(g, i)
		}()
		var bad string
		select {
		case bad = <-done:
		case <-time.After(60 * time.Second):
			bad = "does not end (60 s): " + vCurrent
		}
		if bad != "" {
			if strings.HasPrefix(bad, "panic") {
				bad = "input: " + vCurrent + "\n" + bad
			}
			os.Stdout = vStdout
			fmt.Fprintf(vStdout, "\nFALSIFIED %s seed %d case %d: %s\n", name, seed, i, bad)
			t.FailNow()
		}
	}
	fmt.Fprintf(vStdout, "\nCASES %d\n", n)
}

// vCurrent describes the input being tried.
var vCurrent string

func vTry(format string, args ...any) { vCurrent = fmt.Sprintf(format, args...) }

func q(s string) string {
	if len(s) > 3000 {
		return fmt.Sprintf("%q... (%d bytes)", s[:3000], len(s))
	}
	return strconv.Quote(s)
}

func vKnown(text string) { fmt.Fprintf(vStdout, "\nKNOWN %s\n", text) }

// ---- random text ----

func (g *gen) pick(ss ...string) string { return ss[g.Intn(len(ss))] }

func (g *gen) chance(n int) bool { return g.Intn(n) == 0 }

func (g *gen) size() int {
	if n := g.size0(); n <= g.max {
		return n
	}
	return g.max
}

func (g *gen) size0() int {
	switch g.Intn(12) {
	case 0:
		return 0
	case 1:
		return g.ints[g.Intn(len(g.ints))] + g.Intn(3) - 1
	case 2:
		return g.Intn(300)
	case 3:
		if g.chance(20) {
			return g.Intn(70000)
		}
		return g.Intn(5000)
	}
	return 1 + g.Intn(12)
}

const vWordChars = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789.-_+@/"

func (g *gen) word() string {
	n := 1 + g.Intn(8)
	if g.chance(40) {
		n = g.size()
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = vWordChars[g.Intn(len(vWordChars))]
	}
	if g.chance(15) {
		return string(b) + g.pick("é", "ü", "\xff", "\x80", "日本", "\u2028", "\ufeff")
	}
	return string(b)
}

// text is arbitrary text, of any bytes.
func (g *gen) text() string {
	n := g.size()
	switch g.Intn(6) {
	case 0:
		b := make([]byte, n)
		g.Read(b)
		return string(b)
	case 1:
		var b strings.Builder
		for b.Len() < n {
			b.WriteString(g.lits[g.Intn(len(g.lits))])
		}
		return b.String()
	case 2:
		return strings.Repeat(g.pick("a", " ", "\n", "\x00", "<", ">", "%s", "\r\n", "%"), n)
	}
	var b strings.Builder
	for b.Len() < n {
		b.WriteString(g.word())
		b.WriteString(g.pick(" ", " ", "\n", "", "\t", "\r\n", "\n\n", "  "))
	}
	return b.String()
}

// line is text without a newline.
func (g *gen) line() string {
	s := g.text()
	if g.chance(3) {
		s = g.word()
	}
	return strings.ReplaceAll(s, "\n", g.pick("", " ", "\r", "x"))
}

func (g *gen) sha() string {
	b := make([]byte, 20)
	g.Read(b)
	if g.chance(6) {
		c := byte(g.Intn(256))
		for i := range b {
			b[i] = c
		}
	}
	if g.chance(6) {
		b[g.Intn(20)] = g.pick("\n", "\x00", " ", "\xff")[0]
	}
	return string(b)
}

// mutate damages a string somewhere.
func (g *gen) mutate(s string) string {
	for k := 1 + g.Intn(2); k > 0; k-- {
		i, j := g.Intn(len(s)+1), g.Intn(len(s)+1)
		if i > j {
			i, j = j, i
		}
		switch g.Intn(8) {
		case 0:
			s = s[:i]
		case 1:
			s = s[:i] + g.lits[g.Intn(len(g.lits))] + s[i:]
		case 2:
			if j > i+6 {
				j = i + 1 + g.Intn(5)
			}
			s = s[:i] + s[j:]
		case 3:
			if j > i+40 {
				j = i + 40
			}
			s = s[:j] + s[i:]
		case 4:
			if i < len(s) {
				s = s[:i] + string([]byte{byte(g.Intn(256))}) + s[i+1:]
			}
		case 5:
			s = s[:i] + g.pick("\n", " ", "\x00", "\n\n", "\n ", "\r") + s[i:]
		case 6:
			if i < len(s) {
				s = s[:i] + s[i+1:]
			}
		case 7:
			// swap two lines
			ls := strings.SplitAfter(s, "\n")
			a, b := g.Intn(len(ls)), g.Intn(len(ls))
			ls[a], ls[b] = ls[b], ls[a]
			s = strings.Join(ls, "")
		}
	}
	return s
}

// ---- readers and writers ----

// slowReader returns few bytes at a time, possibly its error with the last.
type slowReader struct {
	s    string
	n    int
	end  error
	with bool
}

func (r *slowReader) Read(p []byte) (int, error) {
	if len(r.s) == 0 {
		return 0, r.end
	}
	n := r.n
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.s) {
		n = len(r.s)
	}
	copy(p, r.s[:n])
	r.s = r.s[n:]
	if r.s == "" && r.with {
		return n, r.end
	}
	return n, nil
}

func (g *gen) reader(s string, end error) io.Reader {
	return &slowReader{s, []int{1, 2, 3, 7, 16, 100, 4096, 1 << 20}[g.Intn(8)], end, end == io.EOF && g.chance(2)}
}

// ---- comparing ----

// vDump writes everything reachable from v.
func vDump(v any) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(v), 0)
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value, d int) {
	if d > 40 {
		b.WriteString("...")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			fmt.Fprintf(b, "%s:", v.Elem().Type())
		}
		dump(b, v.Elem(), d+1)
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			fmt.Fprintf(b, "%s:", v.Type().Field(i).Name)
			dump(b, v.Field(i), d+1)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "%q", v.Bytes())
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			dump(b, v.Index(i), d+1)
		}
		b.WriteString("]")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d", v.Int())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		fmt.Fprintf(b, "%d", v.Uint())
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
	case reflect.Map:
		fmt.Fprintf(b, "map(%d)", v.Len())
	default:
		fmt.Fprintf(b, "?%s", v.Kind())
	}
}
