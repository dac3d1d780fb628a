// Command builder prepares a simulation build of the library from the working
// tree of /repo: it copies the non-test sources into a scratch module, inserts
// a scheduling point before every statement, and produces an overlay of the Go
// standard library in which map iteration order, the clock, file I/O and mutex
// blocking are decided by the simulator. Nothing in /repo is written.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "builder: "+format+"\n", a...)
	os.Exit(2)
}

const modPath = "github.com/avast/apkverifier"

type report struct {
	Files        int    `json:"files"`
	Statements   int    `json:"statements"`
	Resets       int    `json:"package_variables_reset"`
	FrostingKey  bool   `json:"frosting_key_replaced"`
	FrostingOrig string `json:"frosting_original_key"`
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	goroot := flag.String("goroot", "", "")
	simdir := flag.String("sim", "", "")
	frostKey := flag.String("frostkey", "", "file with the base64 SPKI of the simulated Play key")
	flag.Parse()
	if *out == "" || *goroot == "" || *simdir == "" {
		die("missing flags")
	}
	os.RemoveAll(filepath.Join(*out, "repo"))
	os.RemoveAll(filepath.Join(*out, "std"))

	key := ""
	if *frostKey != "" {
		b, err := os.ReadFile(*frostKey)
		if err != nil {
			die("%v", err)
		}
		key = strings.TrimSpace(string(b))
	}

	rep := report{}
	copyRepo(*repo, filepath.Join(*out, "repo"), key, &rep)
	overlay := patchStd(*goroot, filepath.Join(*out, "std"))

	ob, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), ob, 0644))
	rb, _ := json.MarshalIndent(rep, "", " ")
	must(os.WriteFile(filepath.Join(*out, "build_report.json"), rb, 0644))

	// modfile: the simulator's go.mod with the replacement pointing at the copy,
	// and the versions the library itself asks for.
	mod, err := os.ReadFile(filepath.Join(*simdir, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	m := string(mod)
	if !strings.Contains(m, "=> REPOCOPY") {
		die("sim go.mod has no REPOCOPY placeholder")
	}
	m = strings.Replace(m, "=> REPOCOPY", "=> "+filepath.Join(*out, "repo"), 1)
	must(os.WriteFile(filepath.Join(*out, "sim.mod"), []byte(m), 0644))
	sum, err := os.ReadFile(filepath.Join(*repo, "go.sum"))
	if err != nil {
		die("%v", err)
	}
	must(os.WriteFile(filepath.Join(*out, "sim.sum"), sum, 0644))
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func copyRepo(src, dst, frostKey string, rep *report) {
	err := filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if d.IsDir() {
			base := filepath.Base(p)
			if rel != "." && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !d.Type().IsRegular() || strings.HasSuffix(rel, "_test.go") {
			return nil
		}
		info, err := d.Info()
		if err != nil {
			return err
		}
		isGo := strings.HasSuffix(rel, ".go")
		if !isGo && info.Size() > 4<<20 {
			return nil
		}
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if isGo {
			data = instrument(p, data, frostKey, rep)
			rep.Files++
		}
		target := filepath.Join(dst, rel)
		if err := os.MkdirAll(filepath.Dir(target), 0755); err != nil {
			return err
		}
		return os.WriteFile(target, data, 0644)
	})
	must(err)
	must(os.MkdirAll(filepath.Join(dst, "verifhook"), 0755))
	must(os.WriteFile(filepath.Join(dst, "verifhook", "hook.go"), []byte(hookSrc), 0644))
}

const hookSrc = `// Package verifhook is generated: the scheduling point inserted before every statement.
package verifhook

// N counts statements executed since the simulator last reset it; when it
// reaches Next, Slow is called (the simulator decides what happens there).
var (
	N       int64
	Next    int64 = 1<<62
	Slow    func()
	Spawned int64    // goroutines started by the library itself
	Resets  []func() // puts every package-level variable of the library back to its initial value
)

// Restart gives the library the state of a freshly started process.
func Restart() {
	for i := 0; i < 2; i++ {
		for _, f := range Resets {
			f()
		}
	}
	Spawned = 0
}

//go:norace
func Spawn() { Spawned++ }

//go:norace
func Y() {
	N++
	if N >= Next {
		Slow()
	}
}
`

// knownFrostingKey is the published Play key literal; the simulator swaps it
// for a key it owns so that it can also produce valid frostings.
const knownFrostingKey = "MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAEZH2+1+E07dnErAD3L6BbTnaohU0bbXriNlJI7VxJU+LjdSwPyXR5pomARAMoyPkMksLz/gitUPtFuJoPL2ziEw=="

func instrument(path string, src []byte, frostKey string, rep *report) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		die("cannot parse %s: %v", path, err)
	}
	type ins struct {
		off, del int
		text     string
	}
	var list []ins
	off := func(p token.Pos) int { return fset.Position(p).Offset }

	usesCgo := false
	for _, im := range f.Imports {
		if im.Path.Value == `"C"` {
			usesCgo = true
		}
	}
	count := 0
	if !usesCgo {
		add := func(stmts []ast.Stmt) {
			for _, s := range stmts {
				switch st := s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					continue
				case *ast.EmptyStmt:
					continue
				case *ast.LabeledStmt:
					_ = st
				}
				y := "verifhook.Y();"
				if _, ok := s.(*ast.GoStmt); ok {
					y += "verifhook.Spawn();"
				}
				list = append(list, ins{off: off(s.Pos()), text: y})
				count++
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				add(x.List)
			case *ast.CaseClause:
				add(x.Body)
			case *ast.CommClause:
				add(x.Body)
			}
			return true
		})
	}
	if frostKey != "" {
		ast.Inspect(f, func(n ast.Node) bool {
			if bl, ok := n.(*ast.BasicLit); ok && bl.Kind == token.STRING {
				v, err := strconv.Unquote(bl.Value)
				if err == nil && strings.Contains(v, knownFrostingKey) {
					nv := strings.Replace(v, knownFrostingKey, frostKey, -1)
					list = append(list, ins{off: off(bl.Pos()), del: len(bl.Value), text: strconv.Quote(nv)})
					rep.FrostingKey = true
					rep.FrostingOrig = v
				}
			}
			return true
		})
	}
	tail := ""
	if !usesCgo {
		var rs []string
		nInit := 0
		text := func(a, b token.Pos) string { return string(src[off(a):off(b)]) }
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.Name == "init" && x.Body != nil {
					nInit++
					nm := fmt.Sprintf("verifInit%d_%d", rep.Files, nInit)
					list = append(list, ins{off: off(x.Name.Pos()), del: len("init"), text: nm})
					tail += "\nfunc init() { " + nm + "() }\n"
					rs = append(rs, nm+"()")
				}
			case *ast.GenDecl:
				if x.Tok != token.VAR {
					continue
				}
				for _, sp := range x.Specs {
					vs := sp.(*ast.ValueSpec)
					if hasDirective(x.Doc) || hasDirective(vs.Doc) {
						continue
					}
					var names []string
					blank := true
					for _, n := range vs.Names {
						names = append(names, n.Name)
						blank = blank && n.Name == "_"
					}
					if blank {
						continue
					}
					if len(vs.Values) == 0 {
						for _, n := range names {
							if n != "_" {
								rs = append(rs, "{ var verifZ "+text(vs.Type.Pos(), vs.Type.End())+"; "+n+" = verifZ }")
							}
						}
						continue
					}
					rs = append(rs, strings.Join(names, ", ")+" = "+text(vs.Values[0].Pos(), vs.Values[len(vs.Values)-1].End()))
				}
			}
		}
		if len(rs) > 0 {
			nm := fmt.Sprintf("verifReset%d", rep.Files)
			tail += "\nfunc " + nm + "() {\n" + strings.Join(rs, "\n") + "\n}\n\nfunc init() { verifhook.Resets = append(verifhook.Resets, " + nm + ") }\n"
			rep.Resets += len(rs)
			count++
		}
	}
	if count > 0 {
		list = append(list, ins{off: off(f.Name.End()), text: `; import verifhook "` + modPath + `/verifhook"`})
	}
	rep.Statements += count
	if len(list) == 0 {
		return src
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var b bytes.Buffer
	pos := 0
	for _, in := range list {
		b.Write(src[pos:in.off])
		b.WriteString(in.text)
		pos = in.off + in.del
	}
	b.Write(src[pos:])
	b.WriteString(tail)
	return b.Bytes()
}

func hasDirective(g *ast.CommentGroup) bool {
	if g == nil {
		return false
	}
	for _, c := range g.List {
		if strings.HasPrefix(c.Text, "//go:") {
			return true
		}
	}
	return false
}

type edit struct{ old, new string }

func patchStd(goroot, dst string) map[string]string {
	must(os.MkdirAll(dst, 0755))
	overlay := map[string]string{}
	n := 0
	put := func(rel, content string) {
		n++
		p := filepath.Join(dst, fmt.Sprintf("%02d_%s", n, filepath.Base(rel)))
		must(os.WriteFile(p, []byte(content), 0644))
		overlay[filepath.Join(goroot, "src", rel)] = p
	}
	patch := func(rel string, edits []edit) {
		b, err := os.ReadFile(filepath.Join(goroot, "src", rel))
		if err != nil {
			die("%v", err)
		}
		s := string(b)
		for _, e := range edits {
			if strings.Count(s, e.old) < 1 {
				die("std overlay: %s: pattern not found: %q", rel, e.old)
			}
			s = strings.Replace(s, e.old, e.new, -1)
		}
		put(rel, s)
	}

	// 1. map seeds and map iteration start come from the simulator
	patch("internal/runtime/maps/map.go", []edit{{"uintptr(rand())", "uintptr(simRand())"}})
	patch("internal/runtime/maps/table.go", []edit{{"= rand()", "= simRand()"}})
	patch("internal/runtime/maps/runtime_alg.go", []edit{{"key[i] = bootstrapRand()", "key[i] = 0x9e3779b97f4a7c15 * uint64(i+1)"}})
	put("internal/runtime/maps/sim_verif.go", `package maps

// Everything a map draws is a function of the run's seed, of how many library
// statements have been executed (SimN), and of how often it was asked since.
var (
	SimState uint64 = 0x1234567
	SimN     *int64
	simLast  int64
	simK     uint64
)

func SimSeed(s uint64) { SimState, simLast, simK = s, -1, 0 }

func simRand() uint64 {
	var n int64
	if SimN != nil {
		n = *SimN
	}
	if n != simLast {
		simLast, simK = n, 0
	}
	simK++
	z := SimState + uint64(n)*0x9e3779b97f4a7c15 + simK*0xd1342543de82ef95
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
`)
	put("runtime/sim_verif.go", `package runtime

import (
	"internal/runtime/maps"
	"internal/runtime/sys"
	"unsafe"
)

// SimSetMapSeed fixes everything Go's maps draw at random from here on.
func SimSetMapSeed(s uint64, n *int64) {
	maps.SimN = n
	maps.SimSeed(s)
}

// SimChanBlock, when set, is called instead of sleeping on a channel; it returns
// false when the caller is not a simulated task.
var SimChanBlock func() bool

func simChanSend(c *hchan, elem unsafe.Pointer) bool {
	for {
		if c != nil && chansend(c, elem, false, sys.GetCallerPC()) {
			return true
		}
		if !SimChanBlock() {
			return false
		}
	}
}

func simChanRecv(c *hchan, elem unsafe.Pointer) (done, ok bool) {
	for {
		if c != nil {
			if done, ok = chanrecv(c, elem, false); done {
				return
			}
		}
		if !SimChanBlock() {
			return false, false
		}
	}
}

// SimSend and SimRecv hand control from task to task, past the hook.
func SimSend(c chan struct{}) {
	simQuiet()
	chansend(*(**hchan)(unsafe.Pointer(&c)), unsafe.Pointer(&simZero), true, sys.GetCallerPC())
	simLoud()
}

var simZero uintptr

func SimRecv(c chan struct{}) {
	simQuiet()
	chanrecv(*(**hchan)(unsafe.Pointer(&c)), nil, true)
	simLoud()
}

// SimGoid returns the id of the calling goroutine.
func SimGoid() uint64 { return getg().goid }
`)
	// in race-detecting builds the simulator's own hand-over of control must not
	// count as synchronisation between the tasks
	put("runtime/sim_race_verif.go", `//go:build race

package runtime

func simQuiet() { RaceDisable() }
func simLoud()  { RaceEnable() }
`)
	put("runtime/sim_norace_verif.go", `//go:build !race

package runtime

func simQuiet() {}
func simLoud()  {}
`)
	patch("sync/pool.go", []edit{{"runtime_randn(4) == 0", "false"}})
	// waiting on a channel parks the simulated task, too
	patch("runtime/chan.go", []edit{
		{"func chansend1(c *hchan, elem unsafe.Pointer) {\n", `func chansend1(c *hchan, elem unsafe.Pointer) {
	if SimChanBlock != nil && simChanSend(c, elem) {
		return
	}
`},
		{"func chanrecv1(c *hchan, elem unsafe.Pointer) {\n", `func chanrecv1(c *hchan, elem unsafe.Pointer) {
	if SimChanBlock != nil {
		if done, _ := simChanRecv(c, elem); done {
			return
		}
	}
`},
		{"func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n", `func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {
	if SimChanBlock != nil {
		if done, ok := simChanRecv(c, elem); done {
			return ok
		}
	}
`},
	})
	patch("runtime/select.go", []edit{{"	gp := getg()\n	if debugSelect {\n", `	if block && SimChanBlock != nil {
		for {
			if i, ok := selectgo(cas0, order0, pc0, nsends, nrecvs, false); i >= 0 {
				return i, ok
			}
			if !SimChanBlock() {
				break
			}
		}
	}
	gp := getg()
	if debugSelect {
`}})
	// 2. the clock
	patch("time/time.go", []edit{{"func Now() Time {\n", `// SimClock, when set, is the only clock Now reads.
var SimClock func() (sec int64, nsec int32)

// SimRealNow is the untouched Now.
func Now() Time {
	if h := SimClock; h != nil {
		sec, nsec := h()
		return Time{uint64(nsec), sec + unixToInternal, Local}
	}
	return SimRealNow()
}

func SimRealNow() Time {
`}, {"func Since(t Time) Duration {\n", "func Since(t Time) Duration {\n\tif SimClock != nil {\n\t\treturn Now().Sub(t)\n\t}\n"},
		{"func Until(t Time) Duration {\n", "func Until(t Time) Duration {\n\tif SimClock != nil {\n\t\treturn t.Sub(Now())\n\t}\n"}})
	// 3. files
	patch("os/file.go", []edit{
		{"func (f *File) Read(b []byte) (n int, err error) {\n", `// SimFS, when set, intercepts every file operation.
type SimFS interface {
	Open(name string, flag int, perm FileMode) (*File, error)
	Read(f *File, b []byte) (int, error)
	ReadAt(f *File, b []byte, off int64) (int, error)
	Seek(f *File, off int64, whence int) (int64, error)
	Close(f *File) error
	Stat(f *File) (FileInfo, error)
	StatPath(name string) (FileInfo, error, bool)
}

var SimHook SimFS

func (f *File) Read(b []byte) (n int, err error) {
	if h := SimHook; h != nil {
		return h.Read(f, b)
	}
	return f.SimRead(b)
}

func (f *File) SimRead(b []byte) (n int, err error) {
`},
		{"func (f *File) ReadAt(b []byte, off int64) (n int, err error) {\n", `func (f *File) ReadAt(b []byte, off int64) (n int, err error) {
	if h := SimHook; h != nil {
		return h.ReadAt(f, b, off)
	}
	return f.SimReadAt(b, off)
}

func (f *File) SimReadAt(b []byte, off int64) (n int, err error) {
`},
		{"func (f *File) Seek(offset int64, whence int) (ret int64, err error) {\n", `func (f *File) Seek(offset int64, whence int) (ret int64, err error) {
	if h := SimHook; h != nil {
		return h.Seek(f, offset, whence)
	}
	return f.SimSeek(offset, whence)
}

func (f *File) SimSeek(offset int64, whence int) (ret int64, err error) {
`},
		{"func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n", `func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if h := SimHook; h != nil {
		return h.Open(name, flag, perm)
	}
	return SimOpenFile(name, flag, perm)
}

func SimOpenFile(name string, flag int, perm FileMode) (*File, error) {
`},
	})
	patch("os/file_posix.go", []edit{{"func (f *File) Close() error {\n", `func (f *File) Close() error {
	if h := SimHook; h != nil {
		return h.Close(f)
	}
	return f.SimClose()
}

func (f *File) SimClose() error {
`}})
	patch("os/stat_unix.go", []edit{{"func (f *File) Stat() (FileInfo, error) {\n", `func (f *File) Stat() (FileInfo, error) {
	if h := SimHook; h != nil {
		return h.Stat(f)
	}
	return f.SimStat()
}

func (f *File) SimStat() (FileInfo, error) {
`}})
	patch("os/stat.go", []edit{{"func Stat(name string) (FileInfo, error) {\n", `func Stat(name string) (FileInfo, error) {
	if h := SimHook; h != nil {
		if fi, err, ok := h.StatPath(name); ok {
			return fi, err
		}
	}
`}})
	// 4. blocking on a mutex parks the simulated task instead of the thread
	patch("internal/sync/mutex.go", []edit{{"func (m *Mutex) lockSlow() {\n", `// SimBlock, when set, is called instead of sleeping on a contended lock; it
// returns false when the caller is not a simulated task.
var SimBlock func() bool

func (m *Mutex) lockSlow() {
	if h := SimBlock; h != nil {
		for h() {
			if m.TryLock() {
				return
			}
		}
	}
`}})
	patch("sync/rwmutex.go", []edit{
		{"func (rw *RWMutex) RLock() {\n", `func (rw *RWMutex) RLock() {
	if h := isync.SimBlock; h != nil {
		for {
			if rw.TryRLock() {
				return
			}
			if !h() {
				break
			}
		}
	}
`},
		{"func (rw *RWMutex) Lock() {\n", `func (rw *RWMutex) Lock() {
	if h := isync.SimBlock; h != nil {
		for {
			if rw.TryLock() {
				return
			}
			if !h() {
				break
			}
		}
	}
`},
		{"import (\n", "import (\n\tisync \"internal/sync\"\n"},
	})
	// 5. pools are emptied when a simulated process starts
	put("sync/sim_verif.go", `package sync

import isync "internal/sync"

// SimSetBlock installs the simulator's lock-contention hook.
func SimSetBlock(f func() bool) { isync.SimBlock = f }

// SimPoolCleanup empties every Pool, as two garbage collections would.
func SimPoolCleanup() {
	poolCleanup()
	poolCleanup()
}
`)
	// 6. randomness
	for _, f := range []string{"math/rand/rand.go", "math/rand/v2/rand.go"} {
		patch(f, []edit{{"func runtime_rand() uint64\n", `func runtime_rand0() uint64

// SimRand, when set, replaces the runtime's random numbers.
var SimRand func() uint64

func runtime_rand() uint64 {
	if h := SimRand; h != nil {
		return h()
	}
	return runtime_rand0()
}
`}, {"//go:linkname runtime_rand runtime.rand", "//go:linkname runtime_rand0 runtime.rand"}})
	}
	return overlay
}
