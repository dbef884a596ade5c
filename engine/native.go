package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Native replay: the harness and the real code are compiled with the Go
// compiler and run on the solver's values.

type ncase struct {
	Harness string            `json:"harness"`
	Arg     []byte            `json:"arg"`
	Inputs  map[string]uint64 `json:"inputs"`
	Repeat  int               `json:"repeat,omitempty"`
}

type noutcome struct {
	I       int      `json:"i"`
	Ran     bool     `json:"ran"`
	Fails   []string `json:"fails"`
	EmitsB  [][]byte `json:"emits"`
	Missing []string `json:"missing"`
	Crash   string   `json:"crash"`
	Hang    bool     `json:"hang"`
	Emits   []string `json:"-"`
}

func (o *noutcome) bad() bool {
	if !o.Ran {
		return false
	}
	if len(o.Missing) > 0 && o.Crash == "" && !o.Hang {
		return false
	}
	return len(o.Fails) > 0 || o.Crash != "" || o.Hang
}

func (o *noutcome) label() string {
	if len(o.Fails) > 0 {
		return o.Fails[0]
	}
	return ""
}

func (o *noutcome) text() string {
	switch {
	case !o.Ran:
		return "not run"
	case o.Hang:
		return "does not terminate (or exhausts memory)"
	case o.Crash != "":
		return "crash: " + o.Crash
	case len(o.Fails) > 0:
		return "fails: " + strings.Join(o.Fails, "; ")
	case len(o.Missing) > 0:
		return "inputs missing: " + strings.Join(o.Missing, ",")
	}
	return "ok"
}

type native struct {
	dir  string
	pkgs []string
	wg   sync.WaitGroup
	err  error
	mu   sync.Mutex
}

func newNative(pkgs []string) *native {
	d, err := os.MkdirTemp("", "vsym-native-")
	if err != nil {
		panic(err)
	}
	return &native{dir: d, pkgs: pkgs}
}

func (n *native) close() {
	n.wg.Wait()
	os.RemoveAll(n.dir)
}

const runnerSrc = `package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"

	"github.com/stephen/cssc/internal/zz"
%s)

var table = map[string]func(string){
%s}

type ncase struct {
	Harness string            ` + "`json:\"harness\"`" + `
	Arg     []byte            ` + "`json:\"arg\"`" + `
	Inputs  map[string]uint64 ` + "`json:\"inputs\"`" + `
	Repeat  int               ` + "`json:\"repeat\"`" + `
}

func one(c ncase, dir string) (crash string) {
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0755)
	os.Chdir(dir)
	in := map[string]uint64{}
	for k, v := range c.Inputs {
		in[k] = v
	}
	zz.Begin(in, dir)
	defer func() {
		if e := recover(); e != nil && !zz.IsStop(e) {
			crash = fmt.Sprintf("panic: %%v", e)
			if len(crash) > 600 {
				crash = crash[:600]
			}
		}
	}()
	table[c.Harness](string(c.Arg))
	return ""
}

func main() {
	debug.SetMaxStack(256 << 20)
	b, _ := os.ReadFile(os.Args[1])
	from, _ := strconv.Atoi(os.Args[2])
	dir := os.Args[3]
	var cs []ncase
	if err := json.Unmarshal(b, &cs); err != nil {
		panic(err)
	}
	out := os.NewFile(3, "out")
	for i := from; i < len(cs); i++ {
		n := cs[i].Repeat
		if n == 0 {
			n = 1
		}
		var crash string
		var f, e, m []string
		for k := 0; k < n; k++ {
			crash = one(cs[i], dir)
			f, e, m = zz.Outcome()
			if crash != "" || len(f) > 0 {
				break
			}
		}
		eb := [][]byte{}
		for _, x := range e {
			eb = append(eb, []byte(x))
		}
		r, _ := json.Marshal(map[string]interface{}{"i": i, "ran": true, "fails": f, "emits": eb, "missing": m, "crash": crash})
		out.Write(append(r, '\n'))
	}
}
`

// startBuild compiles the runner in the background.
func (n *native) startBuild(race bool) {
	n.wg.Add(1)
	go func() {
		defer n.wg.Done()
		if err := n.build(race); err != nil {
			n.mu.Lock()
			n.err = err
			n.mu.Unlock()
		}
	}()
}

func (n *native) wait() error {
	n.wg.Wait()
	return n.err
}

func (n *native) bin(race bool) string {
	if race {
		return filepath.Join(n.dir, "runner-race")
	}
	return filepath.Join(n.dir, "runner")
}

func (n *native) build(race bool) error {
	_, paths, err := overlayFiles(repoDir, verifDir)
	if err != nil {
		return err
	}
	var imports, table strings.Builder
	for _, pk := range n.pkgs {
		fmt.Fprintf(&imports, "\t%q\n", "github.com/stephen/cssc/internal/"+pk)
		ms, _ := filepath.Glob(filepath.Join(verifDir, "harness", pk, "*.go"))
		for _, m := range ms {
			fs := token.NewFileSet()
			f, err := parser.ParseFile(fs, m, nil, 0)
			if err != nil {
				return err
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !fd.Name.IsExported() || fd.Type.Results != nil || len(fd.Type.Params.List) != 1 {
					continue
				}
				if id, ok := fd.Type.Params.List[0].Type.(*ast.Ident); !ok || id.Name != "string" || len(fd.Type.Params.List[0].Names) != 1 {
					continue
				}
				key := fd.Name.Name
				if pk != "zzv" {
					key = pk + "." + key
				}
				fmt.Fprintf(&table, "\t%q: %s.%s,\n", key, pk, fd.Name.Name)
			}
		}
	}
	suffix := ""
	if race {
		suffix = "race"
	}
	main := filepath.Join(n.dir, "main"+suffix+".go")
	if err := os.WriteFile(main, []byte(fmt.Sprintf(runnerSrc, imports.String(), table.String())), 0644); err != nil {
		return err
	}
	rep := map[string]string{}
	for v, r := range paths {
		rep[v] = r
	}
	rep[filepath.Join(repoDir, "internal/zzmain/main.go")] = main
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(n.dir, "overlay"+suffix+".json")
	if err := os.WriteFile(ovf, b, 0644); err != nil {
		return err
	}
	args := []string{"build", "-overlay", ovf, "-o", n.bin(race)}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./internal/zzmain")
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv(race)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

func toCase(c *candidate) ncase {
	m := map[string]uint64{}
	for _, in := range c.Inputs {
		m[in.Name] = in.Val
	}
	return ncase{Harness: c.Harness, Arg: []byte(c.Arg), Inputs: m}
}

const caseTimeout = 6 * time.Second

// runAll executes the cases; a case that hangs or kills the process is
// recorded and the rest go on in a new process.
func (n *native) runAll(cs []*candidate, race bool, maxT time.Duration) []*noutcome {
	var nc []ncase
	for _, c := range cs {
		nc = append(nc, toCase(c))
	}
	return n.runCases(nc, race, maxT, caseTimeout, false)
}

var caseSeq int

func (n *native) runCases(nc []ncase, race bool, maxT, perCase time.Duration, jitter bool) []*noutcome {
	outs := make([]*noutcome, len(nc))
	for i := range outs {
		outs[i] = &noutcome{}
	}
	if len(nc) == 0 {
		return outs
	}
	end := time.Now().Add(maxT)
	caseSeq++
	file := filepath.Join(n.dir, fmt.Sprintf("cases%d.json", caseSeq))
	b, _ := json.Marshal(nc)
	os.WriteFile(file, b, 0644)
	next := 0
	for next < len(nc) && time.Now().Before(end) {
		pr, pw, _ := os.Pipe()
		// ulimit keeps a runaway case from taking the sandbox down
		sh := "ulimit -v 6000000; exec \"$@\""
		if race {
			sh = "exec \"$@\""
		}
		dir := filepath.Join(n.dir, fmt.Sprintf("scratch%d", caseSeq), "w")
		os.MkdirAll(dir, 0755)
		cmd := exec.Command("sh", "-c", sh, "sh", n.bin(race), file, fmt.Sprint(next), dir)
		cmd.Dir = n.dir
		cmd.ExtraFiles = []*os.File{pw}
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=1500MiB")
		if jitter {
			cmd.Env = append(cmd.Env, "VSYM_JITTER=1")
		}
		var stderr bytes.Buffer
		cmd.Stderr = &limitW{b: &stderr, n: 1 << 16}
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		if err := cmd.Start(); err != nil {
			pw.Close()
			pr.Close()
			return outs
		}
		pw.Close()
		lines := make(chan *noutcome)
		go func() {
			sc := bufio.NewScanner(pr)
			sc.Buffer(make([]byte, 1<<20), 64<<20)
			for sc.Scan() {
				o := &noutcome{}
				if json.Unmarshal(sc.Bytes(), o) == nil {
					lines <- o
				}
			}
			close(lines)
		}()
		hang := false
	loop:
		for {
			select {
			case o, ok := <-lines:
				if !ok {
					break loop
				}
				for _, e := range o.EmitsB {
					o.Emits = append(o.Emits, string(e))
				}
				outs[o.I] = o
				next = o.I + 1
			case <-time.After(perCase):
				hang = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				for range lines {
				}
				break loop
			}
		}
		cmd.Wait()
		pr.Close()
		if next < len(nc) {
			o := &noutcome{Ran: true}
			if hang {
				o.Hang = true
			} else {
				o.Crash = stderrHead(stderr.String())
			}
			outs[next] = o
			next++
		}
	}
	return outs
}

func stderrHead(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "DATA RACE") {
			return strings.TrimSpace(l)
		}
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return "process died: " + s
}

type limitW struct {
	b *bytes.Buffer
	n int
}

func (l *limitW) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

// hammer repeats a schedule-dependent case natively, under the race detector
// or with random delays, until it fails or the attempts are used up.
func (n *native) hammer(c *candidate, race bool) *noutcome {
	k := toCase(c)
	if race {
		if _, err := os.Stat(n.bin(true)); err == nil {
			k.Repeat = 300
			o := n.runCases([]ncase{k}, true, 30*time.Second, 20*time.Second, true)[0]
			if o.Hang {
				o = &noutcome{Ran: true}
			}
			return o
		}
	}
	k.Repeat = 2000
	o := n.runCases([]ncase{k}, false, 30*time.Second, 15*time.Second, true)[0]
	if o.Hang { // the repetitions take long: not evidence of a hang
		o = &noutcome{Ran: true}
	}
	return o
}

func replayCmd(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f struct {
		Property string `json:"property"`
		Case     ncase  `json:"case"`
		Input    string `json:"input"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	pk, _ := splitFunc(f.Case.Harness)
	n := newNative([]string{pk})
	defer n.close()
	if err := n.build(false); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o := n.runCases([]ncase{f.Case}, false, time.Minute, caseTimeout, false)[0]
	fmt.Printf("property %s harness %s(%q) input %s\nreal code: %s\n", f.Property, f.Case.Harness, f.Case.Arg, f.Input, o.text())
	if o.bad() {
		return 1
	}
	return 0
}
