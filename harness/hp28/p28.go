package hp28

// The command's source is compiled into this package (see source.txt). Under
// the engine its main runs here against the model of files below; natively
// the command itself is built and run.

import (
	"bytes"
	"errors"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

type vfile struct {
	name    string
	data    []byte
	missing bool
	dir     bool
}

// world is what the command finds, and what it leaves.
type world struct {
	files   []vfile
	stdin   []byte
	tty     bool
	full    bool // standard output can't be written
	args    []string
	stdout  []byte
	stderr  []byte
	code    int
	handles []*handle
}

type handle struct {
	f   *os.File
	v   *vfile
	pos int
	out *[]byte
	bad bool
}

var cur *world

func (w *world) open(v *vfile, out *[]byte, bad bool) *os.File {
	f := &os.File{}
	w.handles = append(w.handles, &handle{f: f, v: v, out: out, bad: bad})
	return f
}

func handleOf(f *os.File) *handle {
	for _, h := range cur.handles {
		if h.f == f {
			return h
		}
	}
	panic("invalid file")
}

var errNoFile = &os.PathError{Op: "open", Path: "file", Err: syscall.ENOENT}
var errIsDir = &os.PathError{Op: "read", Path: "file", Err: syscall.EISDIR}
var errNoSpace = &os.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.ENOSPC}

// Model_os_Open stands for os.Open.
func Model_os_Open(name string) (*os.File, error) {
	for i := range cur.files {
		v := &cur.files[i]
		if v.name == name && !v.missing {
			return cur.open(v, nil, false), nil
		}
	}
	return nil, errNoFile
}

// Model_os_OpenFile stands for os.OpenFile.
func Model_os_OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	return Model_os_Open(name)
}

// Model_os_ReadFile stands for os.ReadFile.
func Model_os_ReadFile(name string) ([]byte, error) {
	f, err := Model_os_Open(name)
	if err != nil {
		return nil, err
	}
	h := handleOf(f)
	if h.v.dir {
		return nil, errIsDir
	}
	return append([]byte{}, h.v.data...), nil
}

// Model_os_File_Read stands for (*os.File).Read: the first read gives one byte.
func Model_os_File_Read(f *os.File, b []byte) (int, error) {
	if f == nil {
		return 0, errors.New("invalid argument")
	}
	h := handleOf(f)
	if h.v.dir {
		return 0, errIsDir
	}
	if h.pos == len(h.v.data) {
		return 0, io.EOF
	}
	if h.pos == 0 && len(b) > 1 {
		b = b[:1]
	}
	n := copy(b, h.v.data[h.pos:])
	h.pos += n
	return n, nil
}

// Model_os_File_Write stands for (*os.File).Write.
func Model_os_File_Write(f *os.File, b []byte) (int, error) {
	if f == nil {
		return 0, errors.New("invalid argument")
	}
	h := handleOf(f)
	if h.bad && len(b) > 0 {
		return 0, errNoSpace
	}
	*h.out = append(*h.out, b...)
	return len(b), nil
}

// Model_os_File_WriteString stands for (*os.File).WriteString.
func Model_os_File_WriteString(f *os.File, s string) (int, error) {
	return Model_os_File_Write(f, []byte(s))
}

// Model_os_File_Close stands for (*os.File).Close.
func Model_os_File_Close(f *os.File) error { return nil }

// Model_os_File_Fd stands for (*os.File).Fd.
func Model_os_File_Fd(f *os.File) uintptr { return 0 }

// Model_fmt_Printf stands for fmt.Printf.
func Model_fmt_Printf(format string, a ...interface{}) (int, error) {
	return sprintTo(os.Stdout, format, a...)
}

func sprintTo(f *os.File, format string, a ...interface{}) (int, error) {
	return Model_os_File_Write(f, []byte(sym.Sprintf(format, a...)))
}

// Model_syscall_Syscall6 stands for the terminal query.
func Model_syscall_Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	if cur.tty {
		return 0, 0, 0
	}
	return 0, 0, syscall.ENOTTY
}

// run runs the command.
func (w *world) run() {
	for i, a := range w.args {
		sym.Note("arg"+string([]byte{byte('0' + i)}), a)
	}
	for _, f := range w.files {
		if f.missing {
			sym.Note(f.name, "missing")
		} else if f.dir {
			sym.Note(f.name, "directory")
		} else {
			sym.Note(f.name, sym.Quote(string(f.data)))
		}
	}
	if sym.Symbolic() {
		cur = w
		in := &vfile{data: w.stdin}
		os.Stdin = w.open(in, nil, false)
		os.Stdout = w.open(nil, &w.stdout, w.full)
		os.Stderr = w.open(nil, &w.stderr, false)
		os.Args = append([]string{"helium-lint"}, w.args...)
		w.code = sym.CatchExit(main)
		return
	}
	w.runReal()
}

var runs int

// runReal runs the real command with real files.
func (w *world) runReal() {
	dir, err := ioutil.TempDir("", "p28")
	if err != nil {
		panic(sym.Stop{Kind: "assume", Msg: err.Error()})
	}
	defer os.RemoveAll(dir)
	for _, f := range w.files {
		p := filepath.Join(dir, f.name)
		switch {
		case f.missing:
		case f.dir:
			os.Mkdir(p, 0755)
		default:
			ioutil.WriteFile(p, f.data, 0644)
		}
	}
	c := exec.Command(os.Getenv("VERIF_REAL"), w.args...)
	c.Dir = dir
	runs++
	c.Env = append(os.Environ(), "GOMAXPROCS="+strconv.Itoa([]int{1, 2, 8}[runs%3]))
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if w.full {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			panic(sym.Stop{Kind: "assume", Msg: err.Error()})
		}
		defer f.Close()
		c.Stdout = f
	}
	c.Stdin = bytes.NewReader(w.stdin)
	if w.tty {
		m, err := os.OpenFile("/dev/ptmx", os.O_RDWR, 0)
		if err != nil {
			panic(sym.Stop{Kind: "assume", Msg: err.Error()})
		}
		defer m.Close()
		var n, u uint32
		syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&u)))
		syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n)))
		s, err := os.OpenFile("/dev/pts/"+strconv.Itoa(int(n)), os.O_RDWR|syscall.O_NOCTTY, 0)
		if err != nil {
			panic(sym.Stop{Kind: "assume", Msg: err.Error()})
		}
		defer s.Close()
		c.Stdin = s
	}
	if err := c.Start(); err != nil {
		panic(sym.Stop{Kind: "assume", Msg: err.Error()})
	}
	t := time.AfterFunc(5*time.Second, func() { c.Process.Kill() })
	c.Wait()
	if !t.Stop() {
		panic("the command doesn't end")
	}
	w.stdout, w.stderr, w.code = so.Bytes(), se.Bytes(), c.ProcessState.ExitCode()
	if e := string(w.stderr); strings.Contains(e, "goroutine ") && w.code == 2 {
		panic(e)
	}
}

// serialised is what a document is printed as, if it is one.
func serialised(b []byte) (string, bool) {
	doc, err := helium.NewParser().Parse(b)
	if err != nil {
		return "", false
	}
	s, err := doc.XMLString()
	return s, err == nil
}

// expect is the output for some inputs, and whether all are good.
func (w *world) expect(names []string) (string, bool) {
	out := ""
	for _, n := range names {
		ok := false
		for _, f := range w.files {
			if f.name == n && !f.missing && !f.dir {
				s, good := serialised(f.data)
				if good {
					out += s
					ok = true
				}
			}
		}
		if !ok {
			return out, false
		}
	}
	return out, true
}

func (w *world) check(out string, ok bool) {
	sym.Note("stdout", sym.Quote(string(w.stdout)))
	sym.Note("stderr", sym.Quote(string(w.stderr)))
	sym.Note("want", sym.Quote(out))
	if ok {
		if w.code != 0 {
			sym.Fail("the command fails though all inputs are fine")
		}
		sym.Reach("success")
	} else {
		if w.code == 0 {
			sym.Fail("the command succeeds though an input isn't fine")
		}
		if len(w.stderr) == 0 {
			sym.Fail("there is no message for an input that isn't fine")
		}
		sym.Reach("failure")
	}
	if w.full {
		return
	}
	if len(out) != len(w.stdout) {
		sym.Fail("other documents are printed than the ones up to the first failure")
	}
	sym.Assert(sym.Eq(string(w.stdout), out), "other documents are printed than the ones up to the first failure")
}

func tier(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}

func (w *world) addFile(k string, kinds int) {
	f := vfile{name: "f" + k}
	switch sym.Split(sym.Choice("kind"+k, kinds)) {
	case 0:
		f.data = []byte("<r>" + k + "</r>")
	case 1:
		f.missing = true
	case 2:
		f.dir = true
	case 3:
		// well-formed or not
		b := sym.Str("b"+k, tier(1, 2))
		for i := 0; i < len(b); i++ {
			sym.Assume(sym.And(b[i] < 0x80, b[i] != 0))
		}
		f.data = []byte("<r" + b + "/>")
	case 4:
	}
	w.files = append(w.files, f)
}

// P28_Files: up to three (thorough four) files: each is a document, missing, a directory, empty, or an element with any ASCII byte (thorough two) within its tag; every interleaving of the goroutines.
func P28_Files() {
	w := &world{}
	n := 1 + sym.Split(sym.Choice("n", tier(3, 4)))
	for i := 0; i < n; i++ {
		k := string([]byte{byte('0' + i)})
		w.addFile(k, 5)
		w.args = append(w.args, "f"+k)
	}
	out, ok := w.expect(w.args)
	w.run()
	w.check(out, ok)
}

// P28_Same: the same file twice, or in between another one.
func P28_Same() {
	w := &world{}
	w.addFile("0", 5)
	w.addFile("1", 5)
	switch sym.Split(sym.Choice("order", 3)) {
	case 0:
		w.args = []string{"f0", "f0"}
	case 1:
		w.args = []string{"f0", "f1", "f0"}
	case 2:
		w.args = []string{"f1", "f0", "f1", "f1"}
	}
	out, ok := w.expect(w.args)
	w.run()
	w.check(out, ok)
}

// P28_Stdin: standard input, with any two bytes (thorough three) within a tag, or empty, or a terminal.
func P28_Stdin() {
	w := &world{}
	switch sym.Split(sym.Choice("in", 3)) {
	case 0:
		b := sym.Str("b", tier(2, 3))
		for i := 0; i < len(b); i++ {
			sym.Assume(b[i] < 0x80)
		}
		w.stdin = []byte("<r" + b + "/>")
	case 1:
	case 2:
		w.tty = true
		w.run()
		if w.code == 0 {
			sym.Fail("the command succeeds without input")
		}
		if len(w.stdout) == 0 {
			sym.Fail("there is no message about usage")
		}
		sym.Reach("usage")
		return
	}
	out, ok := serialised(w.stdin)
	w.run()
	w.check(out, ok)
}

// P28_Options: one file and two of five options, in any places; known ones are accepted, the version is printed without reading a file, and others are refused.
func P28_Options() {
	w := &world{}
	w.addFile("0", 3)
	opts := []string{"--format", "--noblanks", "--version", "--bogus", "-q"}
	a := opts[sym.Split(sym.Choice("a", len(opts)))]
	b := opts[sym.Split(sym.Choice("b", len(opts)))]
	switch sym.Split(sym.Choice("order", 4)) {
	case 0:
		w.args = []string{a, b, "f0"}
	case 1:
		w.args = []string{a, "f0", b}
	case 2:
		w.args = []string{"f0", a, b}
	case 3:
		w.args = []string{a, b}
		w.stdin = []byte("<r/>")
	}
	version, bad := false, false
	var names []string
	for _, x := range w.args {
		switch x {
		case "--version":
			version = true
		case "--bogus", "-q":
			bad = true
		case "f0":
			names = append(names, x)
		}
	}
	w.run()
	sym.Note("stdout", sym.Quote(string(w.stdout)))
	switch {
	case bad:
		if w.code == 0 {
			sym.Fail("an option that there isn't is accepted")
		}
		sym.Reach("refused")
	case version:
		if w.code != 0 || !strings.Contains(string(w.stdout), helium.Version) || strings.Contains(string(w.stdout), "<") {
			sym.Fail("the version isn't printed")
		}
		sym.Reach("version")
	case len(names) == 0:
		out, ok := serialised(w.stdin)
		w.check(out, ok)
	default:
		out, ok := w.expect(names)
		w.check(out, ok)
	}
}

// P28_Full: standard output can't be written.
func P28_Full() {
	w := &world{full: true}
	n := 1 + sym.Split(sym.Choice("n", 2))
	for i := 0; i < n; i++ {
		k := string([]byte{byte('0' + i)})
		w.addFile(k, 3)
		w.args = append(w.args, "f"+k)
	}
	w.run()
	w.check("", false)
}
