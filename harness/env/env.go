// Package env is the world around the jpath command in a symbolic run: the executor calls these functions in
// place of those of os and encoding/json (see Models). It is never used natively.
package env

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"io/fs"
	"os"
	"strings"

	"verifharness/ref"
	"verifharness/sym"
)

// variables that stand for those of package os
var (
	Args                  = []string{"jpath"}
	Stdin, Stdout, Stderr *os.File
)

type file struct {
	name  string
	data  string
	pos   int
	bad   bool // cannot be read
	full  bool // cannot be written
	write bool
}

type decoder struct {
	r    io.Reader
	read bool
	err  error // of the reader, io.EOF at the end
	base int
	json ref.JSON
	dead error
}

type encoder struct {
	w      io.Writer
	indent string
	err    error
}

var (
	open    map[*os.File]*file
	files   []sym.File
	decs    map[*json.Decoder]*decoder
	encs    map[*json.Encoder]*encoder
	outcome chan int
)

// realMain is the main function of the command.
func realMain() { panic("model") }

// unsupported ends the path.
func unsupported(what string) { panic(what) }

// Run stands for sym.Run.
func Run(args []string, stdin sym.File, named []sym.File, full bool) (stdout, stderr string, status int) {
	Args = append([]string{"jpath"}, args...)
	Stdin, Stdout, Stderr = new(os.File), new(os.File), new(os.File)
	open = map[*os.File]*file{}
	decs = map[*json.Decoder]*decoder{}
	encs = map[*json.Encoder]*encoder{}
	open[Stdin] = &file{name: "stdin", data: stdin.Data, bad: stdin.Bad}
	out := &file{name: "stdout", write: true, full: full}
	er := &file{name: "stderr", write: true}
	open[Stdout], open[Stderr] = out, er
	files = named
	outcome = make(chan int)
	go func() {
		realMain()
		outcome <- 0
	}()
	status = <-outcome
	return out.data, er.data, status
}

// Exit stands for os.Exit.
func Exit(code int) {
	outcome <- code
	select {}
}

// maxOpen is the number of files that may be open at once.
const maxOpen = 64

// Open stands for os.Open.
func Open(name string) (*os.File, error) {
	for _, f := range files {
		if f.Name == name {
			if f.Missing {
				break
			}
			if len(open) >= maxOpen {
				return nil, &os.PathError{Op: "open", Path: name, Err: errMany}
			}
			h := new(os.File)
			open[h] = &file{name: name, data: f.Data, bad: f.Bad}
			return h, nil
		}
	}
	return nil, &os.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
}

// ReadFile stands for os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	h, err := Open(name)
	if err != nil {
		return nil, err
	}
	return io.ReadAll(h)
}

// Read stands for (*os.File).Read.
func Read(h *os.File, b []byte) (int, error) {
	f := open[h]
	if f == nil || f.write {
		return 0, fs.ErrInvalid
	}
	if f.bad {
		return 0, &os.PathError{Op: "read", Path: f.name, Err: errIsDir}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.pos >= len(f.data) {
		return 0, io.EOF
	}
	n := copy(b, f.data[f.pos:])
	f.pos += n
	return n, nil
}

// Write stands for (*os.File).Write.
func Write(h *os.File, b []byte) (int, error) {
	f := open[h]
	if f == nil || !f.write {
		return 0, fs.ErrInvalid
	}
	if f.full {
		return 0, &os.PathError{Op: "write", Path: f.name, Err: errFull}
	}
	f.data += string(b)
	return len(b), nil
}

// WriteString stands for (*os.File).WriteString.
func WriteString(h *os.File, s string) (int, error) { return Write(h, []byte(s)) }

// Close stands for (*os.File).Close.
func Close(h *os.File) error {
	f := open[h]
	if f == nil {
		return fs.ErrInvalid
	}
	if f.write {
		unsupported("closing of an output")
	}
	delete(open, h)
	return nil
}

// Name stands for (*os.File).Name.
func Name(h *os.File) string {
	if f := open[h]; f != nil {
		return f.name
	}
	return ""
}

var (
	errIsDir = errors.New("is a directory")
	errFull  = errors.New("no space left on device")
	errMany  = errors.New("too many open files")
)

// store stores value v, whose text is in s, in what p points to.
func store(p, v any, s string) error {
	switch q := p.(type) {
	case *any:
		*q = v
	case *json.RawMessage:
		*q = append((*q)[:0], strings.TrimSpace(s)...)
	default:
		unsupported("decoding of another type")
	}
	return nil
}

var errSyntax = errors.New("invalid JSON")

// Unmarshal stands for json.Unmarshal.
func Unmarshal(data []byte, p any) error {
	j := ref.JSON{S: string(data)}
	v, ok := j.Value()
	j.Space()
	if !ok || j.Pos < len(j.S) {
		return errSyntax
	}
	return store(p, v, j.S)
}

// Valid stands for json.Valid.
func Valid(data []byte) bool {
	j := ref.JSON{S: string(data)}
	_, ok := j.Value()
	j.Space()
	return ok && j.Pos == len(j.S)
}

// NewDecoder stands for json.NewDecoder.
func NewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	decs[d] = &decoder{r: r}
	return d
}

func (d *decoder) fill() {
	if d.read {
		return
	}
	d.read = true
	b := make([]byte, 64)
	var all []byte
	for {
		n, err := d.r.Read(b)
		all = append(all, b[:n]...)
		if n == len(b) && n < 1<<16 {
			b = make([]byte, 4*n)
		}
		if err != nil {
			d.json.S = string(all)
			d.err = err
			return
		}
	}
}

// Decode stands for (*json.Decoder).Decode.
func Decode(h *json.Decoder, p any) error {
	d := decs[h]
	if d.dead != nil {
		return d.dead
	}
	d.fill()
	start := d.json.Pos
	d.json.Space()
	if d.json.Pos == len(d.json.S) {
		d.dead = d.err
		return d.err
	}
	v, ok := d.json.Value()
	if !ok {
		end := d.json.Pos >= len(d.json.S)
		d.json.Pos = start
		d.dead = errSyntax
		if end && d.err == io.EOF {
			d.dead = io.ErrUnexpectedEOF
		}
		return d.dead
	}
	return store(p, v, d.json.S[start:d.json.Pos])
}

// More stands for (*json.Decoder).More.
func More(h *json.Decoder) bool {
	d := decs[h]
	d.fill()
	d.json.Space()
	return d.json.Pos < len(d.json.S) && d.json.S[d.json.Pos] != ']' && d.json.S[d.json.Pos] != '}'
}

// InputOffset stands for (*json.Decoder).InputOffset.
func InputOffset(h *json.Decoder) int64 { return int64(decs[h].json.Pos) }

// NewEncoder stands for json.NewEncoder.
func NewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	encs[e] = &encoder{w: w}
	return e
}

// SetIndent stands for (*json.Encoder).SetIndent.
func SetIndent(h *json.Encoder, prefix, indent string) {
	if prefix != "" {
		unsupported("prefixed output")
	}
	encs[h].indent = indent
}

// SetEscapeHTML stands for (*json.Encoder).SetEscapeHTML.
func SetEscapeHTML(h *json.Encoder, on bool) {}

func check(v any) {
	switch v := v.(type) {
	case nil, bool, float64, string, json.Number:
	case []any:
		for _, e := range v {
			check(e)
		}
	case map[string]any:
		for _, e := range v {
			check(e)
		}
	default:
		unsupported("encoding of another type")
	}
}

// Encode stands for (*json.Encoder).Encode.
func Encode(h *json.Encoder, v any) error {
	e := encs[h]
	if e.err != nil {
		return e.err
	}
	check(v)
	_, err := e.w.Write([]byte(ref.Encode(v, e.indent) + "\n"))
	if err != nil {
		e.err = err
	}
	return err
}

// Marshal stands for json.Marshal.
func Marshal(v any) ([]byte, error) {
	check(v)
	return []byte(ref.Encode(v, "")), nil
}

// MarshalIndent stands for json.MarshalIndent.
func MarshalIndent(v any, prefix, indent string) ([]byte, error) {
	if prefix != "" {
		unsupported("prefixed output")
	}
	check(v)
	return []byte(ref.Encode(v, indent)), nil
}

// OpenFile stands for os.OpenFile.
func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if flag != os.O_RDONLY {
		unsupported("writing of a file")
	}
	return Open(name)
}

// Sync stands for (*os.File).Sync.
func Sync(h *os.File) error { return nil }

// UseNumber stands for (*json.Decoder).UseNumber.
func UseNumber(h *json.Decoder) { decs[h].json.Numbers = true }

// The rest is not modelled.

func Token(h *json.Decoder) (json.Token, error) {
	unsupported("json.Decoder.Token")
	return nil, nil
}

func Buffered(h *json.Decoder) io.Reader {
	unsupported("json.Decoder.Buffered")
	return nil
}

func Indent(dst *bytes.Buffer, src []byte, prefix, indent string) error {
	unsupported("json.Indent")
	return nil
}

func Compact(dst *bytes.Buffer, src []byte) error {
	unsupported("json.Compact")
	return nil
}
