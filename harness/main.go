// Command verifharness executes recorded sessions of public API calls against
// github.com/xeipuuv/gojsonschema and reports what it observed. It decides nothing:
// the observations are judged by the TLA+ specification.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math/big"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"text/template"
	"time"

	gjs "github.com/xeipuuv/gojsonschema"
)

// Source is a description of a JSONLoader
type Source struct {
	K string `json:"k"`           // string, bytes, reader, readerpart, writer, go, raw, ref, fsref
	T string `json:"t,omitempty"` // JSON text
	U string `json:"u,omitempty"` // URL
	W int    `json:"w,omitempty"` // which file system (fsref)
}

// Reply describes what a (stub) HTTP server answers
type Reply struct {
	Status int    `json:"status"`
	Body   string `json:"body"`
	Fail   string `json:"fail,omitempty"` // "dial" or "read"
	To     string `json:"to,omitempty"`   // redirect target
}

// Checker describes a user defined format checker
type Checker struct {
	K  string `json:"k"`
	A  string `json:"a,omitempty"` // JSON text
	Op *Op    `json:"op,omitempty"`
}

// Op is one call
type Op struct {
	Op     string            `json:"op"`
	L      int               `json:"l,omitempty"`
	S      int               `json:"s,omitempty"`
	Auto   bool              `json:"auto,omitempty"`
	Vali   bool              `json:"vali,omitempty"`
	Dr     int               `json:"dr,omitempty"`
	U      string            `json:"u,omitempty"`
	Src    *Source           `json:"src,omitempty"`
	Srcs   []*Source         `json:"srcs,omitempty"`
	Name   string            `json:"name,omitempty"`
	Ck     *Checker          `json:"ck,omitempty"`
	Locale map[string]string `json:"locale,omitempty"`
	Funcs  bool              `json:"funcs,omitempty"`
	Type   string            `json:"type,omitempty"`
	Path   []string          `json:"path,omitempty"`
	Value  string            `json:"value,omitempty"`
	Own    map[string]string `json:"own,omitempty"`
	Fmt    string            `json:"fmt,omitempty"`
	Desc   string            `json:"desc,omitempty"`
	Det    map[string]string `json:"det,omitempty"`
	R      int               `json:"r,omitempty"`
	Full   bool              `json:"full,omitempty"`
	Root   string            `json:"root,omitempty"`
	Strs   []string          `json:"strs,omitempty"`
	Docs   []string          `json:"docs,omitempty"`
}

// Session is a sequence of calls
type Session struct {
	ID    int              `json:"id"`
	Ops   []Op             `json:"ops"`
	HTTP  map[string]Reply `json:"http,omitempty"`
	Files map[string]Reply `json:"files,omitempty"` // of the stub file systems; those of the second start with "1:"
	Conc  *Conc            `json:"conc,omitempty"`
	OS    map[string]Reply `json:"os,omitempty"` // files in a scratch directory, which is called /@TMP@ in the session
}

// ErrObs is an observed validation error
type ErrObs struct {
	T   string            `json:"t"`
	G   string            `json:"g"`
	P   []string          `json:"p"`
	F   string            `json:"f"`
	C   string            `json:"c"`
	D   string            `json:"d"`
	DF  string            `json:"df"`
	S   string            `json:"s"`
	V   string            `json:"v"`
	Det map[string]DetObs `json:"det"`
}

// DetObs is an observed detail of an error
type DetObs struct {
	K string `json:"k"` // n: number, s: string, o: other
	V string `json:"v"`
	S string `json:"s"` // as printed by a template
}

// Obs is the observation of one call
type Obs struct {
	OK     bool     `json:"ok"`
	Err    string   `json:"err,omitempty"`
	Panic  string   `json:"panic,omitempty"`
	Valid  bool     `json:"valid"`
	N      int      `json:"n"`
	Errs   []ErrObs `json:"errs,omitempty"`
	Got    []string `json:"got,omitempty"`
	Opened int      `json:"opened"`
	Closed int      `json:"closed"`
	Same   bool     `json:"same"`
	Mut    bool     `json:"mut,omitempty"`
	Seen   []string `json:"seen,omitempty"`
	R      bool     `json:"r"`
	Canon  string   `json:"canon,omitempty"`
	Bits   string   `json:"bits,omitempty"`
	Ev     string   `json:"ev,omitempty"`
	Nested []bool   `json:"nested,omitempty"`
	Inv    int64    `json:"inv,omitempty"`
	Ret    int64    `json:"ret,omitempty"`

	Templates map[string]string `json:"templates,omitempty"`
}

const delim = "\x01\x02"

// ---------------------------------------------------------------- stub network and files

type world struct {
	sync.Mutex
	http   map[string]Reply
	files  map[string]Reply
	got    []string
	opened int
	closed int
}

var cur = &world{}

type stubBody struct {
	w    *world
	r    io.Reader
	done bool
}

func (b *stubBody) Read(p []byte) (int, error) { return b.r.Read(p) }
func (b *stubBody) Close() error {
	b.w.Lock()
	defer b.w.Unlock()
	if !b.done {
		b.w.closed++
		b.done = true
	}
	return nil
}

type failingReader struct {
	r io.Reader
}

func (f failingReader) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		return n, fmt.Errorf("connection reset")
	}
	return n, err
}

type stubTransport struct{}

func (stubTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	w := cur
	w.Lock()
	defer w.Unlock()
	if req.Body != nil {
		req.Body.Close()
	}
	u := req.URL.String()
	w.got = append(w.got, u)
	rep, ok := w.http[u]
	if !ok {
		rep = Reply{Status: 404, Body: `{"type":"null"}`}
	}
	if rep.Fail == "dial" {
		return nil, fmt.Errorf("connection refused")
	}
	w.opened++
	var r io.Reader = strings.NewReader(rep.Body)
	if rep.Fail == "read" {
		r = failingReader{r}
	}
	// what servers say about the body varies and does not matter
	size, n := int64(-1), len(u)+len(rep.Body)
	if n%2 == 0 {
		size = int64(len(rep.Body))
	}
	h := http.Header{}
	if t := []string{"application/json", "application/schema+json; charset=utf-8", "text/plain", ""}[n%4]; t != "" {
		h.Set("Content-Type", t)
	}
	if rep.To != "" {
		h.Set("Location", rep.To)
	}
	return &http.Response{
		Status: fmt.Sprintf("%d %s", rep.Status, http.StatusText(rep.Status)), StatusCode: rep.Status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h,
		Body: &stubBody{w: w, r: r}, ContentLength: size, Request: req,
	}, nil
}

type stubFile struct {
	*stubBody
	name string
	size int64
}

func (f *stubFile) Seek(int64, int) (int64, error)     { return 0, fmt.Errorf("no seek") }
func (f *stubFile) Readdir(int) ([]os.FileInfo, error) { return nil, fmt.Errorf("no dir") }
func (f *stubFile) Stat() (os.FileInfo, error)         { return f, nil }
func (f *stubFile) Name() string                       { return f.name }
func (f *stubFile) Size() int64                        { return f.size }
func (f *stubFile) Mode() os.FileMode                  { return 0444 }
func (f *stubFile) ModTime() time.Time                 { return time.Time{} }
func (f *stubFile) IsDir() bool                        { return false }
func (f *stubFile) Sys() interface{}                   { return nil }

type stubFS struct{ w int }

func (fs stubFS) Open(name string) (http.File, error) {
	w := cur
	w.Lock()
	defer w.Unlock()
	w.got = append(w.got, "file://"+name)
	key := name
	if fs.w > 0 {
		key = fmt.Sprintf("%d:%s", fs.w, name)
	}
	rep, ok := w.files[key]
	if !ok || rep.Fail == "dial" {
		return nil, os.ErrNotExist
	}
	w.opened++
	var r io.Reader = strings.NewReader(rep.Body)
	if rep.Fail == "read" {
		r = failingReader{r}
	}
	return &stubFile{&stubBody{w: w, r: r}, name, int64(len(rep.Body))}, nil
}

// ---------------------------------------------------------------- values

func decode(text string) interface{} {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil
	}
	return v
}

func encode(v interface{}) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		return "\"unencodable " + strings.Replace(fmt.Sprintf("%T", v), "\"", "", -1) + "\""
	}
	return strings.TrimSuffix(b.String(), "\n")
}

type chunked struct{ r io.Reader }

func (c chunked) Read(p []byte) (int, error) {
	if len(p) > 7 {
		p = p[:7]
	}
	return c.r.Read(p)
}

// loader builds the JSONLoader a source describes; the second result is the
// decoded document that is handed over as such (raw loader only)
func loader(s *Source) (gjs.JSONLoader, interface{}) {
	switch s.K {
	case "bytes":
		return gjs.NewBytesLoader([]byte(s.T)), nil
	case "reader":
		l, r := gjs.NewReaderLoader(chunked{strings.NewReader(s.T)})
		ioutil.ReadAll(r)
		return l, nil
	case "writer":
		var sink bytes.Buffer
		l, w := gjs.NewWriterLoader(&sink)
		io.Copy(w, chunked{strings.NewReader(s.T)})
		return l, nil
	case "go":
		return gjs.NewGoLoader(decode(s.T)), nil
	case "gofloat":
		var v interface{}
		json.Unmarshal([]byte(s.T), &v)
		return gjs.NewGoLoader(v), nil
	case "gotyped":
		return gjs.NewGoLoader(typed(decode(s.T))), nil
	case "goraw":
		return gjs.NewGoLoader(json.RawMessage(s.T)), nil
	case "raw":
		v := decode(s.T)
		return gjs.NewRawLoader(v), v
	case "shared":
		return gjs.NewRawLoader(sharedDocs[s.W]), sharedDocs[s.W]
	case "ref":
		return gjs.NewReferenceLoader(s.U), nil
	case "fsref":
		return gjs.NewReferenceLoaderFileSystem(s.U, stubFS{s.W}), nil
	}
	return gjs.NewStringLoader(s.T), nil
}

// typed turns a decoded value into one made of Go's own types where that loses nothing
func typed(v interface{}) interface{} {
	switch x := v.(type) {
	case json.Number:
		if i, ok := new(big.Int).SetString(string(x), 10); ok {
			if i.IsInt64() && x != "-0" {
				return i.Int64()
			}
			return i
		}
		return x
	case []interface{}:
		l := make([]interface{}, len(x))
		all := true
		for i := range x {
			l[i] = typed(x[i])
			s, ok := x[i].(string)
			if ok {
				l[i] = s
			}
			all = all && ok
		}
		if all && len(l) > 0 {
			ss := []string{}
			for _, e := range l {
				ss = append(ss, e.(string))
			}
			return ss
		}
		return l
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range x {
			m[k] = typed(e)
		}
		return &m
	case string:
		return &x
	}
	return v
}

func detail(v interface{}) DetObs {
	d := DetObs{K: "o", V: fmt.Sprintf("%T", v), S: fmt.Sprint(v)}
	switch x := v.(type) {
	case string:
		d.K, d.V = "s", x
	case *big.Float:
		d.K = "n"
		if x.IsInt() {
			d.V = x.Text('f', 0)
		} else {
			d.V = x.Text('g', 15)
		}
	case *big.Rat:
		d.K, d.V = "n", x.FloatString(30)
	case *regexp.Regexp:
		d.K, d.V = "s", x.String()
	case json.Number:
		d.K, d.V = "n", string(x)
	case error:
		d.K, d.V = "s", x.Error()
	default:
		rv := reflect.ValueOf(v)
		switch rv.Kind() {
		case reflect.Int, reflect.Int64, reflect.Int32, reflect.Uint, reflect.Uint64, reflect.Float64:
			d.K, d.V = "n", fmt.Sprint(v)
		case reflect.String:
			d.K, d.V = "s", rv.String()
		}
	}
	return d
}

func observe(e gjs.ResultError) ErrObs {
	if e.Context() == nil {
		// such an error has no string form
		return ErrObs{T: e.Type(), D: e.Description(), DF: e.DescriptionFormat(), V: encode(e.Value()), Det: details(e)}
	}
	o := ErrObs{T: e.Type(), G: strings.TrimPrefix(fmt.Sprintf("%T", e), "*gojsonschema."),
		F: e.Field(), D: e.Description(), DF: e.DescriptionFormat(), S: e.String(),
		V: encode(e.Value()), Det: details(e)}
	o.P = strings.Split(e.Context().String(delim), delim)
	o.C = e.Context().String()
	return o
}

func details(e gjs.ResultError) map[string]DetObs {
	m := map[string]DetObs{}
	for k, v := range e.Details() {
		m[k] = detail(v)
	}
	return m
}

func observeAll(r *gjs.Result) []ErrObs {
	l := []ErrObs{}
	for _, e := range r.Errors() {
		l = append(l, observe(e))
	}
	return l
}

func snapshot(r *gjs.Result) string {
	b, _ := json.Marshal(observeAll(r))
	return fmt.Sprint(r.Valid()) + string(b)
}

// ---------------------------------------------------------------- format checkers

type checker struct {
	ck   *Checker
	seen *[]string
}

func (c checker) IsFormat(input interface{}) bool {
	if c.seen != nil {
		*c.seen = append(*c.seen, fmt.Sprintf("%T|%s", input, encode(input)))
	}
	switch c.ck.K {
	case "park", "do":
		return parkChecker(c)
	case "const":
		var b bool
		json.Unmarshal([]byte(c.ck.A), &b)
		return b
	case "types":
		var ts []string
		json.Unmarshal([]byte(c.ck.A), &ts)
		for _, t := range ts {
			if hasType(input, t) {
				return true
			}
		}
		return false
	case "maxlen":
		var n int
		json.Unmarshal([]byte(c.ck.A), &n)
		s, ok := input.(string)
		return !ok || len([]rune(s)) <= n
	case "eq":
		return sameJSON(decode(string(c.ck.A)), input)
	case "num":
		n, ok := input.(json.Number)
		if !ok {
			return false
		}
		a, _ := new(big.Rat).SetString(string(n))
		b, _ := new(big.Rat).SetString(strings.Trim(string(c.ck.A), "\""))
		return a != nil && b != nil && a.Cmp(b) > 0
	}
	return false
}

func hasType(v interface{}, t string) bool {
	switch x := v.(type) {
	case nil:
		return t == "null"
	case bool:
		return t == "boolean"
	case string:
		return t == "string"
	case json.Number:
		r, ok := new(big.Rat).SetString(string(x))
		return t == "number" || (t == "integer" && ok && r.IsInt())
	case []interface{}:
		return t == "array"
	case map[string]interface{}:
		return t == "object"
	}
	return false
}

func sameJSON(a, b interface{}) bool {
	if x, ok := a.(json.Number); ok {
		y, ok := b.(json.Number)
		if !ok {
			return false
		}
		p, _ := new(big.Rat).SetString(string(x))
		q, _ := new(big.Rat).SetString(string(y))
		return p != nil && q != nil && p.Cmp(q) == 0
	}
	if x, ok := a.([]interface{}); ok {
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameJSON(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	if x, ok := a.(map[string]interface{}); ok {
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			v, ok := y[k]
			if !ok || !sameJSON(x[k], v) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

var stdFormats = map[string]gjs.FormatChecker{
	"date": gjs.DateFormatChecker{}, "time": gjs.TimeFormatChecker{}, "date-time": gjs.DateTimeFormatChecker{},
	"hostname": gjs.HostnameFormatChecker{}, "email": gjs.EmailFormatChecker{}, "idn-email": gjs.EmailFormatChecker{},
	"ipv4": gjs.IPV4FormatChecker{}, "ipv6": gjs.IPV6FormatChecker{}, "uri": gjs.URIFormatChecker{},
	"uri-reference": gjs.URIReferenceFormatChecker{}, "iri": gjs.URIFormatChecker{},
	"iri-reference": gjs.URIReferenceFormatChecker{}, "uri-template": gjs.URITemplateFormatChecker{},
	"uuid": gjs.UUIDFormatChecker{}, "regex": gjs.RegexFormatChecker{}, "json-pointer": gjs.JSONPointerFormatChecker{},
	"relative-json-pointer": gjs.RelativeJSONPointerFormatChecker{},
}

// ---------------------------------------------------------------- sessions

type state struct {
	loaders []*gjs.SchemaLoader
	schemas []*gjs.Schema
	results []*gjs.Result
	snaps   []string
	touched map[string]bool
	seen    []string
	conc    bool
}

func draft(n int) gjs.Draft {
	if n == 99 {
		return gjs.Hybrid
	}
	return gjs.Draft(n)
}

// CustomError is a user defined error
type CustomError struct {
	gjs.ResultErrorFields
}

func (st *state) exec(op *Op) (o Obs) {
	cur.Lock()
	cur.got, cur.opened, cur.closed = nil, 0, 0
	cur.Unlock()
	st.seen = nil
	defer func() {
		if r := recover(); r != nil {
			o = Obs{Panic: fmt.Sprint(r) + "\n" + trimStack(debug.Stack())}
			switch op.Op {
			case "new":
				st.loaders = append(st.loaders, nil)
			case "compile":
				st.schemas = append(st.schemas, nil)
			case "validate":
				st.results, st.snaps = append(st.results, nil), append(st.snaps, "")
			}
		}
		cur.Lock()
		o.Got, o.Opened, o.Closed = cur.got, cur.opened, cur.closed
		cur.Unlock()
		o.Opened += openFiles()
		o.Seen = st.seen
	}()
	fail := func(err error) { o.Err = err.Error() }
	switch op.Op {
	case "new":
		l := gjs.NewSchemaLoader()
		l.AutoDetect, l.Validate, l.Draft = op.Auto, op.Vali, draft(op.Dr)
		st.loaders = append(st.loaders, l)
		o.OK = true
	case "newdefault":
		st.loaders = append(st.loaders, gjs.NewSchemaLoader())
		o.OK = true
	case "opts":
		l := st.loaders[op.L-1]
		l.AutoDetect, l.Validate, l.Draft = op.Auto, op.Vali, draft(op.Dr)
		o.OK = true
	case "add":
		src, _ := loader(op.Src)
		if err := st.loaders[op.L-1].AddSchema(op.U, src); err != nil {
			fail(err)
		} else {
			o.OK = true
		}
	case "adds":
		var ls []gjs.JSONLoader
		for _, s := range op.Srcs {
			l, _ := loader(s)
			ls = append(ls, l)
		}
		if err := st.loaders[op.L-1].AddSchemas(ls...); err != nil {
			fail(err)
		} else {
			o.OK = true
		}
	case "compile":
		src, _ := loader(op.Src)
		var s *gjs.Schema
		var err error
		if op.L == 0 {
			s, err = gjs.NewSchema(src)
		} else {
			s, err = st.loaders[op.L-1].Compile(src)
		}
		if err != nil {
			s = nil
			fail(err)
		} else {
			o.OK = true
		}
		st.schemas = append(st.schemas, s)
	case "rootname":
		st.schemas[op.S-1].SetRootSchemaName(op.Root)
		o.OK = true
	case "validate", "validate2":
		if op.Op == "validate" && st.schemas[op.S-1] == nil {
			st.results, st.snaps = append(st.results, nil), append(st.snaps, "")
			fail(fmt.Errorf("no schema"))
			return
		}
		src, doc := loader(op.Src)
		before := ""
		if doc != nil {
			before = encode(doc)
		}
		var r *gjs.Result
		var err error
		if op.Op == "validate2" {
			ls, _ := loader(op.Srcs[0])
			r, err = gjs.Validate(ls, src)
		} else {
			r, err = st.schemas[op.S-1].Validate(src)
		}
		o.Canon = encode(decode(op.Src.T))
		if doc != nil && encode(doc) != before {
			o.Mut = true
		}
		if err != nil {
			fail(err)
			st.results, st.snaps = append(st.results, nil), append(st.snaps, "")
			return
		}
		o.OK = true
		o.Valid = r.Valid()
		o.N = len(r.Errors())
		if op.Full {
			o.Errs = observeAll(r)
		}
		st.results = append(st.results, r)
		st.snaps = append(st.snaps, snapshot(r))
	case "templates":
		o.Templates = map[string]string{}
		v := reflect.ValueOf(gjs.Locale)
		for i := 0; i < v.NumMethod(); i++ {
			f, ok := v.Method(i).Interface().(func() string)
			if ok {
				o.Templates[v.Type().Method(i).Name] = f()
			}
		}
		o.OK = true
	case "reread":
		o.Same = true
		for i, r := range st.results {
			if r != nil && snapshot(r) != st.snaps[i] {
				o.Same = false
			}
		}
		o.OK = true
	case "fadd":
		c := checker{op.Ck, &st.seen}
		if st.conc {
			c.seen = nil
		}
		gjs.FormatCheckers.Add(op.Name, c)
		st.touched[op.Name] = true
		o.OK = true
	case "fstd":
		gjs.FormatCheckers.Add(op.Name, stdFormats[op.U])
		st.touched[op.Name] = true
		o.OK = true
	case "fdel":
		gjs.FormatCheckers.Remove(op.Name)
		st.touched[op.Name] = true
		o.OK = true
	case "fhas":
		o.R = gjs.FormatCheckers.Has(op.Name)
		o.OK = true
	case "fis":
		o.R = gjs.FormatCheckers.IsFormat(op.Name, decode(op.Src.T))
		o.OK = true
	case "fbulk":
		// per string: the answer of the registry and that of a schema with the format
		sch, err := gjs.NewSchema(gjs.NewGoLoader(map[string]interface{}{"format": op.Name}))
		if err != nil {
			fail(err)
			return
		}
		var b strings.Builder
		for _, x := range op.Strs {
			var v interface{} = x
			r1 := gjs.FormatCheckers.IsFormat(op.Name, v)
			r, err := sch.Validate(gjs.NewRawLoader(v))
			switch {
			case err != nil:
				b.WriteString("e")
			case r1 != r.Valid():
				b.WriteString("d")
			case r1:
				b.WriteString("y")
			default:
				b.WriteString("n")
			}
		}
		o.Bits = b.String()
		o.OK = true
	case "mbulk":
		// per schema: E if it is not compiled, otherwise the verdicts on all documents
		docs := make([]interface{}, len(op.Docs))
		for i, d := range op.Docs {
			docs[i] = decode(d)
		}
		res := make([]string, len(op.Strs))
		for i, t := range op.Strs {
			res[i] = verdicts(op, t, docs)
		}
		o.Bits = strings.Join(res, ",")
		o.OK = true
	case "locale":
		if op.Locale == nil {
			gjs.Locale = gjs.DefaultLocale{}
		} else {
			gjs.Locale = custom{m: op.Locale}
		}
		o.OK = true
	case "funcs":
		if op.Funcs {
			gjs.ErrorTemplateFuncs = template.FuncMap{"wrap": func(v interface{}) string { return "<" + fmt.Sprint(v) + ">" }}
		} else {
			gjs.ErrorTemplateFuncs = nil
		}
		o.OK = true
	case "adderror":
		r := st.results[op.R-1]
		n := len(r.Errors())
		before := ""
		for _, e := range r.Errors() {
			b, _ := json.Marshal(observe(e))
			before += string(b)
		}
		e := &CustomError{}
		var c *gjs.JsonContext
		for _, h := range op.Path {
			c = gjs.NewJsonContext(h, c)
		}
		if c != nil {
			e.SetContext(c)
		}
		e.SetType(op.Type)
		e.SetDescriptionFormat(op.Fmt)
		if op.Desc != "" {
			e.SetDescription(op.Desc)
		}
		v := decode(string(op.Value))
		e.SetValue(v)
		own := gjs.ErrorDetails{}
		for k, v := range op.Own {
			own[k] = v
		}
		e.SetDetails(own)
		given := gjs.ErrorDetails{}
		for k, v := range op.Det {
			given[k] = v
		}
		r.AddError(e, given)
		st.snaps[op.R-1] = snapshot(r)
		o.OK, o.Valid, o.N = true, r.Valid(), len(r.Errors())
		after := ""
		for _, e := range r.Errors()[:n] {
			b, _ := json.Marshal(observe(e))
			after += string(b)
		}
		o.Same = before == after && o.N == n+1 && r.Errors()[n] == gjs.ResultError(e)
		if o.N == n+1 {
			o.Errs = []ErrObs{observe(r.Errors()[n])}
		}
	}
	return
}

func trimStack(b []byte) string {
	l := strings.Split(string(b), "\n")
	if len(l) > 24 {
		l = l[:24]
	}
	return strings.Join(l, "\n")
}

// scratch is the directory that sessions call /@TMP@
var scratch string

// openFiles counts the files of the scratch directory that are open
func openFiles() int {
	if scratch == "" {
		return 0
	}
	n := 0
	fds, _ := ioutil.ReadDir("/proc/self/fd")
	for _, f := range fds {
		if l, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && strings.HasPrefix(l, scratch+"/") {
			n++
		}
	}
	return n
}

func run(s *Session) []Obs {
	cur = &world{http: s.HTTP, files: s.Files}
	for name, f := range s.OS {
		if os.MkdirAll(filepath.Dir(name), 0700) != nil || ioutil.WriteFile(name, []byte(f.Body), 0600) != nil {
			fmt.Fprintln(os.Stderr, "cannot write", name)
			os.Exit(4)
		}
		defer os.Remove(name)
	}
	st := &state{touched: map[string]bool{}}
	defer func() {
		gjs.Locale = gjs.DefaultLocale{}
		gjs.ErrorTemplateFuncs = nil
		names := []string{}
		for n := range st.touched {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if f, ok := stdFormats[n]; ok {
				gjs.FormatCheckers.Add(n, f)
			} else {
				gjs.FormatCheckers.Remove(n)
			}
		}
	}()
	obs := []Obs{}
	for i := range s.Ops {
		o := st.exec(&s.Ops[i])
		obs = append(obs, o)
		if o.Panic != "" {
			break
		}
	}
	if s.Conc != nil {
		obs = append(obs, s.Conc.run(st)...)
	}
	return obs
}

func verdicts(op *Op, schema string, docs []interface{}) (res string) {
	defer func() {
		if r := recover(); r != nil {
			res += "P"
		}
	}()
	l := gjs.NewSchemaLoader()
	l.AutoDetect, l.Validate, l.Draft = op.Auto, op.Vali, draft(op.Dr)
	plain := op.Auto && !op.Vali && op.Dr == 99
	var s *gjs.Schema
	var err error
	if plain {
		s, err = gjs.NewSchema(gjs.NewStringLoader(schema))
	} else {
		s, err = l.Compile(gjs.NewStringLoader(schema))
	}
	if err != nil {
		return "E"
	}
	b := make([]byte, 0, len(docs))
	for i := range docs {
		var in gjs.JSONLoader
		if i%2 == 0 {
			in = gjs.NewStringLoader(op.Docs[i])
		} else {
			in = gjs.NewRawLoader(docs[i])
		}
		var r *gjs.Result
		if plain && i%8 == 4 {
			r, err = gjs.Validate(gjs.NewStringLoader(schema), in)
		} else {
			r, err = s.Validate(in)
		}
		switch {
		case err != nil:
			b = append(b, 'e')
		case r.Valid() != (len(r.Errors()) == 0):
			b = append(b, 'x')
		case r.Valid():
			b = append(b, '1')
		default:
			b = append(b, '0')
		}
	}
	return string(b)
}

func main() {
	http.DefaultTransport = stubTransport{}
	limit := 60 * time.Second
	if v := os.Getenv("VERIF_SESSION_TIMEOUT"); v != "" {
		if d, err := time.ParseDuration(v); err == nil {
			limit = d
		}
	}
	debug.SetMaxStack(256 << 20)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) > 0 {
			if bytes.Contains(line, []byte("/@TMP@")) {
				if scratch == "" {
					var e error
					if scratch, e = ioutil.TempDir("", "verifharness"); e != nil {
						fmt.Fprintln(os.Stderr, e)
						os.Exit(4)
					}
					defer os.RemoveAll(scratch)
				}
				line = bytes.Replace(line, []byte("/@TMP@"), []byte(scratch), -1)
			}
			s := &Session{}
			if e := json.Unmarshal(line, s); e != nil {
				fmt.Fprintln(os.Stderr, "bad session:", e)
				os.Exit(4)
			}
			fmt.Fprintf(out, "{\"start\":%d}\n", s.ID)
			out.Flush()
			done := make(chan []Obs, 1)
			go func() { done <- run(s) }()
			select {
			case obs := <-done:
				b, e := json.Marshal(map[string]interface{}{"id": s.ID, "obs": obs})
				if e != nil {
					fmt.Fprintln(os.Stderr, "cannot report:", e)
					os.Exit(4)
				}
				out.Write(b)
				out.WriteByte('\n')
				out.Flush()
			case <-stuck:
				fmt.Fprintf(out, "{\"hang\":%d}\n", s.ID)
				out.Flush()
				os.Exit(3)
			case <-time.After(limit):
				fmt.Fprintf(out, "{\"hang\":%d}\n", s.ID)
				out.Flush()
				os.Exit(3)
			}
		}
		if err != nil {
			break
		}
	}
	out.Flush()
}
