package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"maps"
	"math/rand/v2"
	"os"
	"path"
	"path/filepath"
	"slices"
	"strings"
	"syscall"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
)

// fsTag is what x/text knows about a language tag.
type fsTag struct {
	Str    string `json:"str"`
	Base   string `json:"base"`
	Iso3   string `json:"iso3"`
	Region string `json:"region"`
	Script string `json:"script"`
}

type fsCfg struct {
	Exts   []string `json:"exts"`
	Search bool     `json:"search"`
	Cat    string   `json:"cat"`
}

type fsEntry struct {
	P string `json:"p"`
	S string `json:"s"`
}

type fsIn struct {
	Tag    fsTag     `json:"tag"`
	Domain string    `json:"domain"`
	Cfg    fsCfg     `json:"cfg"`
	Ext    string    `json:"ext"`
	Files  []fsEntry `json:"files"`
	Style  int       `json:"style"`
}

func factsOf(tag language.Tag) fsTag {
	t := fsTag{Str: tag.String()}
	if b, c := tag.Base(); c > language.No {
		t.Base, t.Iso3 = b.String(), b.ISO3()
	}
	if r, c := tag.Region(); c > language.No {
		t.Region = r.String()
	}
	if s, c := tag.Script(); c > language.No {
		t.Script = s.String()
	}
	return t
}

// faultFS is a file system in which operations fail as its entries say.
type faultFS struct {
	r     *rand.Rand
	state map[string]string
	data  map[string][]byte
	seek  bool
	safe  bool // faults happen well before the end of a file
	hits  map[string]bool
}

// statFS also has a method to ask for files without opening them.
type statFS struct{ *faultFS }

type fileInfo struct {
	name string
	size int64
}

func (i fileInfo) Name() string       { return i.name }
func (i fileInfo) Size() int64        { return i.size }
func (i fileInfo) Mode() fs.FileMode  { return 0o444 }
func (i fileInfo) ModTime() time.Time { return time.Time{} }
func (i fileInfo) IsDir() bool        { return false }
func (i fileInfo) Sys() any           { return nil }

func (f *faultFS) fault(op, name string, kinds ...error) error {
	f.hits[name] = true
	err := kinds[f.r.IntN(len(kinds))]
	if f.r.IntN(2) == 0 {
		return &fs.PathError{Op: op, Path: name, Err: err}
	}
	return fmt.Errorf("%s %s: %w", op, name, err)
}

var errFault = errors.New("fault")

func (f statFS) Stat(name string) (fs.FileInfo, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrInvalid}
	}
	switch f.state[name] {
	case "":
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
	case "stat":
		return nil, f.fault("stat", name, errFault, fs.ErrPermission, syscall.EIO)
	}
	return fileInfo{path.Base(name), int64(len(f.data[name]))}, nil
}

func (f *faultFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	s := f.state[name]
	switch s {
	case "", "gone":
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	case "open", "stat":
		return nil, f.fault("open", name, errFault, fs.ErrPermission, syscall.EMFILE, syscall.EIO)
	}
	file := &faultFile{f: f, name: name, data: f.data[name], fail: -1}
	if s == "read" {
		file.fail = f.r.IntN(len(file.data) + 1)
		if f.safe {
			file.fail = f.r.IntN(max(1, len(file.data)-20))
		}
	}
	if f.seek || s == "seek" {
		return &seekFile{file}, nil
	}
	return file, nil
}

type faultFile struct {
	f     *faultFS
	name  string
	data  []byte
	pos   int
	fail  int // offset of the fault
	err   error
	empty int
}

func (x *faultFile) Stat() (fs.FileInfo, error) {
	return fileInfo{path.Base(x.name), int64(len(x.data))}, nil
}

func (x *faultFile) Close() error {
	if x.f.state[x.name] == "close" {
		return x.f.fault("close", x.name, errFault, syscall.EIO, fs.ErrNotExist)
	}
	return nil
}

func (x *faultFile) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if x.err != nil {
		x.f.hits[x.name] = true
		return 0, x.err
	}
	if x.empty < 3 && x.f.r.IntN(6) == 0 {
		x.empty++
		return 0, nil
	}
	x.empty = 0
	end := len(x.data)
	if x.fail >= 0 {
		end = x.fail
	}
	n := max(0, min(end-x.pos, len(b)))
	if k := pickOf(x.f.r, n, n, 1, 7, 100, 4096); k < n {
		n = k
	}
	copy(b, x.data[min(x.pos, len(x.data)):min(x.pos+n, len(x.data))])
	x.pos += n
	if x.pos < end || n > 0 && x.f.r.IntN(2) == 0 {
		return n, nil
	}
	if x.fail < 0 {
		return n, io.EOF
	}
	hit := x.f.hits[x.name]
	x.err = x.f.fault("read", x.name, errFault, syscall.EIO, io.ErrUnexpectedEOF, fs.ErrNotExist, fs.ErrClosed)
	if n == len(b) { // a reader may be content with that
		x.f.hits[x.name] = hit
	}
	return n, x.err
}

type seekFile struct{ *faultFile }

func (x *seekFile) Seek(offset int64, whence int) (int64, error) {
	if x.f.state[x.name] == "seek" {
		return 0, x.f.fault("seek", x.name, errFault, syscall.EIO, syscall.ESPIPE)
	}
	switch whence {
	case io.SeekCurrent:
		offset += int64(x.pos)
	case io.SeekEnd:
		offset += int64(len(x.data))
	}
	if offset < 0 {
		return 0, fs.ErrInvalid
	}
	x.pos = int(offset)
	return offset, nil
}

// jsonAfter decodes JSON after a first line, as decoder of the first or second kind.
type jsonAfter struct{ bad error }

func (d jsonAfter) Decode(lang language.Tag, domain string, data []byte) (catalog.Catalog, error) {
	rest, ok := bytes.CutPrefix(data, []byte("own\n"))
	if !ok {
		return nil, d.bad
	}
	return catalog.NewJSONDecoder().Decode(lang, domain, rest)
}

type jsonAfterV2 struct{ jsonAfter }

func (d jsonAfterV2) DecodeReader(lang language.Tag, domain string, r io.Reader) (catalog.Catalog, error) {
	data, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	return d.Decode(lang, domain, data)
}

func fsKeys(n int) []string {
	keys := []string{"id"}
	for i := 0; i < n; i++ {
		keys = append(keys, fmt.Sprintf("m%d", i))
	}
	return keys
}

// fsContent is a file in which every message is translated by its key and the path.
func fsContent(r *rand.Rand, p, ext string, keys []string) []byte {
	tr := func(k string) string { return k + "@" + p }
	switch ext {
	case ".po":
		var b strings.Builder
		for _, k := range keys {
			fmt.Fprintf(&b, "%smsgid %q\nmsgstr \"%s\"\n%s", pickOf(r, "", "# note\n", "#: a.go:1\n"), k, tr(k), pickOf(r, "", "\n"))
		}
		return []byte(b.String())
	case ".mo":
		var pairs [][2]string
		for _, k := range keys {
			pairs = append(pairs, [2]string{k, tr(k)})
		}
		return gen{r}.moImage(pairs, r.IntN(2) == 0)
	}
	m := map[string]string{}
	for _, k := range keys {
		m[k] = tr(k)
	}
	b, _ := json.Marshal(m)
	if ext != ".json" {
		b = append([]byte("own\n"), b...)
	}
	return b
}

func fsBad(r *rand.Rand, ext string) []byte {
	switch ext {
	case ".po":
		return []byte(pickOf(r, "msgid \"a\nmsgstr \"b\"\n", "msgid \"a\"\nmsgstr \"b\"\nrubbish\n", "msgid \"a\"\nmsgid \"b\"\n"))
	case ".mo":
		return []byte(pickOf(r, "not a mo file", "\xde\x12\x04\x95\x00\x00", ""))
	}
	return []byte(pickOf(r, `{"id": "x"`, `[1]`, "null", ""))
}

// below is a resolver which looks for files below a directory.
type below struct {
	dir  string
	next spreak.Resolver
}

func (b below) Resolve(fsys fs.FS, ext string, lang language.Tag, domain string) (string, error) {
	sub, err := fs.Sub(fsys, b.dir)
	if err != nil {
		return "", err
	}
	p, err := b.next.Resolve(sub, ext, lang, domain)
	return path.Join(b.dir, p), err
}

type fsOut struct {
	K string `json:"k"`
	P string `json:"p,omitempty"`
}

type fsEvent struct {
	R    any      `json:"r"`
	Hits []string `json:"hits"`
}

// setup: the file system, its options and what its catalogs contain.
func (in fsIn) setup(r *rand.Rand, safe bool) (*faultFS, fs.FS, []spreak.FsOption, []string, string) {
	f := &faultFS{r: r, state: map[string]string{}, data: map[string][]byte{}, seek: r.IntN(2) == 0, safe: safe, hits: map[string]bool{}}
	keys := fsKeys(pickOf(r, 0, 2, 20, 20, 300))
	gone := false
	for _, e := range in.Files {
		f.state[e.P] = e.S
		gone = gone || e.S == "gone"
		ext := path.Ext(e.P)
		if e.S == "bad" {
			f.data[e.P] = fsBad(r, ext)
		} else {
			f.data[e.P] = fsContent(r, e.P, ext, keys)
		}
	}
	var fsys fs.FS = f
	if gone || r.IntN(2) == 0 {
		fsys = statFS{f}
	}
	var dir string
	plain := len(in.Files) < 12 && r.IntN(8) == 0
	for _, e := range in.Files {
		plain = plain && (e.S == "good" || e.S == "bad")
	}
	opt := spreak.WithFs(fsys)
	if plain { // a real directory
		var err error
		if dir, err = os.MkdirTemp("", "spreak-fs"); err != nil {
			panic(err)
		}
		for p, data := range f.data {
			p = filepath.Join(dir, p)
			if err := errors.Join(os.MkdirAll(filepath.Dir(p), 0o755), os.WriteFile(p, data, 0o644)); err != nil {
				os.RemoveAll(dir)
				panic(err)
			}
		}
		fsys = os.DirFS(dir)
		opt = pickOf(r, spreak.WithFs(fsys), spreak.WithPath(dir))
	}
	opts := []spreak.FsOption{opt}
	if dir != "" && r.IntN(3) == 0 { // the same files, as seen from the root
		res, _ := spreak.NewDefaultResolver(in.resolverOpts()...)
		opts = []spreak.FsOption{spreak.WithSystemFs(), spreak.WithResolver(below{dir[1:], res})}
	} else if in.Cfg.Cat != "" || !in.Cfg.Search || r.IntN(2) == 0 {
		res, _ := spreak.NewDefaultResolver(in.resolverOpts()...)
		opts = append(opts, spreak.WithResolver(res))
	}
	for _, ext := range in.Cfg.Exts {
		own := jsonAfter{pickOf(r, errFault, fmt.Errorf("decode: %w", fs.ErrNotExist))}
		var o spreak.FsOption
		switch ext {
		case ".po":
			o = spreak.WithPoDecoder()
		case ".mo":
			o = spreak.WithMoDecoder()
		case ".json":
			o = spreak.WithJSONDecoder()
		default:
			o = spreak.WithDecoder(ext, pickOf[catalog.Decoder](r, own, jsonAfterV2{own}))
		}
		opts = append(opts, o)
	}
	return f, fsys, opts, keys, dir
}

func (in fsIn) resolverOpts() []spreak.ResolverOption {
	var o []spreak.ResolverOption
	if in.Cfg.Cat != "" {
		o = append(o, spreak.WithCategory(in.Cfg.Cat))
	}
	if !in.Cfg.Search {
		o = append(o, spreak.WithDisabledSearch())
	}
	return o
}

// earlier runs use while the files are in another state, and whatever they hold.
func (f *faultFS) earlier(r *rand.Rand, use func()) {
	state, data := f.state, f.data
	f.state, f.data = map[string]string{}, map[string][]byte{}
	some := r.IntN(2) == 0
	for _, p := range slices.Sorted(maps.Keys(state)) {
		if some && r.IntN(2) == 0 {
			f.state[p] = pickOf(r, state[p], "good", "bad")
			if f.data[p] = data[p]; r.IntN(2) == 0 {
				f.data[p] = fsContent(r, p, path.Ext(p), []string{"earlier"})
			}
		}
	}
	use()
	f.state, f.data, f.hits = state, data, map[string]bool{}
}

func (in fsIn) load(safe bool) (any, *faultFS) {
	tag := language.Make(in.Tag.Str)
	if factsOf(tag) != in.Tag {
		return fmt.Sprintf("the tag is known as %v", factsOf(tag)), nil
	}
	r := rand.New(rand.NewPCG(uint64(in.Style), 17))
	f, _, opts, keys, dir := in.setup(r, safe)
	if dir != "" {
		defer os.RemoveAll(dir)
	}
	r.Shuffle(len(opts)-len(in.Cfg.Exts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	served := func(ask func(k string) (string, error)) any {
		s, err := ask("id")
		p, ok := strings.CutPrefix(s, "id@")
		if err != nil || !ok {
			return fmt.Sprintf("a catalog without its first message (%q, %v)", s, err)
		}
		for _, k := range keys {
			if s, err := ask(k); err != nil || s != k+"@"+p {
				return fmt.Sprintf("a partial catalog: %q gives %q, %v", k, s, err)
			}
		}
		return fsOut{"ok", p}
	}
	if in.Style%4 == 0 && tag != language.Und {
		if _, _, conf := language.NewMatcher([]language.Tag{tag}).Match(tag); conf > language.No {
			bopts := []spreak.BundleOption{spreak.WithFilesystemLoader(in.Domain, opts...), spreak.WithDefaultDomain(in.Domain), spreak.WithRequiredLanguage(tag)}
			if dir == "" && r.IntN(2) == 0 {
				f.earlier(r, func() { _, _ = spreak.NewBundle(bopts...) })
			}
			b, err := spreak.NewBundle(bopts...)
			if (b == nil) == (err == nil) {
				return "neither or both of bundle and error", f
			}
			var missing *spreak.ErrNotFound
			if errors.As(err, &missing) {
				return fsOut{K: "missing"}, f
			} else if err != nil {
				return fsOut{K: "err"}, f
			}
			loc := spreak.NewLocalizer(b, tag)
			return served(func(k string) (string, error) { s := loc.Get(k); return s, nil }), f
		}
	}
	l, err := spreak.NewFilesystemLoader(opts...)
	if err != nil {
		return "no loader: " + err.Error(), f
	}
	if dir == "" && r.IntN(2) == 0 {
		f.earlier(r, func() {
			for range 1 + r.IntN(2) {
				_, _ = l.Load(tag, in.Domain)
				_, _ = l.Load(pickOf(r, language.German, language.BrazilianPortuguese, tag), pickOf(r, in.Domain, "", "b"))
			}
		})
	}
	cat, err := l.Load(tag, in.Domain)
	var missing *spreak.ErrNotFound
	switch {
	case (cat == nil) == (err == nil):
		return "neither or both of catalog and error", f
	case errors.As(err, &missing):
		if missing.Language != tag || !strings.Contains(missing.Identifier, fmt.Sprintf("%q", in.Domain)) {
			return "the missing file is reported for another language or domain", f
		}
		return fsOut{K: "missing"}, f
	case err != nil:
		return fsOut{K: "err"}, f
	}
	return served(func(k string) (string, error) { return cat.Lookup("", k) }), f
}

func init() {
	reg("fs.known", func(in fsIn) any { r, _ := in.load(true); return r })
	reg("fs.load", func(in fsIn) any {
		r, f := in.load(false)
		if s, ok := r.(string); ok {
			return s
		}
		ev := fsEvent{R: r, Hits: []string{}}
		for p := range f.hits {
			ev.Hits = append(ev.Hits, p)
		}
		slices.Sort(ev.Hits)
		return ev
	})
	reg("fs.resolve", func(in fsIn) any {
		tag := language.Make(in.Tag.Str)
		r := rand.New(rand.NewPCG(uint64(in.Style), 17))
		_, fsys, _, _, dir := in.setup(r, false)
		if dir != "" {
			defer os.RemoveAll(dir)
		}
		res, err := spreak.NewDefaultResolver(in.resolverOpts()...)
		if err != nil {
			return "no resolver: " + err.Error()
		}
		p, err := res.Resolve(fsys, in.Ext, tag, in.Domain)
		switch {
		case errors.Is(err, fs.ErrNotExist):
			return fsEvent{R: fsOut{K: "missing"}, Hits: []string{}}
		case err != nil:
			return fsEvent{R: fsOut{K: "err"}, Hits: []string{}}
		}
		return fsEvent{R: fsOut{"ok", p}, Hits: []string{}}
	})
	reg("fs.names", func(in fsIn) any {
		return fsEvent{R: spreak.ExpandLanguage(language.Make(in.Tag.Str)), Hits: []string{}}
	})
	props["P06"] = func(c *Ctx) {
		consts := map[string]string{"Tags": c.pickS("{1, 3, 7}", "1..8"), "Domains": `{"", "app"}`, "Cats": `{"", "cat"}`, "ExtLists": c.pickS("{1, 3}", "1..4"), "MaxGone": "0"}
		c.Forward(TLC{Module: "MC_FileLoad", Consts: consts}, 5000)
		g := gen{c.rnd}
		var cases []Case
		for i := 0; i < c.pick(20000, 150000); i++ {
			cases = append(cases, mk(pickOf(g.Rand, "fs.load", "fs.load", "fs.load", "fs.resolve", "fs.names"), g.files(false)))
		}
		c.Backward(TLC{Module: "Trace_FileLoad"}, cases)
	}
	props["P07"] = func(c *Ctx) {
		consts := map[string]string{"Tags": c.pickS("{1}", "{1, 3, 7}"), "Domains": `{"", "app"}`, "Cats": `{"cat"}`, "ExtLists": c.pickS("{3}", "{1, 3}"), "MaxGone": "1"}
		c.Forward(TLC{Module: "MC_FileLoad", Consts: consts}, 3000)
		g := gen{c.rnd}
		var cases []Case
		for i := 0; i < c.pick(25000, 150000); i++ {
			cases = append(cases, mk(pickOf(g.Rand, "fs.load", "fs.load", "fs.load", "fs.load", "fs.load", "fs.resolve"), g.files(true)))
		}
		c.Backward(TLC{Module: "Trace_FileLoad"}, cases)
	}
}

// files is a file system with some of the candidates, and other files.
func (g gen) files(faults bool) fsIn {
	tag := language.Make(pickOf(g.Rand, g.variantTag(), pickOf(g.Rand, "de", "en-US", "zh-TW", "sr-Cyrl", "pt-BR", "es-419", "de-AT")))
	in := fsIn{Tag: factsOf(tag), Domain: pickOf(g.Rand, "", "app", "app", "messages", "a/b", in2(tag), "LC_MESSAGES", "b\u00fccher", "x y"), Files: []fsEntry{}, Style: g.IntN(1000000)}
	in.Cfg = fsCfg{Exts: []string{}, Search: g.IntN(4) > 0, Cat: pickOf(g.Rand, "", "", "cat", "LC_MESSAGES", "LC_TIME", "x/y", in2(tag))}
	exts := []string{".po", ".mo", ".json", ".own", ".tar.gz"}
	g.Shuffle(len(exts), func(i, j int) { exts[i], exts[j] = exts[j], exts[i] })
	if g.IntN(3) > 0 {
		in.Cfg.Exts = exts[:1+g.IntN(4)]
	}
	in.Ext = exts[0]
	use := in.Cfg.Exts
	if len(use) == 0 {
		use = []string{".po", ".mo", ".json"}
	}
	names := []string{in.Tag.Str, in.Tag.Base, in.Tag.Iso3}
	if in.Tag.Base != "" {
		names = append(names, in.Tag.Base+"_"+in.Tag.Region, in.Tag.Base+"-"+in.Tag.Region, in.Tag.Base+"_"+in.Tag.Script, in.Tag.Base+"-"+in.Tag.Script)
	}
	seen := map[string]bool{}
	for k := pickOf(g.Rand, 0, 1, 2, 2, 3, 3, 5, 10, 30); k > 0; k-- {
		n, e, c, d := pickOf(g.Rand, names...), pickOf(g.Rand, use...), in.Cfg.Cat, in.Domain
		if g.IntN(12) == 0 {
			n = pickOf(g.Rand, "fr", "en", "DE", "deu", "de_DE", "und", "C", strings.ToUpper(n), strings.ToLower(n))
		}
		if g.IntN(12) == 0 {
			e = pickOf(g.Rand, ".po", ".pot", ".mo", ".json", "", ".PO", ".po~")
		}
		if g.IntN(12) == 0 {
			d = pickOf(g.Rand, "app", "other", "messages", n)
		}
		if g.IntN(12) == 0 {
			c = pickOf(g.Rand, "cat", "LC_MESSAGES", "LC_TIME")
		}
		p := pickOf(g.Rand, path.Join(n, c, d+e), path.Join(n, c, d+e), path.Join(n, "LC_MESSAGES", d+e), path.Join(n, d+e), path.Join(d, n+e), n+e, path.Join(c, n+e), path.Join("LC_MESSAGES", n+e), d+e)
		if !fs.ValidPath(p) || p == "." || path.Ext(p) == "" || seen[p] || strings.HasPrefix(path.Base(p), ".") {
			continue
		}
		seen[p] = true
		s := "good"
		if faults && g.IntN(3) > 0 {
			s = pickOf(g.Rand, "bad", "stat", "open", "read", "read", "read", "seek", "close", "gone")
		} else if g.IntN(20) == 0 {
			s = "bad"
		}
		in.Files = append(in.Files, fsEntry{p, s})
	}
	// no file where another one needs a directory
	in.Files = slices.DeleteFunc(in.Files, func(e fsEntry) bool {
		for p := range seen {
			if strings.HasPrefix(p, e.P+"/") {
				return true
			}
		}
		return false
	})
	return in
}

func in2(tag language.Tag) string {
	b, _ := tag.Base()
	return b.String()
}
