package main

import (
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"
	"time"
)

// An in-memory file system: the harness's working directory and everything below it.

type inode struct {
	dir  bool
	data []value
}

type memFS struct {
	cwd   string
	nodes map[string]*inode
}

func newMemFS() *memFS {
	f := &memFS{cwd: "/work", nodes: map[string]*inode{}}
	for _, d := range []string{"/", "/work", "/tmp", "/dev"} {
		f.nodes[d] = &inode{dir: true}
	}
	return f
}

func (f *memFS) abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = f.cwd + "/" + p
	}
	return path.Clean(p)
}

func (f *memFS) list(d string) []string {
	var l []string
	for n := range f.nodes {
		if n != d && path.Dir(n) == d {
			l = append(l, path.Base(n))
		}
	}
	sort.Strings(l)
	return l
}

type fileObj struct {
	name   string
	node   *inode
	pos    int
	closed bool
	null   bool
	write  bool
	read   bool
	app    bool
	dirPos int
	names  []string
}

// gzBlob is one complete compressed stream.
type gzBlob struct {
	els      []value
	complete bool
}

type gzWriter struct {
	w      iface
	els    []value
	closed bool
}

type gzReader struct {
	els    []value
	pos    int
	trunc  bool
	closed bool
}

func (in *Interp) newFile(o *fileObj) value {
	t := in.P.typeOf("os", "File")
	c := cellOf(zero(t))
	in.natives[c] = &opaque{kind: "file", data: o}
	return c
}

func (in *Interp) file(v value) *fileObj {
	p := in.deref(v)
	o := in.natives[p]
	if o == nil {
		panic(pathEnd{"unsupported", "unknown file object"})
	}
	return o.data.(*fileObj)
}

func (in *Interp) pathErr(op, name, kind string) iface {
	var e iface
	switch kind {
	case "notexist":
		e = in.namedErr("notexist", "file does not exist")
	case "exist":
		e = in.namedErr("exist", "file already exists")
	case "closed":
		e = in.namedErr("closed", "file already closed")
	default:
		e = in.namedErr(kind, kind)
	}
	t := in.P.typeOf("io/fs", "PathError")
	return iface{types.NewPointer(t), cellOf(structV{op, name, e})}
}

func (in *Interp) openFile(name string, flag int64) value {
	const (
		wronly = 1
		rdwr   = 2
		creat  = 0x40
		excl   = 0x80
		trunc  = 0x200
		app    = 0x400
	)
	nilF := (*value)(nil)
	a := in.fs.abs(name)
	n := in.fs.nodes[a]
	if n == nil {
		if flag&creat == 0 {
			return tuple{nilF, in.pathErr("open", name, "notexist")}
		}
		d := in.fs.nodes[path.Dir(a)]
		if d == nil || !d.dir {
			return tuple{nilF, in.pathErr("open", name, "notexist")}
		}
		n = &inode{}
		in.fs.nodes[a] = n
	} else if flag&excl != 0 && flag&creat != 0 {
		return tuple{nilF, in.pathErr("open", name, "exist")}
	}
	if n.dir && flag&(wronly|rdwr) != 0 {
		return tuple{nilF, in.pathErr("open", name, "is a directory")}
	}
	if flag&trunc != 0 {
		n.data = nil
	}
	return tuple{in.newFile(&fileObj{name: name, node: n, write: flag&(wronly|rdwr) != 0, read: flag&wronly == 0, app: flag&app != 0}), nilIface}
}

func (in *Interp) fileInfo(name string, n *inode) iface {
	t := in.P.typeOf("os", "fileStat")
	s := zero(t).(structV)
	s[0] = name
	sz := int64(0)
	for _, e := range n.data {
		switch e.(type) {
		case *Tok, *gzBlob:
			sz += 8
		default:
			sz++
		}
	}
	s[1] = sz
	if n.dir {
		s[2] = int64(1<<31 | 0o755)
	} else {
		s[2] = int64(0o644)
	}
	return iface{types.NewPointer(t), cellOf(s)}
}

func (o *fileObj) rd(in *Interp, buf []value) (int, iface) {
	if o.closed {
		return 0, in.pathErr("read", o.name, "closed")
	}
	if o.null {
		return 0, in.ioEOF()
	}
	if o.node.dir {
		return 0, in.pathErr("read", o.name, "is a directory")
	}
	if !o.read {
		return 0, in.pathErr("read", o.name, "bad file descriptor")
	}
	if len(buf) == 0 {
		return 0, nilIface
	}
	if o.pos >= len(o.node.data) {
		return 0, in.ioEOF()
	}
	n := copy(buf, o.node.data[o.pos:])
	o.pos += n
	return n, nilIface
}

func (o *fileObj) wr(in *Interp, buf []value) (int, iface) {
	if o.closed {
		return 0, in.pathErr("write", o.name, "closed")
	}
	if o.null {
		return len(buf), nilIface
	}
	if !o.write {
		return 0, in.pathErr("write", o.name, "bad file descriptor")
	}
	if o.app {
		o.pos = len(o.node.data)
	}
	for len(o.node.data) < o.pos {
		o.node.data = append(o.node.data, int64(0))
	}
	o.node.data = append(o.node.data[:o.pos:o.pos], buf...)
	o.pos += len(buf)
	return len(buf), nilIface
}

// readAll drains a reader.
func (in *Interp) readAll(fr *frame, r iface) ([]value, iface) {
	var out []value
	buf := make([]value, 512)
	for {
		for i := range buf {
			buf[i] = int64(0)
		}
		t := in.callMethod(fr, r, "Read", buf).(tuple)
		n := int(in.concInt(t[0]))
		out = append(out, buf[:n]...)
		e := t[1].(iface)
		if e.t != nil {
			if in.equal(e, in.ioEOF()) == true {
				return out, nilIface
			}
			return out, e
		}
		if n == 0 && len(out) > 1<<20 {
			panic(pathEnd{"unsupported", "endless reader"})
		}
	}
}

func durString(d int64) string { return time.Duration(d).String() }

func goTime(s structV) time.Time {
	return time.Unix(s[1].(int64)-unixToInternal, 0).UTC()
}

const fixedNow = 1767225600 // 2026-01-01

func (in *Interp) now() value {
	in.nowN++
	t := zero(in.P.typeOf("time", "Time")).(structV)
	t[1] = int64(fixedNow + unixToInternal)
	return t
}

func (in *Interp) timeSub(a, b value) value {
	x, y := a.(structV), b.(structV)
	k := kind{isInt: true, bits: 64, signed: true}
	if w1, ok := x[0].(int64); !ok || w1 != 0 {
		panic(pathEnd{"unsupported", "time with nanoseconds"})
	}
	if w2, ok := y[0].(int64); !ok || w2 != 0 {
		panic(pathEnd{"unsupported", "time with nanoseconds"})
	}
	d := linSub(intLin(x[1], k), intLin(y[1], k))
	lim := ratInt(9223372036)
	if in.p.branch(mkCmp(linSub(d, linConst(lim)), relGT)) {
		return int64(1<<63 - 1)
	}
	if in.p.branch(mkCmp(linAdd(d, linConst(lim)), relLT)) {
		return int64(-1 << 63)
	}
	return simp(linScale(d, ratInt(1000000000)), false)
}

func addFS(T map[string]stubFn) {
	T["os.Create"] = func(in *Interp, fr *frame, a []value) value {
		return in.openFile(in.concStr(a[0]), 2|0x40|0x200)
	}
	T["os.Open"] = func(in *Interp, fr *frame, a []value) value { return in.openFile(in.concStr(a[0]), 0) }
	T["os.OpenFile"] = func(in *Interp, fr *frame, a []value) value {
		return in.openFile(in.concStr(a[0]), in.concInt(a[1]))
	}
	stat := func(in *Interp, fr *frame, a []value) value {
		p := in.concStr(a[0])
		n := in.fs.nodes[in.fs.abs(p)]
		if n == nil {
			return tuple{nilIface, in.pathErr("stat", p, "notexist")}
		}
		return tuple{in.fileInfo(path.Base(p), n), nilIface}
	}
	T["os.Stat"], T["os.Lstat"] = stat, stat
	T["os.Getwd"] = func(in *Interp, fr *frame, a []value) value { return tuple{in.fs.cwd, nilIface} }
	T["os.Chdir"] = func(in *Interp, fr *frame, a []value) value {
		p := in.fs.abs(in.concStr(a[0]))
		if n := in.fs.nodes[p]; n == nil || !n.dir {
			return in.pathErr("chdir", p, "notexist")
		}
		in.fs.cwd = p
		return nilIface
	}
	mk := func(in *Interp, fr *frame, a []value) value {
		p := in.fs.abs(in.concStr(a[0]))
		for q := p; q != "/"; q = path.Dir(q) {
			if in.fs.nodes[q] == nil {
				in.fs.nodes[q] = &inode{dir: true}
			}
		}
		return nilIface
	}
	T["os.MkdirAll"] = mk
	T["os.Mkdir"] = func(in *Interp, fr *frame, a []value) value {
		p := in.fs.abs(in.concStr(a[0]))
		if in.fs.nodes[p] != nil {
			return in.pathErr("mkdir", p, "exist")
		}
		return mk(in, fr, a)
	}
	rm := func(in *Interp, fr *frame, a []value) value {
		p := in.fs.abs(in.concStr(a[0]))
		if in.fs.nodes[p] == nil {
			return in.pathErr("remove", p, "notexist")
		}
		delete(in.fs.nodes, p)
		return nilIface
	}
	T["os.Remove"] = rm
	T["os.RemoveAll"] = func(in *Interp, fr *frame, a []value) value {
		p := in.fs.abs(in.concStr(a[0]))
		for n := range in.fs.nodes {
			if n == p || strings.HasPrefix(n, p+"/") {
				delete(in.fs.nodes, n)
			}
		}
		return nilIface
	}
	T["os.Rename"] = func(in *Interp, fr *frame, a []value) value {
		p, q := in.fs.abs(in.concStr(a[0])), in.fs.abs(in.concStr(a[1]))
		n := in.fs.nodes[p]
		if n == nil {
			return in.pathErr("rename", p, "notexist")
		}
		delete(in.fs.nodes, p)
		in.fs.nodes[q] = n
		return nilIface
	}
	isErr := func(kind string) stubFn {
		return func(in *Interp, fr *frame, a []value) value {
			e := a[0].(iface)
			for i := 0; i < 10 && e.t != nil; i++ {
				x, ok := in.errs[kind]
				if ok && in.equal(e, x) == true {
					return true
				}
				f := in.methodNamed(e.t, "Unwrap")
				if f == nil {
					return false
				}
				e = in.callFn(f, fr, []value{e.v}, nil).(iface)
			}
			return false
		}
	}
	T["os.IsNotExist"], T["os.IsExist"] = isErr("notexist"), isErr("exist")
	T["(*io/fs.PathError).Error"] = func(in *Interp, fr *frame, a []value) value {
		s := (*in.deref(a[0])).(structV)
		return in.concStr(s[0]) + " " + in.concStr(s[1]) + ": error"
	}
	T["(*io/fs.PathError).Unwrap"] = func(in *Interp, fr *frame, a []value) value {
		return (*in.deref(a[0])).(structV)[2]
	}
	T["os.TempDir"] = func(in *Interp, fr *frame, a []value) value { return "/tmp" }
	T["os.Getenv"] = func(in *Interp, fr *frame, a []value) value { return "" }
	rdAll := func(in *Interp, fr *frame, a []value) value {
		p := in.concStr(a[0])
		n := in.fs.nodes[in.fs.abs(p)]
		if n == nil || n.dir {
			return tuple{[]value(nil), in.pathErr("open", p, "notexist")}
		}
		return tuple{append([]value(nil), n.data...), nilIface}
	}
	T["os.ReadFile"], T["io/ioutil.ReadFile"] = rdAll, rdAll
	wrAll := func(in *Interp, fr *frame, a []value) value {
		t := in.openFile(in.concStr(a[0]), 1|0x40|0x200).(tuple)
		if e := t[1].(iface); e.t != nil {
			return e
		}
		b, _ := a[1].([]value)
		_, e := in.file(t[0]).wr(in, b)
		return e
	}
	T["os.WriteFile"], T["io/ioutil.WriteFile"] = wrAll, wrAll
	readDir := func(in *Interp, fr *frame, a []value) value {
		p := in.concStr(a[0])
		q := in.fs.abs(p)
		if n := in.fs.nodes[q]; n == nil || !n.dir {
			return tuple{[]value(nil), in.pathErr("open", p, "notexist")}
		}
		var r []value
		for _, n := range in.fs.list(q) {
			r = append(r, in.fileInfo(n, in.fs.nodes[path.Join(q, n)]))
		}
		return tuple{r, nilIface}
	}
	T["io/ioutil.ReadDir"] = readDir
	tmpF := func(in *Interp, fr *frame, a []value) value {
		d := in.concStr(a[0])
		if d == "" {
			d = "/tmp"
		}
		in.tmpN++
		return in.openFile(fmt.Sprintf("%s/tmp%d%s", d, in.tmpN, strings.Replace(in.concStr(a[1]), "*", "", 1)), 2|0x40)
	}
	T["os.CreateTemp"], T["io/ioutil.TempFile"] = tmpF, tmpF
	tmpD := func(in *Interp, fr *frame, a []value) value {
		in.tmpN++
		p := fmt.Sprintf("/tmp/dir%d", in.tmpN)
		in.fs.nodes[p] = &inode{dir: true}
		return tuple{p, nilIface}
	}
	T["os.MkdirTemp"], T["io/ioutil.TempDir"] = tmpD, tmpD

	m := "(*os.File)."
	T[m+"Read"] = func(in *Interp, fr *frame, a []value) value {
		b, _ := a[1].([]value)
		n, e := in.file(a[0]).rd(in, b)
		return tuple{int64(n), e}
	}
	T[m+"Write"] = func(in *Interp, fr *frame, a []value) value {
		b, _ := a[1].([]value)
		n, e := in.file(a[0]).wr(in, b)
		return tuple{int64(n), e}
	}
	T[m+"WriteString"] = func(in *Interp, fr *frame, a []value) value {
		n, e := in.file(a[0]).wr(in, strEls(a[1]))
		return tuple{int64(n), e}
	}
	T[m+"Close"] = func(in *Interp, fr *frame, a []value) value {
		if p, ok := a[0].(*value); ok && p == nil {
			return in.namedErr("invalid", "invalid argument")
		}
		o := in.file(a[0])
		if o.closed {
			return in.pathErr("close", o.name, "closed")
		}
		o.closed = true
		return nilIface
	}
	T[m+"Name"] = func(in *Interp, fr *frame, a []value) value { return in.file(a[0]).name }
	T[m+"Sync"] = func(in *Interp, fr *frame, a []value) value { return nilIface }
	T[m+"Stat"] = func(in *Interp, fr *frame, a []value) value {
		o := in.file(a[0])
		return tuple{in.fileInfo(path.Base(o.name), o.node), nilIface}
	}
	T[m+"Seek"] = func(in *Interp, fr *frame, a []value) value {
		o := in.file(a[0])
		off := int(in.concInt(a[1]))
		switch in.concInt(a[2]) {
		case 0:
			o.pos = off
		case 1:
			o.pos += off
		case 2:
			o.pos = len(o.node.data) + off
		}
		return tuple{int64(o.pos), nilIface}
	}
	dirList := func(in *Interp, a []value, conv func(name string, n *inode) value) value {
		o := in.file(a[0])
		if o.closed || o.node == nil || !o.node.dir {
			return tuple{[]value(nil), in.pathErr("readdir", o.name, "not a directory")}
		}
		q := in.fs.abs(o.name)
		n := int(in.concInt(a[1]))
		if o.names == nil {
			// the order of a directory listing is not specified: reverse order
			o.names = in.fs.list(q)
			sort.Sort(sort.Reverse(sort.StringSlice(o.names)))
		}
		l := o.names[o.dirPos:]
		if n > 0 && len(l) == 0 {
			return tuple{[]value(nil), in.ioEOF()}
		}
		if n > 0 && len(l) > n {
			l = l[:n]
		}
		o.dirPos += len(l)
		r := []value{}
		for _, x := range l {
			r = append(r, conv(x, in.fs.nodes[path.Join(q, x)]))
		}
		return tuple{r, nilIface}
	}
	T[m+"Readdir"] = func(in *Interp, fr *frame, a []value) value {
		return dirList(in, a, func(s string, n *inode) value { return in.fileInfo(s, n) })
	}
	T[m+"Readdirnames"] = func(in *Interp, fr *frame, a []value) value {
		return dirList(in, a, func(s string, n *inode) value { return s })
	}
	T[m+"ReadDir"] = func(in *Interp, fr *frame, a []value) value {
		return dirList(in, a, func(s string, n *inode) value {
			t := in.P.typeOf("os", "unixDirent")
			d := zero(t).(structV)
			d[0], d[1] = path.Dir(s), s
			if n.dir {
				d[2] = int64(1 << 31)
			}
			return iface{types.NewPointer(t), cellOf(d)}
		})
	}
	T["os.ReadDir"] = func(in *Interp, fr *frame, a []value) value {
		t := in.openFile(in.concStr(a[0]), 0).(tuple)
		if e := t[1].(iface); e.t != nil {
			return tuple{[]value(nil), e}
		}
		r := T[m+"ReadDir"](in, fr, []value{t[0], int64(-1)}).(tuple)
		l, _ := r[0].([]value)
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
		return r
	}

	// gzip
	newW := func(in *Interp, fr *frame, w value) value {
		c := cellOf(zero(in.P.typeOf("compress/gzip", "Writer")))
		in.natives[c] = &opaque{kind: "gzw", data: &gzWriter{w: w.(iface)}}
		return c
	}
	T["compress/gzip.NewWriter"] = func(in *Interp, fr *frame, a []value) value { return newW(in, fr, a[0]) }
	T["compress/gzip.NewWriterLevel"] = func(in *Interp, fr *frame, a []value) value {
		return tuple{newW(in, fr, a[0]), nilIface}
	}
	gw := func(in *Interp, v value) *gzWriter {
		p := in.deref(v)
		o := in.natives[p]
		if o == nil {
			panic(pathEnd{"unsupported", "gzip writer"})
		}
		return o.data.(*gzWriter)
	}
	T["(*compress/gzip.Writer).Write"] = func(in *Interp, fr *frame, a []value) value {
		w := gw(in, a[0])
		b, _ := a[1].([]value)
		if w.closed {
			return tuple{int64(0), in.namedErr("gzclosed", "gzip: write after close")}
		}
		w.els = append(w.els, b...)
		return tuple{int64(len(b)), nilIface}
	}
	T["(*compress/gzip.Writer).Close"] = func(in *Interp, fr *frame, a []value) value {
		w := gw(in, a[0])
		if w.closed {
			return nilIface
		}
		w.closed = true
		r := in.callMethod(fr, w.w, "Write", []value{&gzBlob{els: w.els, complete: true}}).(tuple)
		return r[1]
	}
	T["(*compress/gzip.Writer).Flush"] = func(in *Interp, fr *frame, a []value) value { return nilIface }
	T["compress/gzip.NewReader"] = func(in *Interp, fr *frame, a []value) value {
		els, e := in.readAll(fr, a[0].(iface))
		np := (*value)(nil)
		if e.t != nil {
			return tuple{np, e}
		}
		if len(els) == 0 {
			return tuple{np, in.ioEOF()}
		}
		r := &gzReader{}
		for i, x := range els {
			b, ok := x.(*gzBlob)
			if !ok {
				if i == 0 {
					return tuple{np, in.globalErr("compress/gzip", "ErrHeader")}
				}
				panic(pathEnd{"unsupported", "trailing data after gzip stream"})
			}
			r.els = append(r.els, b.els...)
		}
		c := cellOf(zero(in.P.typeOf("compress/gzip", "Reader")))
		in.natives[c] = &opaque{kind: "gzr", data: r}
		return tuple{c, nilIface}
	}
	gr := func(in *Interp, v value) *gzReader {
		o := in.natives[in.deref(v)]
		if o == nil {
			panic(pathEnd{"unsupported", "gzip reader"})
		}
		return o.data.(*gzReader)
	}
	T["(*compress/gzip.Reader).Read"] = func(in *Interp, fr *frame, a []value) value {
		r := gr(in, a[0])
		b, _ := a[1].([]value)
		if len(b) == 0 {
			return tuple{int64(0), nilIface}
		}
		if r.pos >= len(r.els) {
			return tuple{int64(0), in.ioEOF()}
		}
		n := copy(b, r.els[r.pos:])
		r.pos += n
		return tuple{int64(n), nilIface}
	}
	T["(*compress/gzip.Reader).Close"] = func(in *Interp, fr *frame, a []value) value { return nilIface }
	T["(*compress/gzip.Reader).Multistream"] = func(in *Interp, fr *frame, a []value) value { return nil }
}
