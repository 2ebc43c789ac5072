package main

// encoding/csv.Reader over text with symbolic fields (the separators are concrete bytes; symbolic numbers contain none of them).

type csvRd struct {
	buf    []value
	eof    bool
	err    iface
	fields int64
	reused []value
}

var csvChunk = 4096

func (in *Interp) csvFill(fr *frame, st *csvRd, rd iface) {
	buf := make([]value, csvChunk)
	for i := range buf {
		buf[i] = int64(0)
	}
	t := in.callMethod(fr, rd, "Read", buf).(tuple)
	n := int(in.concInt(t[0]))
	st.buf = append(st.buf, buf[:n]...)
	if e := t[1].(iface); e.t != nil {
		st.eof = true
		if in.equal(e, in.ioEOF()) != true {
			st.err = e
		}
	}
}

func (in *Interp) csvLine(fr *frame, st *csvRd, rd iface) []value {
	pos := 0
	for {
		for ; pos < len(st.buf); pos++ {
			if c, ok := st.buf[pos].(int64); ok && c == '\n' {
				line := st.buf[:pos+1 : pos+1]
				st.buf = st.buf[pos+1:]
				return line
			}
		}
		if st.eof {
			line := st.buf
			st.buf = nil
			return line
		}
		in.csvFill(fr, st, rd)
	}
}

func (in *Interp) csvRead(fr *frame, p *value) value {
	s := (*p).(structV)
	comma := s[0]
	if in.concInt(s[1]) != 0 || in.p.branch(s[3]) || in.p.branch(s[4]) {
		panic(pathEnd{"unsupported", "csv reader options"})
	}
	isC := func(e value, c value) bool { x, ok := e.(int64); return ok && x == c }
	st := in.csvs[p]
	if st == nil {
		st = &csvRd{}
		if in.csvs == nil {
			in.csvs = map[*value]*csvRd{}
		}
		in.csvs[p] = st
	}
	br := (*in.deref(s[7])).(structV)
	rd := br[1].(iface)
	var line []value
	for {
		line = in.csvLine(fr, st, rd)
		if len(line) == 0 {
			if st.err.t != nil {
				return tuple{[]value(nil), st.err}
			}
			return tuple{[]value(nil), in.ioEOF()}
		}
		if n := len(line); isC(line[n-1], int64('\n')) {
			line = line[:n-1]
		}
		if n := len(line); n > 0 && isC(line[n-1], int64('\r')) {
			line = line[:n-1]
		}
		if len(line) > 0 {
			break
		}
	}
	var fields []value
	for {
		if len(line) > 0 && isC(line[0], int64('"')) {
			var f []value
			i := 1
			for ; ; i++ {
				if i >= len(line) {
					panic(pathEnd{"unsupported", "csv field over several lines"})
				}
				if isC(line[i], int64('"')) {
					if i+1 < len(line) && isC(line[i+1], int64('"')) {
						i++
					} else {
						break
					}
				}
				f = append(f, line[i])
			}
			fields = append(fields, mkStr(f))
			line = line[i+1:]
			if len(line) == 0 {
				break
			}
			if !isC(line[0], comma) {
				return tuple{[]value(nil), in.mkErr("extraneous or missing \" in quoted-field")}
			}
			line = line[1:]
			continue
		}
		i := 0
		for i < len(line) && !isC(line[i], comma) {
			if isC(line[i], int64('"')) {
				return tuple{[]value(nil), in.mkErr("bare \" in non-quoted-field")}
			}
			i++
		}
		fields = append(fields, mkStr(line[:i:i]))
		if i == len(line) {
			break
		}
		line = line[i+1:]
	}
	var rec []value
	if in.p.branch(s[5]) && cap(st.reused) >= len(fields) {
		rec = append(st.reused[:0], fields...)
	} else {
		rec = fields
	}
	st.reused = rec
	want := in.concInt(s[2])
	if want > 0 {
		if int64(len(rec)) != want {
			return tuple{rec, in.mkErr("record on line: wrong number of fields")}
		}
	} else if want == 0 {
		s[2] = int64(len(rec))
	}
	return tuple{rec, nilIface}
}

func addCSV(stubTable map[string]stubFn) {
	stubTable["(*encoding/csv.Reader).Read"] = func(in *Interp, fr *frame, a []value) value {
		return in.csvRead(fr, in.deref(a[0]))
	}
	stubTable["(*encoding/csv.Reader).ReadAll"] = func(in *Interp, fr *frame, a []value) value {
		var all []value
		for {
			t := in.csvRead(fr, in.deref(a[0])).(tuple)
			if e := t[1].(iface); e.t != nil {
				if in.equal(e, in.ioEOF()) == true {
					return tuple{all, nilIface}
				}
				return tuple{[]value(nil), e}
			}
			all = append(all, t[0])
		}
	}
}
