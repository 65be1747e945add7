package ref

// WithTail is the file with other contents and footer, the postscript is that of f.
func (f *File) WithTail(contents, footer []byte) []byte {
	out := append(append([]byte{}, contents...), footer...)
	ps := append(Msg{}, f.PS...)
	for i := range ps {
		if ps[i].Num == 1 {
			ps[i].U = uint64(len(footer))
		}
	}
	p := ps.Encode()
	return append(append(out, p...), byte(len(p)))
}

// WithStream is the file with other bytes in place of a stream, everything
// else is consistent. If b is nil, the stream is not in the footer any more.
func (f *File) WithStream(stripe, stream int, b []byte, pack func(b []byte) []byte) []byte {
	footer := append(Msg{}, f.Footer...)
	s := f.Stripes[stripe]
	st := s.Streams[stream]
	start := s.Offset + s.IndexLen + s.DataLen
	fb, _, err := Inflate(f.Comp, f.Data[start:start+s.FooterLen], f.Block)
	if err != nil {
		panic(err)
	}
	m, err := ParseMsg(fb)
	if err != nil {
		panic(err)
	}
	m = append(Msg{}, m...)
	j := 0
	drop := -1
	for i, x := range m {
		if x.Num == 1 && x.Wire == 2 {
			if j == stream {
				drop = i
				sm, err := ParseMsg(x.B)
				if err != nil {
					panic(err)
				}
				sm = append(Msg{}, sm...)
				for k := range sm {
					if sm[k].Num == 3 {
						sm[k].U = uint64(len(b))
					}
				}
				m[i].B = sm.Encode()
			}
			j++
		}
	}
	if b == nil {
		m = append(m[:drop], m[drop+1:]...)
	}
	nf := pack(m.Encode())
	out := append([]byte{}, f.Data[:st.Off]...)
	out = append(out, b...)
	out = append(out, f.Data[st.Off+st.Len:start]...)
	out = append(out, nf...)
	less := uint64(st.Len - len(b))
	index, data := s.IndexLen, s.DataLen
	if st.Kind >= SRowIndex && st.Kind <= SBloomUTF8 {
		index -= less
	} else {
		data -= less
	}
	moved := uint64(len(out)) - (start + s.FooterLen) // of all which follows, maybe negative
	out = append(out, f.Data[start+s.FooterLen:f.FooterStart]...)
	k := 0
	for i, x := range footer {
		if x.Num != 3 || x.Wire != 2 {
			continue
		}
		sm, err := ParseMsg(x.B)
		if err != nil {
			panic(err)
		}
		sm = append(Msg{}, sm...)
		for e := range sm {
			switch {
			case k == stripe && sm[e].Num == 2:
				sm[e].U = index
			case k == stripe && sm[e].Num == 3:
				sm[e].U = data
			case k == stripe && sm[e].Num == 4:
				sm[e].U = uint64(len(nf))
			case k > stripe && sm[e].Num == 1:
				sm[e].U += moved
			}
		}
		footer[i].B = sm.Encode()
		k++
	}
	return f.WithTail(out, pack(footer.Encode()))
}

// WithRows is the file whose footer says that the last stripe has more rows.
func (f *File) WithRows(more uint64, pack func(b []byte) []byte) []byte {
	footer := append(Msg{}, f.Footer...)
	last := -1
	for i, x := range footer {
		switch {
		case x.Num == 3 && x.Wire == 2:
			last = i
		case x.Num == 6 && x.Wire == 0:
			footer[i].U += more
		}
	}
	sm, err := ParseMsg(footer[last].B)
	if err != nil {
		panic(err)
	}
	sm = append(Msg{}, sm...)
	for e := range sm {
		if sm[e].Num == 5 {
			sm[e].U += more
		}
	}
	footer[last].B = sm.Encode()
	return f.WithTail(f.Data[:f.FooterStart], pack(footer.Encode()))
}
