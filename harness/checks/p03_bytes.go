package checks

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/benedoc-inc/pdfer/core/parse"
	. "verifharness/ref"
	"verifharness/rt"
)

func bytesCase(kind string, nrev, size func(*rand.Rand) int) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		k := nrev(r)
		s, _ := randHistory(r, k, size(r), false, historyKinds(kind, r), false)
		b := s.Build()
		if r.Intn(4) == 0 {
			b.B = append(b.B, "\n\r\n"[:r.Intn(4)]...)
		}
		c.Save("in.pdf", b.B)
		keep := append([]byte{}, b.B...)
		pdf, err := parse.OpenWithOptions(b.B, parse.ParseOptions{BytePerfect: true})
		if err != nil {
			c.Failf("byte-preserving open: %v", err)
			return
		}
		if !bytes.Equal(pdf.Bytes(), keep) || !bytes.Equal(pdf.Raw(), keep) {
			c.Failf("Bytes()/Raw() differ from the input (%d / %d / %d bytes)", len(pdf.Bytes()), len(pdf.Raw()), len(keep))
			return
		}
		c.Obs("documents", 1)
		doc := pdf.Document()
		if doc == nil {
			c.Failf("Document() is nil after a byte-preserving open")
			return
		}
		if doc.Header == nil || doc.Header.Version != s.Version || !bytes.HasPrefix(keep, doc.Header.RawBytes) || len(doc.Header.RawBytes) < 8 {
			c.Failf("header %+v, want version %s", doc.Header, s.Version)
			return
		}
		if len(doc.Revisions) != k {
			c.Failf("%d revisions, want %d", len(doc.Revisions), k)
			return
		}
		for i, rev := range doc.Revisions {
			want := map[int]Placed{}
			for _, p := range b.RevNew[i] {
				if p.InStm == 0 {
					want[p.N] = p
				}
			}
			lo := b.StartX[i]
			for n, p := range want {
				ro := rev.Objects[n]
				if ro == nil || doc.GetObjectInRevision(n, i+1) != ro {
					c.Failf("revision %d: object %d, written by it, is missing", i+1, n)
					return
				}
				if !checkRaw(c, ro, p, keep, fmt.Sprintf("revision %d", i+1)) {
					return
				}
				if p.Off < lo {
					lo = p.Off
				}
			}
			for n, ro := range rev.Objects {
				if _, ok := want[n]; !ok && !b.Infra[n] {
					c.Failf("revision %d lists object %d which it did not write", i+1, n)
					return
				}
				if !bytes.Equal(keep[ro.Offset:ro.EndOffset], ro.Bytes()) {
					c.Failf("revision %d object %d: raw bytes are not the bytes at its offsets", i+1, n)
					return
				}
				if int(ro.Offset) < lo {
					lo = int(ro.Offset)
				}
			}
			if rev.Number != i+1 || rev.StartXRef != int64(b.StartX[i]) {
				c.Failf("revision %d: number %d, startxref %d want %d", i+1, rev.Number, rev.StartXRef, b.StartX[i])
				return
			}
			if !bytes.HasPrefix(keep[rev.EOFOffset:], []byte("%%EOF")) || int(rev.EndOffset) < b.RevEnd[i] {
				c.Failf("revision %d: end offsets %d/%d, want end %d", i+1, rev.EOFOffset, rev.EndOffset, b.RevEnd[i])
				return
			}
			if rb := rev.RevisionBytes(doc); !bytes.Equal(rb, keep[lo:rev.EndOffset]) {
				c.Failf("revision %d: RevisionBytes returns %d bytes, want file[%d:%d]", i+1, len(rb), lo, rev.EndOffset)
				return
			}
			x := rev.XRef
			if x == nil || x.Offset != int64(b.StartX[i]) || !bytes.HasPrefix(keep[x.Offset:], x.Bytes()) || len(x.Bytes()) == 0 {
				c.Failf("revision %d: cross-reference bytes are not the file's", i+1)
				return
			}
			if (x.Type == parse.XRefTypeStream) != s.Revs[i].XRefStm {
				c.Failf("revision %d: cross-reference type %v", i+1, x.Type)
				return
			}
			inuse, free := 0, 0
			for _, e := range x.Entries {
				if e.InUse {
					inuse++
				} else {
					free++
				}
				for _, p := range b.RevNew[i] {
					if p.N != e.ObjectNum {
						continue
					}
					if !e.InUse || e.InObjectStream != (p.InStm != 0) || p.InStm == 0 && (e.Offset != int64(p.Off) || e.Generation != p.G) || p.InStm != 0 && (e.StreamObjNum != p.InStm || e.IndexInStream != p.Idx) {
						c.Failf("revision %d: cross-reference entry %+v for object %d at %d (stream %d)", i+1, e, p.N, p.Off, p.InStm)
						return
					}
				}
			}
			if inuse < len(b.RevNew[i]) || free < len(s.Revs[i].Free) {
				c.Failf("revision %d: %d in-use and %d free entries for %d objects and %d deletions", i+1, inuse, free, len(b.RevNew[i]), len(s.Revs[i].Free))
				return
			}
			t := rev.Trailer
			if t == nil || !refIs(t.Root, s.Root.N) || len(t.Bytes()) == 0 || !bytes.Contains(keep, t.Bytes()) {
				c.Failf("revision %d: trailer %+v", i+1, t)
				return
			}
			wp := int64(b.Second)
			if i > 0 {
				wp = int64(b.StartX[i-1])
			}
			if t.Prev != wp {
				c.Failf("revision %d: previous section at %d, want %d", i+1, t.Prev, wp)
				return
			}
			c.Obs("revisions", 1)
		}
		all := doc.AllObjects()
		for n, p := range b.Live {
			if p.O == nil || p.InStm != 0 {
				continue
			}
			ro, err := pdf.GetRawObject(n)
			if err != nil || all[n] != ro || doc.GetObject(n) != ro {
				c.Failf("raw lookups of object %d disagree (%v)", n, err)
				return
			}
			if !checkRaw(c, ro, p, keep, "newest") {
				return
			}
		}
		for n := range all {
			if p, ok := b.Live[n]; !b.Infra[n] && (!ok || p.InStm != 0) {
				c.Failf("AllObjects has object %d which is not a directly stored object of the newest revision", n)
				return
			}
		}
		if !bytes.Equal(keep, b.B) {
			c.Failf("input bytes were modified")
		}
		c.Distinct(k, len(b.B), kind)
		c.Sample("%d revisions (%s), %d bytes, %d raw objects", k, kind, len(b.B), len(all))
	}
}

func checkRaw(c *rt.C, ro *parse.PDFRawObject, p Placed, file []byte, what string) bool {
	if ro.Number != p.N || ro.Generation != p.G || int(ro.Offset) != p.Off || int(ro.EndOffset) != p.End || !bytes.Equal(ro.Bytes(), file[p.Off:p.End]) {
		c.Failf("%s: raw object %d/%d covers %d..%d, want object %d/%d at %d..%d", what, ro.Number, ro.Generation, ro.Offset, ro.EndOffset, p.N, p.G, p.Off, p.End)
		return false
	}
	if !bytes.Equal(bytes.TrimSpace(ro.Content()), bytes.TrimSpace(p.Body)) {
		c.Failf("%s: Content() of object %d is %q, want %q", what, p.N, clipB(ro.Content()), clipB(p.Body))
		return false
	}
	st, isS := p.O.(*Stream)
	if ro.IsStream != isS {
		c.Failf("%s: object %d: IsStream=%v", what, p.N, ro.IsStream)
		return false
	}
	if isS && !bytes.Equal(ro.StreamRaw, st.Raw) {
		c.Failf("%s: object %d: stream bytes differ: %d vs %d", what, p.N, len(ro.StreamRaw), len(st.Raw))
		return false
	}
	c.Obs("raw_objects", 1)
	return true
}

// pristineCase: any bytes that open come back unchanged, and no call writes to
// its input.
func pristineCase(c *rt.C) {
	r := c.R
	s, _ := randHistory(r, 1+r.Intn(3), 4+r.Intn(12), true, historyKinds("mixed", r), false)
	b := s.Build()
	in := append([]byte{}, b.B...)
	for i := 0; i < 1+r.Intn(6); i++ {
		switch r.Intn(5) {
		case 0:
			in[r.Intn(len(in))] ^= byte(1 << uint(r.Intn(8)))
		case 1:
			k := r.Intn(len(in))
			in = append(in[:k:k], in[k+r.Intn(len(in)-k)/20:]...)
		case 2:
			k := r.Intn(len(in))
			in = append(in[:k:k], append(rbytes(r, r.Intn(10)), in[k:]...)...)
		case 3:
			in = append(in, rbytes(r, r.Intn(30))...)
		case 4:
			in[r.Intn(len(in))] = trickyStr[0][r.Intn(6)]
		}
	}
	c.Save("in.pdf", in)
	keep := append([]byte{}, in...)
	spare := append(make([]byte, 0, len(in)+64), in...)
	full := spare[:len(in)+64]
	for _, bp := range []bool{true, false} {
		pdf, err := parse.OpenWithOptions(spare, parse.ParseOptions{BytePerfect: bp})
		if err != nil {
			continue
		}
		c.Obs("opened", 1)
		if !bytes.Equal(pdf.Bytes(), keep) || !bytes.Equal(pdf.Raw(), keep) {
			c.Failf("byte-preserving=%v: Bytes()/Raw() differ from the input", bp)
			return
		}
		for _, n := range pdf.Objects() {
			pdf.GetObject(n)
			pdf.GetRawObject(n)
		}
	}
	parse.ExtractRevision(spare, 1)
	for i, v := range full[len(in):] {
		if v != 0 {
			c.Failf("byte %d past the input slice was written", i)
		}
	}
	if !bytes.Equal(spare, keep) {
		c.Failf("a reading call modified its input")
	}
	c.Obs("documents", 1)
	c.Distinct(len(in), string(in[len(in)-1:]))
	c.Sample("damaged file of %d bytes", len(in))
}

func init() {
	few := func(r *rand.Rand) int { return 1 + r.Intn(4) }
	small := func(r *rand.Rand) int { return 4 + r.Intn(25) }
	rt.Register(&rt.Check{
		ID: "P03", Title: "Byte-preserving parsing",
		Rule: "distinct_nontrivial = cases with a distinct set of (revisions, size, kind) documents whose raw objects, sections and bytes were all compared with the file",
		Families: []rt.Family{
			{Name: "table", Quick: 960, Thorough: 2500, Run: bytesCase("table", few, small)},
			{Name: "stream", Quick: 960, Thorough: 2500, Run: bytesCase("stm", few, small)},
			{Name: "mixed", Quick: 960, Thorough: 2500, Run: bytesCase("mixed", few, small)},
			{Name: "pristine", Quick: 1600, Thorough: 6000, Run: pristineCase},
		},
	})
}
