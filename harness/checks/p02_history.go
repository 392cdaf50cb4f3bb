package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"

	"github.com/benedoc-inc/pdfer/core/parse"
	. "verifharness/ref"
	"verifharness/rt"
)

// randHistory builds a file with several revisions: objects are added,
// replaced, deleted and brought back.
func randHistory(r *rand.Rand, nrev, n int, mild bool, kind func(rev int) bool, infoGrow bool) (*Spec, *Built) {
	s := &Spec{}
	layout(r, s)
	var refs []Ref
	for _, k := range r.Perm(n) {
		refs = append(refs, Ref{k + 1, 0})
	}
	g := &objGen{r: r, refs: refs, mild: mild}
	root, pages := refs[0].N, refs[1].N
	s.Root = Ref{root, 0}
	live := map[int]bool{}
	gen := map[int]int{}
	next := n + 1
	for ri := 0; ri < nrev; ri++ {
		rev := Rev{XRefStm: kind(ri)}
		used := map[int]bool{}
		put := func(num int, o Obj) {
			if used[num] {
				return
			}
			used[num] = true
			live[num] = true
			rev.Objs = append(rev.Objs, FObj{N: num, G: gen[num], O: o, InStm: gen[num] == 0 && r.Intn(3) != 0})
		}
		if ri == 0 {
			put(root, NewDict("Type", Name("Catalog"), "Pages", Ref{pages, 0}))
			put(pages, NewDict("Type", Name("Pages"), "Kids", Arr{}, "Count", Int(0)))
			for _, rf := range refs[2:] {
				if r.Intn(10) != 0 {
					put(rf.N, g.val())
				}
			}
		} else {
			var ks []int
			for k := range live {
				if k != root && k != pages {
					ks = append(ks, k)
				}
			}
			sort.Ints(ks)
			for _, k := range ks {
				switch r.Intn(8) {
				case 0, 1:
					put(k, g.val())
				case 2:
					if r.Intn(2) == 0 && !used[k] {
						rev.Free = append(rev.Free, k)
						used[k] = true
						delete(live, k)
						if gen[k] < 3 {
							gen[k]++
						}
					}
				}
			}
			for num := 1; num < next; num++ {
				if !live[num] && !used[num] && r.Intn(4) == 0 {
					put(num, g.val()) // brought back
				}
			}
			for i := r.Intn(4); i > 0; i-- {
				put(next, g.val())
				next++
			}
			if r.Intn(4) == 0 {
				put(root, NewDict("Type", Name("Catalog"), "Pages", Ref{pages, 0}, "Mark", Int(ri)))
			}
		}
		if ri > 0 && r.Intn(12) == 0 {
			// a revision that changes nothing but the trailer
			rev.Objs, rev.Free = nil, nil
			rev.Objs = append(rev.Objs, FObj{N: next, O: Int(ri)})
			next++
			// undo bookkeeping is unnecessary: liveness is recomputed by Build
		}
		s.Revs = append(s.Revs, rev)
	}
	if r.Intn(6) == 0 {
		spread(r, s)
	}
	return s, nil
}

func historyKinds(k string, r *rand.Rand) func(int) bool {
	switch k {
	case "table":
		return func(int) bool { return false }
	case "stm":
		return func(int) bool { return true }
	}
	return func(int) bool { return r.Intn(2) == 0 }
}

// liveNums returns the numbers whose value is known (not xref infrastructure).
func expectSet(b *Built, rev int) map[int]Placed { return b.RevLive[rev] }

func historyCase(kind string, nrev func(*rand.Rand) int, size func(*rand.Rand) int) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		k := nrev(r)
		s, _ := randHistory(r, k, size(r), false, historyKinds(kind, r), false)
		b := s.Build()
		c.Save("in.pdf", b.B)
		selfCheck(b)
		keep := append([]byte{}, b.B...)
		pdf, err := parse.Open(b.B)
		if err != nil {
			c.Failf("Open rejects a well-formed file of %d revisions: %v", k, err)
			return
		}
		if pdf.RevisionCount() != k || parse.CountRevisions(b.B) != k {
			c.Failf("RevisionCount() = %d, CountRevisions = %d, want %d", pdf.RevisionCount(), parse.CountRevisions(b.B), k)
			return
		}
		checkLive(c, pdf, b, b.Live, b.Infra, "newest state")
		if c.Failed() {
			return
		}
		bp, err := parse.OpenWithOptions(b.B, parse.ParseOptions{BytePerfect: true})
		if err != nil {
			c.Failf("byte-preserving open: %v", err)
			return
		}
		if bp.RevisionCount() != k {
			c.Failf("byte-preserving RevisionCount() = %d, want %d", bp.RevisionCount(), k)
			return
		}
		checkLive(c, bp, b, b.Live, b.Infra, "newest state (byte-preserving)")
		if c.Failed() {
			return
		}
		// module level lookups on a sample of the objects ever used
		var all []int
		seen := map[int]bool{}
		for _, rl := range b.RevLive {
			for _, n := range sortedInts(rl) {
				if !b.Infra[n] && !seen[n] {
					seen[n] = true
					all = append(all, n)
				}
			}
		}
		for n := 1; n <= 4; n++ {
			if !b.Infra[n] && !seen[n] {
				all = append(all, n)
			}
		}
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		if len(all) > 12 {
			all = all[:12]
		}
		for _, n := range all {
			got, err := parse.GetObject(b.B, n, nil, false)
			p, ok := b.Live[n]
			if !ok {
				if err == nil {
					c.Failf("GetObject(%d) returns %q although the newest revision does not have that object", n, clipB(got))
					return
				}
				if pdf.HasObject(n) || bp.HasObject(n) {
					c.Failf("HasObject(%d) for an object that is not in use", n)
					return
				}
				if _, err := pdf.GetObject(n); err == nil {
					c.Failf("document GetObject(%d) succeeds for an object not in use", n)
					return
				}
				c.Obs("deleted_objects", 1)
				continue
			}
			if err != nil {
				c.Failf("package-level GetObject(%d): %v", n, err)
				return
			}
			checkVal(c, got, p, "package-level GetObject")
			if c.Failed() {
				return
			}
			loc, err := parse.FindObjectLocation(b.B, n, false)
			if err != nil || loc.IsDirect != (p.InStm == 0) || loc.IsDirect && loc.ByteOffset != int64(p.Off) || !loc.IsDirect && (loc.StreamObjNum != p.InStm || loc.IndexInStream != p.Idx) {
				c.Failf("FindObjectLocation(%d) = %+v, %v; want offset %d / stream %d index %d", n, loc, err, p.Off, p.InStm, p.Idx)
				return
			}
			c.Obs("locations", 1)
		}
		// each revision by itself
		bounds := parse.GetRevisionBoundaries(b.B)
		if len(bounds) != k {
			c.Failf("GetRevisionBoundaries returns %d boundaries, want %d", len(bounds), k)
			return
		}
		for i := 0; i < k; i++ {
			part, err := parse.ExtractRevision(b.B, i+1)
			if err != nil {
				c.Failf("ExtractRevision(%d): %v", i+1, err)
				return
			}
			if !bytes.HasPrefix(b.B, part) || len(part) < b.RevEnd[i] || len(bytes.TrimSpace(b.B[b.RevEnd[i]:len(part)])) != 0 {
				c.Failf("ExtractRevision(%d) returns %d bytes, revision ends at %d", i+1, len(part), b.RevEnd[i])
				return
			}
			if bounds[i] > b.RevEnd[i] || bounds[i] < b.RevEnd[i]-2 {
				c.Failf("boundary %d is %d, revision ends at %d", i+1, bounds[i], b.RevEnd[i])
				return
			}
			rp, err := parse.Open(part)
			if err != nil {
				c.Failf("Open(ExtractRevision(%d)): %v", i+1, err)
				return
			}
			if rp.RevisionCount() != i+1 {
				c.Failf("revision %d alone counts %d revisions", i+1, rp.RevisionCount())
				return
			}
			checkLive(c, rp, b, b.RevLive[i], b.Infra, fmt.Sprintf("state as of revision %d of %d", i+1, k))
			if c.Failed() {
				return
			}
			c.Obs("revision_states", 1)
		}
		for _, bad := range []int{0, -1, k + 1, k + 5} {
			if _, err := parse.ExtractRevision(b.B, bad); err == nil {
				c.Failf("ExtractRevision(%d) of a %d-revision file succeeded", bad, k)
			}
		}
		if !bytes.Equal(keep, b.B) {
			c.Failf("input bytes were modified")
		}
		nfree := 0
		for _, rv := range s.Revs {
			nfree += len(rv.Free)
		}
		c.Distinct(k, len(b.B), nfree, kind)
		c.Sample("%d revisions (%s), %d deletions, %d objects live at the end, %d bytes", k, kind, nfree, len(b.Live), len(b.B))
	}
}

// selfCheck asserts that the independent strict reader agrees with the model.
func selfCheck(b *Built) { selfCheckPw(b, nil) }

func selfCheckPw(b *Built, pw []byte) {
	f, err := OpenStrict(b.B, pw)
	if err != nil {
		panic("generator produced an invalid file: " + err.Error())
	}
	for k, p := range b.Live {
		if p.O == nil {
			continue
		}
		v, _ := f.Get(k)
		w := p.O
		if sv, ok := v.(*Stream); ok {
			ws := w.(*Stream)
			a, bb := &Stream{D: sv.D.Copy(), Raw: sv.Raw}, &Stream{D: ws.D.Copy(), Raw: ws.Raw}
			a.D.Del("Length")
			bb.D.Del("Length")
			v, w = a, bb
		}
		if d := Diff(v, w); d != "" {
			panic(fmt.Sprintf("reference reader disagrees with generator on object %d: %s", k, d))
		}
	}
	for _, n := range f.Nums() {
		if _, ok := b.Live[n]; !ok && !b.Infra[n] {
			panic(fmt.Sprintf("reference reader sees object %d which the model does not have", n))
		}
	}
}

func init() {
	few := func(r *rand.Rand) int { return 2 + r.Intn(3) }
	many := func(r *rand.Rand) int { return 6 + r.Intn(15) }
	small := func(r *rand.Rand) int { return 4 + r.Intn(20) }
	mid := func(r *rand.Rand) int { return 120 + r.Intn(300) }
	rt.Register(&rt.Check{
		ID: "P02", Title: "Incremental history",
		Rule:   "distinct_nontrivial = cases with a distinct set of (revision count, size, deletions, xref kind) histories whose every revision state was compared object by object",
		Assume: []string{"histories are valid per the independent strict reader, which also agrees on the newest state (asserted for every case)"},
		Families: []rt.Family{
			{Name: "table", Quick: 600, Thorough: 2500, Run: historyCase("table", few, small)},
			{Name: "stream", Quick: 600, Thorough: 2500, Run: historyCase("stm", few, small)},
			{Name: "mixed", Quick: 800, Thorough: 3500, Run: historyCase("mixed", few, small)},
			{Name: "long", Quick: 200, Thorough: 600, Run: historyCase("mixed", many, small)},
			{Name: "big", Quick: 40, Thorough: 80, Run: historyCase("mixed", few, mid)},
		},
	})
}
