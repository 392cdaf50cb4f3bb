package checks

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"

	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
	. "verifharness/ref"
	"verifharness/rt"
)

func randPassword(r *rand.Rand) []byte {
	switch r.Intn(9) {
	case 0:
		if r.Intn(2) == 0 {
			return []byte{}
		}
		return nil
	case 1:
		return []byte{byte('a' + r.Intn(26))}
	case 2:
		return rbytes(r, 1+r.Intn(40)) // any bytes
	case 3:
		return []byte("p\xc3\xa4ssw\xc3\xb6rd " + randWords(r, 1))
	case 4:
		return []byte(randWords(r, 8)) // usually beyond 32 bytes
	case 5:
		n := []int{31, 32, 33, 126, 127, 128, 140}[r.Intn(7)]
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(33 + r.Intn(90))
		}
		return b
	case 6:
		return []byte("a(b)\\c/%<>")
	default:
		return []byte(randWords(r, 1+r.Intn(3)))
	}
}

// nearMisses are passwords one would confuse with pw.
func nearMisses(r *rand.Rand, pw []byte) [][]byte {
	out := [][]byte{nil, []byte("wrong"), rbytes(r, 1+r.Intn(20)), append(append([]byte{}, pw...), 'x'), append(append([]byte{}, pw...), ' '), append(append([]byte{}, pw...), 0), append([]byte{' '}, pw...), append(append([]byte{}, pw...), 0x28), bytes.ToUpper(pw), bytes.ToLower(pw)}
	if len(pw) > 0 {
		out = append(out, pw[:len(pw)-1], pw[1:], pw[:1], pw[:len(pw)/2])
		for i := 0; i < 3; i++ {
			x := append([]byte{}, pw...)
			x[r.Intn(len(x))] ^= 1 << uint(r.Intn(8))
			out = append(out, x)
		}
		x := append([]byte{}, pw...)
		k := len(x)
		if k > 32 {
			k = 32
		}
		x[k-1] ^= 4
		out = append(out, x)
		out = append(out, append(append([]byte{}, pw...), pw...))
	}
	return out
}

type cryptScheme struct {
	name         string
	v, rev, bits int
	aes          bool
}

var cryptSchemes = []cryptScheme{
	{"V1-R2-RC4-40", 1, 2, 40, false},
	{"V1-R3-RC4-40", 1, 3, 40, false},
	{"V2-R3-RC4-40", 2, 3, 40, false}, {"V2-R3-RC4-56", 2, 3, 56, false}, {"V2-R3-RC4-96", 2, 3, 96, false},
	{"V2-R3-RC4-128", 2, 3, 128, false}, {"V2-R3-RC4-128", 2, 3, 128, false},
	{"V4-R4-RC4-128", 4, 4, 128, false},
	{"V4-R4-AES-128", 4, 4, 128, true}, {"V4-R4-AES-128", 4, 4, 128, true},
	{"V5-R5-AES-256", 5, 5, 256, true},
	{"V5-R6-AES-256", 5, 6, 256, true}, {"V5-R6-AES-256", 5, 6, 256, true},
}

type encCase struct {
	sch         cryptScheme
	user, owner []byte
	spec        *Spec
	b           *Built
}

// randEncrypted builds an encrypted file according to the standard.
func randEncrypted(c *rt.C, sch cryptScheme, n int, hist bool) *encCase {
	r := c.R
	e := &encCase{sch: sch, user: randPassword(r), owner: randPassword(r)}
	if sch.rev == 3 && sch.bits < 128 {
		// implementations differ on how the owner key of such files is hashed
		e.owner = e.user
	}
	encMeta := true
	mod := func(s *Spec) {
		id := rbytes(r, []int{16, 16, 16, 1, 32}[r.Intn(5)])
		s.ID = [2][]byte{id, rbytes(r, 16)}
		encMeta = r.Intn(3) != 0
		p := []int32{-1, -4, -44, -3904, -1852, -64, 0}[r.Intn(7)]
		if sch.v >= 4 && len(e.owner) == 0 && sch.v == 5 {
			e.owner = []byte("owner")
		}
		s.Crypt = NewCrypt(sch.v, sch.rev, sch.bits, sch.aes, e.user, e.owner, p, encMeta, id, r)
		if len(e.owner) == 0 {
			e.owner = e.user
		}
		s.EncDirect = r.Intn(3) == 0
		s.EncDecoy = r.Intn(3) == 0
		s.Crypt.BigP = r.Intn(4) == 0
		if sch.v == 4 {
			switch r.Intn(6) {
			case 0:
				s.Crypt.StmM = []string{"Identity", "V2", "AESV2"}[r.Intn(3)]
			case 1:
				s.Crypt.StrM = []string{"Identity", "V2", "AESV2"}[r.Intn(3)]
			}
		}
		if sch.v == 5 && r.Intn(5) == 0 {
			if r.Intn(2) == 0 {
				s.Crypt.StmM = "Identity"
			} else {
				s.Crypt.StrM = "Identity"
			}
		}
		if sch.v >= 4 && r.Intn(3) == 0 {
			ms := []string{"V2", "AESV2", "None"}
			if sch.v == 5 {
				ms = []string{"AESV3", "None"}
			}
			s.Crypt.Filters = map[Name]string{}
			for _, n := range []Name{"Other", "XCF", "Open"} {
				s.Crypt.Filters[n] = ms[r.Intn(len(ms))]
			}
			s.Crypt.EFF = []Name{"", "Identity", "Other", "XCF"}[r.Intn(4)]
		}
		sig := func() *Dict { return sigDict(r) }
		for i := range s.Revs[0].Objs {
			o := &s.Revs[0].Objs[i]
			if d, ok := o.O.(*Dict); ok && d.Get("Type") == nil && r.Intn(12) == 0 {
				switch r.Intn(3) {
				case 0:
					o.O = sig()
				case 1:
					d.Set("V", sig())
					d.Set("Contents", Str("not a signature"))
				case 2:
					o.O = Arr{sig(), Str("x"), NewDict("In", sig(), "Contents", Str("y"), "ByteRange", Arr{})}
				}
			}
		}
		// streams with special treatment
		for i := range s.Revs[0].Objs {
			st, ok := s.Revs[0].Objs[i].O.(*Stream)
			if !ok {
				continue
			}
			switch r.Intn(8) {
			case 0:
				st.D.Set("Type", Name("Metadata"))
				st.D.Set("Subtype", Name("XML"))
			case 2:
				st.D.Set("Type", Name("EmbeddedFile"))
			case 1, 3:
				if sch.v >= 4 {
					if st.D.Get("Filter") == nil && r.Intn(2) == 0 {
						st.D.Set("Filter", Name("Crypt"))
						if r.Intn(2) == 0 {
							st.D.Set("DecodeParms", NewDict("Type", Name("CryptFilterDecodeParms"), "Name", Name("Identity")))
						}
						if s.Crypt.Filters != nil && r.Intn(2) == 0 {
							st.D.Set("DecodeParms", NewDict("Name", []Name{"Other", "XCF", "Open"}[r.Intn(3)]))
						}
					} else if st.D.Get("Filter") == Name("FlateDecode") {
						st.D.Set("Filter", Arr{Name("Crypt"), Name("FlateDecode")})
						st.D.Set("DecodeParms", Arr{NewDict("Name", Name("Identity")), Null{}})
						if s.Crypt.Filters != nil && r.Intn(2) == 0 {
							st.D.Set("DecodeParms", Arr{NewDict("Name", []Name{"Other", "XCF", "Open"}[r.Intn(3)]), Null{}})
						}
					}
				}
			}
		}
	}
	if hist {
		e.spec, _ = randHistory(r, 2+r.Intn(3), n, false, historyKinds("mixed", r), false)
		mod(e.spec)
		e.b = e.spec.Build()
	} else {
		e.spec, e.b = randFile(c, n, r.Intn(2) == 0, mod)
	}
	c.Save("in.pdf", e.b.B)
	c.Save("user.txt", e.user)
	c.Save("owner.txt", e.owner)
	selfCheckPw(e.b, e.user)
	selfCheckPw(e.b, e.owner)
	return e
}

// sigDict is a signature dictionary.
func sigDict(r *rand.Rand) *Dict {
	d := NewDict("Filter", Name("Adobe.PPKLite"), "Name", Str(randString(r)), "Contents", Str(rbytes(r, 10+r.Intn(60))), "ByteRange", Arr{Int(0), Int(5), Int(30), Int(9)})
	if r.Intn(2) == 0 {
		d.Set("Type", Name("Sig"))
	}
	if r.Intn(2) == 0 {
		d.Set("Reason", Str("why"))
	}
	r.Shuffle(len(d.Keys), func(i, j int) { d.Keys[i], d.Keys[j] = d.Keys[j], d.Keys[i] })
	return d
}

func cryptReadCase(pick func(r *rand.Rand) cryptScheme, size func(*rand.Rand) int, hist bool) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		e := randEncrypted(c, pick(r), size(r), hist)
		keep := append([]byte{}, e.b.B...)
		for _, who := range []string{"user", "owner"} {
			pw := e.user
			if who == "owner" {
				pw = e.owner
			}
			what := fmt.Sprintf("%s, %s password", e.sch.name, who)
			pdf, err := parse.OpenWithOptions(e.b.B, parse.ParseOptions{Password: pw, BytePerfect: r.Intn(4) == 0})
			if err != nil {
				c.Failf("%s: correct password %q refused: %v", what, pw, err)
				return
			}
			if !pdf.IsEncrypted() || pdf.Encryption() == nil {
				c.Failf("%s: encrypted file reported as unencrypted", what)
				return
			}
			if en := pdf.Encryption(); en.V != e.sch.v || en.R != e.sch.rev || en.P != e.spec.Crypt.P {
				c.Failf("%s: handler reported as V%d R%d P%d, want V%d R%d P%d", what, en.V, en.R, en.P, e.sch.v, e.sch.rev, e.spec.Crypt.P)
			}
			checkLive(c, pdf, e.b, e.b.Live, e.b.Infra, what)
			if c.Failed() {
				return
			}
			_, info, err := encrypt.DecryptPDF(e.b.B, pw, false)
			if err != nil || info == nil {
				c.Failf("%s: DecryptPDF refuses: %v", what, err)
				return
			}
			for i := 0; i < 3; i++ {
				nums := sortedInts(e.b.Live)
				p := e.b.Live[nums[r.Intn(len(nums))]]
				if p.O == nil || hist {
					continue
				}
				got, err := parse.GetObject(e.b.B, p.N, info, false)
				if err != nil {
					c.Failf("%s: package-level GetObject(%d): %v", what, p.N, err)
					return
				}
				checkVal(c, got, p, what+", package-level GetObject")
			}
			c.Obs("opened_as_"+who, 1)
		}
		if !bytes.Equal(keep, e.b.B) {
			c.Failf("reading changed the input")
		}
		c.Distinct(len(e.b.B), e.sch.name, len(e.user), len(e.owner))
		c.Sample("%s, %d bytes, user %q owner %q, direct /Encrypt %v, StmF %s StrF %s, EncryptMetadata %v", e.sch.name, len(e.b.B), clipB(e.user), clipB(e.owner), e.spec.EncDirect, e.spec.Crypt.StmM, e.spec.Crypt.StrM, e.spec.Crypt.EncMeta)
	}
}

// authCase: opening succeeds exactly when the password authenticates.
func authCase(damage bool) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		sch := cryptSchemes[r.Intn(len(cryptSchemes))]
		e := randEncrypted(c, sch, 3+r.Intn(6), false)
		data := e.b.B
		cr := *e.spec.Crypt
		if damage {
			// rebuild with altered verification values: authentication must
			// follow the values in the file, whoever wrote them
			e.spec.Crypt = &cr
			flip := func(b []byte, lo, hi int) []byte {
				b = append([]byte{}, b...)
				b[lo+r.Intn(hi-lo)] ^= 1 << uint(r.Intn(8))
				return b
			}
			v := 16
			if sch.rev == 2 {
				v = 32
			}
			if sch.v == 5 {
				v = 48
			}
			switch r.Intn(4) {
			case 0:
				cr.U = flip(cr.U, 0, v)
			case 1:
				cr.O = flip(cr.O, 0, len(cr.O))
			case 2:
				if sch.v < 5 {
					cr.P ^= 1 << uint(r.Intn(32))
				} else {
					cr.U = flip(cr.U, 32, 40)
				}
			case 3:
				cr.U, cr.O = cr.O[:len(cr.O):len(cr.O)], cr.U[:len(cr.U):len(cr.U)]
			}
			// the body stays encrypted with the original key; only the
			// dictionary differs
			b := e.spec.Build()
			data = b.B
			c.Save("damaged.pdf", data)
		}
		cands := [][]byte{e.user, e.owner}
		cands = append(cands, nearMisses(r, e.user)...)
		cands = append(cands, nearMisses(r, e.owner)...)
		cands = append(cands, cr.U, cr.O, cr.Key, cr.ID0, []byte(hex.EncodeToString(e.user)))
		r.Shuffle(len(cands), func(i, j int) { cands[i], cands[j] = cands[j], cands[i] })
		if sch.rev == 6 && len(cands) > 14 {
			cands = cands[:14]
		}
		for _, pw := range cands {
			a := cr
			role := a.Auth(pw)
			mode := parse.ParseOptions{Password: pw, BytePerfect: r.Intn(3) == 0}
			pdf, err := parse.OpenWithOptions(data, mode)
			if (err == nil) != (role != "") {
				c.Failf("%s: password %q (user %q, owner %q): standard says %q, Open says %v", sch.name, pw, e.user, e.owner, role, err)
				return
			}
			out, info, err2 := encrypt.DecryptPDF(data, pw, false)
			if (err2 == nil) != (role != "") {
				c.Failf("%s: password %q (user %q, owner %q): standard says %q, DecryptPDF says %v", sch.name, pw, e.user, e.owner, role, err2)
				return
			}
			if role == "" {
				if pdf != nil || out != nil || info != nil {
					c.Failf("%s: a refused password still returns a document", sch.name)
				}
				if !errors.Is(err, types.ErrWrongPassword) || !errors.Is(err2, types.ErrWrongPassword) {
					c.Failf("%s: refusal is not reported as a wrong password: %v / %v", sch.name, err, err2)
				}
				c.Obs("refused", 1)
			} else {
				if !bytes.Equal(info.EncryptKey, a.Key) {
					c.Failf("%s: %s password accepted but the wrong file key was derived", sch.name, role)
				}
				c.Obs("accepted_as_"+role, 1)
			}
			c.Distinct(sch.name, role, len(pw), damage)
		}
		c.Sample("%s damaged=%v: %d passwords tried around user %q and owner %q", sch.name, damage, len(cands), clipB(e.user), clipB(e.owner))
	}
}

// encWriteCase writes an encrypted document and reads it back.
func encWriteCase(mode string, maxObj int) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		w := write.NewPDFWriter()
		m := &writerModel{objs: map[int]Obj{}, comp: map[int]bool{}, next: 1, ver: "1.7", mode: mode, pinned: map[int]bool{}}
		setMode(w, mode, r)
		user, owner := randPassword(r), randPassword(r)
		encMeta := r.Intn(2) == 0
		perms := []int32{-1, -4, -44, -3904, 0, -1852}[r.Intn(6)]
		m.ver = "2.0"
		w.SetVersion("2.0")
		g := &objGen{r: r}
		var secrets [][]byte
		secret := func() []byte {
			b := []byte("SECRET" + hex.EncodeToString(rbytes(r, 8)))
			secrets = append(secrets, b)
			return b
		}
		setup := func() {
			n, err := w.SetupEncryptionWithPasswords(user, owner, perms, encMeta)
			if err != nil {
				c.Failf("SetupEncryptionWithPasswords: %v", err)
				return
			}
			if len(owner) == 0 {
				owner = user // without an owner password the user's applies
			}
			if n != m.next {
				c.Failf("encryption dictionary is object %d, next free number was %d", n, m.next)
			}
			m.enc = n
			m.pinned[n] = true
			m.next = n + 1
		}
		n := 1 + r.Intn(maxObj)
		at := r.Intn(n + 1)
		for i := 0; i <= n && !c.Failed(); i++ {
			if i == at {
				setup()
			}
			if i < n {
				m.step(c, w, g)
			}
			if r.Intn(3) == 0 {
				s := secret()
				switch r.Intn(4) {
				case 3:
					o := sigDict(r)
					o.Set("Location", Str(s))
					k := w.AddObject(Ser(o, Style{R: r}))
					m.objs[k] = o
					m.next = k + 1
				case 0:
					o := NewDict("S", Str(s), "A", Arr{Str(append([]byte("x"), s...)), NewDict("D", Str(s))})
					k := w.AddObject(Ser(o, Style{R: r, HexStr: r.Intn(2) * 100}))
					m.objs[k] = o
					m.next = k + 1
				case 1:
					d := NewDict("Note", Str(s))
					data := append(append([]byte("data "), s...), rbytes(r, r.Intn(40))...)
					k := w.AddStreamObject(goDict(r, d), data, false)
					m.objs[k] = &Stream{D: d, Raw: data}
					m.next = k + 1
				case 2:
					k := w.AddObject(Ser(Str(s), Style{}))
					m.objs[k] = Str(s)
					m.next = k + 1
				}
			}
		}
		if c.Failed() {
			return
		}
		cat := NewDict("Type", Name("Catalog"), "Pages", Ref{m.next + 1, 0}, "Lang", Str(secret()))
		m.root = w.AddObject(Ser(cat, Style{}))
		m.objs[m.root] = cat
		pg := NewDict("Type", Name("Pages"), "Kids", Arr{}, "Count", Int(0))
		p := w.AddObject(Ser(pg, Style{}))
		m.objs[p] = pg
		md := []byte("<x:xmpmeta>public " + randWords(r, 3) + "</x:xmpmeta>")
		mo := w.AddStreamObject(write.Dictionary{"Type": "/Metadata", "Subtype": "/XML"}, md, false)
		m.objs[mo] = &Stream{D: NewDict("Type", Name("Metadata"), "Subtype", Name("XML")), Raw: md}
		m.next = mo + 1
		m.pinned[m.root], m.pinned[p], m.pinned[mo] = true, true, true
		w.SetRoot(m.root)
		if r.Intn(2) == 0 {
			in := NewDict("Title", Str(secret()))
			m.info = w.AddObject(Ser(in, Style{}))
			m.objs[m.info] = in
			m.next = m.info + 1
			m.pinned[m.info] = true
			w.SetInfo(m.info)
		}
		rounds := 1 + r.Intn(2)
		for k := 0; k < rounds && !c.Failed(); k++ {
			out, err := w.Bytes()
			if err != nil {
				c.Failf("Bytes: %v", err)
				return
			}
			c.Save(fmt.Sprintf("out%d.pdf", k), out)
			c.Save("user.txt", user)
			c.Save("owner.txt", owner)
			for i, pw := range [][]byte{user, owner} {
				m.pw = pw
				m.check(c, out, []string{"user password", "owner password"}[i])
				if c.Failed() {
					return
				}
			}
			// the strict reader's view of the handler
			f, err := OpenStrict(out, user)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			if f.Crypt == nil || f.Crypt.V != 5 || f.Crypt.P != perms || f.Crypt.EncMeta != encMeta {
				c.Failf("encryption dictionary does not say what was asked for: %+v", f.Crypt)
				return
			}
			if err := f.Crypt.PermsOK(); err != nil {
				c.Failf("%v", err)
			}
			if f.Crypt.StmM != "AESV3" || f.Crypt.StrM != "AESV3" {
				c.Failf("crypt filters are %s/%s", f.Crypt.StmM, f.Crypt.StrM)
			}
			lower := bytes.ToLower(out)
			for _, s := range secrets {
				if bytes.Contains(out, s) || bytes.Contains(lower, []byte(hex.EncodeToString(s))) {
					c.Failf("%q is readable in the encrypted file", s)
				}
				c.Obs("secrets_searched", 1)
			}
			if bytes.Contains(out, md) != !encMeta {
				c.Failf("EncryptMetadata %v but metadata readable: %v", encMeta, bytes.Contains(out, md))
			}
			// no two pieces of data share an initialization vector
			ivs := map[string]string{}
			iv := func(b []byte, what string) {
				if len(b) < 16 {
					return
				}
				if o, dup := ivs[string(b[:16])]; dup {
					c.Failf("%s and %s use the same initialization vector", o, what)
				}
				ivs[string(b[:16])] = what
				c.Obs("ivs", 1)
			}
			for _, num := range f.Nums() {
				o, err := f.GetRaw(num)
				if err != nil || num == m.enc || f.Entries[num].InStm != 0 {
					continue
				}
				d := o
				if s, ok := o.(*Stream); ok {
					if s.D.Name("Type") == "XRef" {
						continue
					}
					if s.D.Name("Type") != "Metadata" || encMeta {
						iv(s.Raw, fmt.Sprintf("stream %d", num))
					}
					d = s.D
				}
				k := 0
				MapStrings(d, func(b []byte) ([]byte, error) {
					k++
					iv(b, fmt.Sprintf("string %d of object %d", k, num))
					return b, nil
				})
			}
			for i, pw := range append(nearMisses(r, user), nearMisses(r, owner)...) {
				if i%3 != 0 && len(pw) > 0 {
					continue
				}
				set := bytes.Equal(trunc127(pw), trunc127(user)) || bytes.Equal(trunc127(pw), trunc127(owner))
				a := *f.Crypt
				if (a.Auth(pw) != "") != set {
					c.Failf("password %q (user %q, owner %q): the file accepts it: %v", pw, user, owner, !set)
				}
				if set {
					continue
				}
				if _, err := parse.OpenWithOptions(out, parse.ParseOptions{Password: pw}); err == nil {
					c.Failf("password %q opens the file (user %q, owner %q)", pw, user, owner)
				}
				c.Obs("refused", 1)
			}
			for i := r.Intn(3); i >= 0 && k+1 < rounds && !c.Failed(); i-- {
				m.step(c, w, g)
			}
			c.Obs("files", 1)
			c.Distinct(len(out), len(m.objs), mode, encMeta, perms, len(user), len(owner))
			c.Sample("%s: %d objects, %d bytes, EncryptMetadata %v, P %d, user %q owner %q", mode, len(m.objs), len(out), encMeta, perms, clipB(user), clipB(owner))
		}
	}
}

func trunc127(b []byte) []byte {
	if len(b) > 127 {
		return b[:127]
	}
	return b
}

func init() {
	rt.Register(&rt.Check{
		ID: "P07", Title: "Encrypted output opens with its passwords only and leaks nothing",
		Rule: "distinct_nontrivial = cases with a distinct (size, object count, mode, permissions, password lengths) encrypted file that the strict reader and the library decrypted object by object",
		Families: []rt.Family{
			{Name: "table", Quick: 500, Thorough: 8000, Run: encWriteCase("table", 15)},
			{Name: "xrefstm", Quick: 500, Thorough: 8000, Run: encWriteCase("xrefstm", 15)},
			{Name: "objstm", Quick: 500, Thorough: 8000, Run: encWriteCase("objstm", 15)},
			{Name: "table-large", Quick: 10, Thorough: 100, Run: encWriteCase("table", 300)},
			{Name: "objstm-large", Quick: 10, Thorough: 100, Run: encWriteCase("objstm", 300)},
		},
	})
	fams := []rt.Family{}
	for i, s := range cryptSchemes {
		s := s
		if i > 0 && cryptSchemes[i-1].name == s.name {
			continue
		}
		fams = append(fams, rt.Family{Name: s.name, Quick: 160, Thorough: 2500, Run: cryptReadCase(func(*rand.Rand) cryptScheme { return s }, func(r *rand.Rand) int { return 3 + r.Intn(20) }, false)})
	}
	any := func(r *rand.Rand) cryptScheme { return cryptSchemes[r.Intn(len(cryptSchemes))] }
	fams = append(fams,
		rt.Family{Name: "updated", Quick: 240, Thorough: 4000, Run: cryptReadCase(any, func(r *rand.Rand) int { return 4 + r.Intn(12) }, true)},
		rt.Family{Name: "large", Quick: 24, Thorough: 200, Run: cryptReadCase(any, func(r *rand.Rand) int { return 250 + r.Intn(250) }, false)})
	rt.Register(&rt.Check{
		ID: "P08", Title: "Either password of an encrypted file returns every value in clear",
		Rule:     "distinct_nontrivial = cases with a distinct (scheme, file size, password lengths) encrypted file whose objects were all compared with the plaintext they were built from",
		Families: fams,
	})
	rt.Register(&rt.Check{
		ID: "P09", Title: "Only authenticating passwords open an encrypted file",
		Rule: "distinct_nontrivial = distinct (scheme, role granted by the standard, password length, damaged) authentication decisions compared",
		Families: []rt.Family{
			{Name: "near-miss", Quick: 500, Thorough: 8000, Run: authCase(false)},
			{Name: "altered-dictionary", Quick: 400, Thorough: 6000, Run: authCase(true)},
		},
	})
}
