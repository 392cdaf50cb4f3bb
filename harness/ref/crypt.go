package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/rc4"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"math/rand"
)

// Crypt is the standard security handler (ISO 32000-1 7.6, ISO 32000-2 7.6).
type Crypt struct {
	V, R, Bits int // Bits: key length
	AES        bool
	P          int32
	O, U       []byte
	OE, UE     []byte
	Perms      []byte
	EncMeta    bool
	BigP       bool // write P as an unsigned number, as some producers do
	ID0        []byte
	Key        []byte
	StmM, StrM string          // crypt filter methods when they differ from the default ("V2", "AESV2", "AESV3", "Identity")
	Filters    map[Name]string // further crypt filters
	EFF        Name            // the one for embedded files
	Alter      func(d *Dict)   // last change to the dictionary
}

func (c *Crypt) def() string {
	switch {
	case c.V == 5:
		return "AESV3"
	case c.AES:
		return "AESV2"
	}
	return "V2"
}

func (c *Crypt) stm() string {
	if c.StmM != "" {
		return c.StmM
	}
	return c.def()
}

func (c *Crypt) str() string {
	if c.StrM != "" {
		return c.StrM
	}
	return c.def()
}

var padStr = []byte{0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41, 0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08, 0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80, 0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A}

func pad(pw []byte) []byte {
	b := append(append([]byte{}, pw...), padStr...)
	return b[:32]
}

func rc4x(key, data []byte) []byte {
	c, err := rc4.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(data))
	c.XORKeyStream(out, data)
	return out
}

func xorKey(k []byte, x byte) []byte {
	o := make([]byte, len(k))
	for i := range k {
		o[i] = k[i] ^ x
	}
	return o
}

func (c *Crypt) n() int {
	if c.R == 2 {
		return 5
	}
	return c.Bits / 8
}

func (c *Crypt) fileKey(user []byte) []byte {
	h := md5.New()
	h.Write(pad(user))
	h.Write(c.O[:32])
	var p [4]byte
	binary.LittleEndian.PutUint32(p[:], uint32(c.P))
	h.Write(p[:])
	h.Write(c.ID0)
	if c.R >= 4 && !c.EncMeta {
		h.Write([]byte{255, 255, 255, 255})
	}
	k := h.Sum(nil)
	if c.R >= 3 {
		for i := 0; i < 50; i++ {
			s := md5.Sum(k[:c.n()])
			k = s[:]
		}
	}
	return k[:c.n()]
}

func (c *Crypt) ownerKey(owner []byte) []byte {
	s := md5.Sum(pad(owner))
	k := s[:]
	if c.R >= 3 {
		for i := 0; i < 50; i++ {
			s := md5.Sum(k)
			k = s[:]
		}
	}
	return k[:c.n()]
}

func (c *Crypt) computeU(key []byte) []byte {
	if c.R == 2 {
		return rc4x(key, padStr)
	}
	h := md5.New()
	h.Write(padStr)
	h.Write(c.ID0)
	x := h.Sum(nil)
	for i := 0; i < 20; i++ {
		x = rc4x(xorKey(key, byte(i)), x)
	}
	return x
}

func cbcEnc(key, iv, d []byte) []byte {
	b, _ := aes.NewCipher(key)
	out := make([]byte, len(d))
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, d)
	return out
}
func cbcDec(key, iv, d []byte) []byte {
	b, _ := aes.NewCipher(key)
	out := make([]byte, len(d))
	cipher.NewCBCDecrypter(b, iv).CryptBlocks(out, d)
	return out
}

// Hash2B is algorithm 2.B (R6); R5 uses plain SHA-256.
func Hash2B(r int, pw, salt, udata []byte) []byte {
	h := sha256.New()
	h.Write(pw)
	h.Write(salt)
	h.Write(udata)
	k := h.Sum(nil)
	if r < 6 {
		return k
	}
	for i := 0; ; i++ {
		one := append(append(append([]byte{}, pw...), k...), udata...)
		k1 := bytes.Repeat(one, 64)
		e := cbcEnc(k[:16], k[16:32], k1)
		m := 0
		for _, x := range e[:16] {
			m += int(x)
		}
		switch m % 3 {
		case 0:
			s := sha256.Sum256(e)
			k = s[:]
		case 1:
			s := sha512.Sum384(e)
			k = s[:]
		case 2:
			s := sha512.Sum512(e)
			k = s[:]
		}
		if i >= 63 && int(e[len(e)-1]) <= i-32 {
			break
		}
	}
	return k[:32]
}

func rnd(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// NewCrypt creates handler values for the passwords.
func NewCrypt(v, rev, bits int, aesOn bool, user, owner []byte, p int32, encMeta bool, id0 []byte, r *rand.Rand) *Crypt {
	c := &Crypt{V: v, R: rev, Bits: bits, AES: aesOn, P: p, EncMeta: encMeta, ID0: id0}
	if rev >= 5 {
		if len(user) > 127 {
			user = user[:127]
		}
		if len(owner) > 127 {
			owner = owner[:127]
		}
		c.Bits = 256
		c.AES = true
		c.Key = rnd(r, 32)
		zero := make([]byte, 16)
		s := rnd(r, 16)
		c.U = append(Hash2B(rev, user, s[:8], nil), s...)
		c.UE = cbcEnc(Hash2B(rev, user, s[8:16], nil), zero, c.Key)
		s = rnd(r, 16)
		c.O = append(Hash2B(rev, owner, s[:8], c.U[:48]), s...)
		c.OE = cbcEnc(Hash2B(rev, owner, s[8:16], c.U[:48]), zero, c.Key)
		pm := make([]byte, 16)
		binary.LittleEndian.PutUint32(pm, uint32(p))
		copy(pm[4:], []byte{255, 255, 255, 255})
		pm[8] = 'F'
		if encMeta {
			pm[8] = 'T'
		}
		copy(pm[9:], "adb")
		copy(pm[12:], rnd(r, 4))
		b, _ := aes.NewCipher(c.Key)
		c.Perms = make([]byte, 16)
		b.Encrypt(c.Perms, pm)
		return c
	}
	if len(owner) == 0 {
		owner = user
	}
	ok := c.ownerKey(owner)
	o := rc4x(ok, pad(user))
	if rev >= 3 {
		for i := 1; i <= 19; i++ {
			o = rc4x(xorKey(ok, byte(i)), o)
		}
	}
	c.O = o
	c.Key = c.fileKey(user)
	u := c.computeU(c.Key)
	if rev >= 3 {
		u = append(append([]byte{}, u...), rnd(r, 16)...)
	}
	c.U = u
	return c
}

func (c *Crypt) Dict() *Dict {
	d := NewDict("Filter", Name("Standard"), "V", Int(c.V), "R", Int(c.R), "P", Int(c.P), "O", Str(c.O), "U", Str(c.U))
	if c.BigP {
		d.Set("P", Int(uint32(c.P)))
	}
	if c.V >= 2 {
		d.Set("Length", Int(c.Bits))
	}
	if c.V >= 4 {
		cf := NewDict()
		name := func(m string) Name {
			if m == "Identity" || m == "None" {
				return "Identity"
			}
			n := "StdCF"
			if m != c.stm() {
				n = "StrCF"
			}
			cf.Set(n, NewDict("Type", Name("CryptFilter"), "CFM", Name(m), "AuthEvent", Name("DocOpen"), "Length", Int(c.Bits/8)))
			return Name(n)
		}
		stm, str := name(c.stm()), name(c.str())
		for _, n := range []Name{"Other", "XCF", "Open"} {
			if m, ok := c.Filters[n]; ok {
				cf.Set(string(n), NewDict("CFM", Name(m), "AuthEvent", Name("EFOpen"), "Length", Int(c.Bits/8)))
			}
		}
		if c.EFF != "" {
			d.Set("EFF", c.EFF)
		}
		d.Set("CF", cf)
		d.Set("StmF", stm)
		d.Set("StrF", str)
	}
	if !c.EncMeta {
		d.Set("EncryptMetadata", Bool(false))
	}
	if c.V == 5 {
		d.Set("OE", Str(c.OE))
		d.Set("UE", Str(c.UE))
		d.Set("Perms", Str(c.Perms))
	}
	if c.Alter != nil {
		c.Alter(d)
	}
	return d
}

// CryptFromDict reads a handler from an encryption dictionary.
func CryptFromDict(d *Dict, id0 []byte) (*Crypt, error) {
	c := &Crypt{ID0: id0, EncMeta: true}
	if d.Name("Filter") != "Standard" {
		return nil, fmt.Errorf("encryption /Filter is not Standard")
	}
	c.V, c.R = d.Int("V", 0), d.Int("R", 0)
	c.Bits = d.Int("Length", 40)
	c.P = int32(uint32(d.Int("P", 0)))
	if b, ok := d.Get("EncryptMetadata").(Bool); ok {
		c.EncMeta = bool(b)
	}
	str := func(k string, n int) ([]byte, error) {
		s, ok := d.Get(k).(Str)
		if !ok || len(s) < n {
			return nil, fmt.Errorf("encryption dictionary /%s missing or too short", k)
		}
		return s[:n], nil
	}
	n := 32
	if c.R >= 5 {
		n = 48
	}
	var err error
	if c.O, err = str("O", n); err != nil {
		return nil, err
	}
	if c.U, err = str("U", n); err != nil {
		return nil, err
	}
	switch c.V {
	case 1:
		c.Bits = 40
	case 2:
	case 4, 5:
		cf, _ := d.Get("CF").(*Dict)
		c.Bits = 128
		if c.V == 5 {
			c.Bits = 256
		}
		method := func(key string) (string, error) {
			n := d.Name(key)
			if n == "" || n == "Identity" {
				return "Identity", nil
			}
			f, _ := cf.Get(n).(*Dict)
			if f == nil {
				return "", fmt.Errorf("crypt filter %q missing", n)
			}
			m := f.Name("CFM")
			switch {
			case c.V == 4 && (m == "V2" || m == "AESV2"), c.V == 5 && m == "AESV3":
				return m, nil
			}
			return "", fmt.Errorf("CFM %q with V %d", m, c.V)
		}
		c.Filters = map[Name]string{}
		if cf != nil {
			for _, k := range cf.Keys {
				if f, ok := cf.M[k].(*Dict); ok {
					c.Filters[Name(k)] = string(f.Name("CFM"))
				}
			}
		}
		c.EFF = Name(d.Name("EFF"))
		if c.StmM, err = method("StmF"); err != nil {
			return nil, err
		}
		if c.StrM, err = method("StrF"); err != nil {
			return nil, err
		}
	default:
		return nil, fmt.Errorf("V %d", c.V)
	}
	if c.V == 5 {
		if c.OE, err = str("OE", 32); err != nil {
			return nil, err
		}
		if c.UE, err = str("UE", 32); err != nil {
			return nil, err
		}
		if c.Perms, err = str("Perms", 16); err != nil {
			return nil, err
		}
	}
	return c, nil
}

// Auth tries pw as user then owner password and sets Key.  Returns "user",
// "owner" or "".
func (c *Crypt) Auth(pw []byte) string {
	if c.R >= 5 {
		if len(pw) > 127 {
			pw = pw[:127]
		}
		zero := make([]byte, 16)
		if bytes.Equal(Hash2B(c.R, pw, c.U[32:40], nil), c.U[:32]) {
			c.Key = cbcDec(Hash2B(c.R, pw, c.U[40:48], nil), zero, c.UE)
			return "user"
		}
		if bytes.Equal(Hash2B(c.R, pw, c.O[32:40], c.U[:48]), c.O[:32]) {
			c.Key = cbcDec(Hash2B(c.R, pw, c.O[40:48], c.U[:48]), zero, c.OE)
			return "owner"
		}
		return ""
	}
	check := func(user []byte) bool {
		k := c.fileKey(user)
		u := c.computeU(k)
		n := 32
		if c.R >= 3 {
			n = 16
		}
		if bytes.Equal(u[:n], c.U[:n]) {
			c.Key = k
			return true
		}
		return false
	}
	if check(pw) {
		return "user"
	}
	ok := c.ownerKey(pw)
	x := append([]byte{}, c.O[:32]...)
	if c.R == 2 {
		x = rc4x(ok, x)
	} else {
		for i := 19; i >= 0; i-- {
			x = rc4x(xorKey(ok, byte(i)), x)
		}
	}
	if check(x) {
		return "owner"
	}
	return ""
}

// PermsOK verifies the /Perms entry of an R6 file against P.
func (c *Crypt) PermsOK() error {
	b, err := aes.NewCipher(c.Key)
	if err != nil {
		return err
	}
	out := make([]byte, 16)
	b.Decrypt(out, c.Perms)
	if string(out[9:12]) != "adb" {
		return fmt.Errorf("/Perms does not decrypt (no 'adb')")
	}
	if int32(binary.LittleEndian.Uint32(out)) != c.P {
		return fmt.Errorf("/Perms permissions %d differ from /P %d", int32(binary.LittleEndian.Uint32(out)), c.P)
	}
	if (out[8] == 'T') != c.EncMeta {
		return fmt.Errorf("/Perms metadata flag %q, EncryptMetadata %v", out[8], c.EncMeta)
	}
	return nil
}

func (c *Crypt) objKey(n, g int, m string) []byte {
	if m == "AESV3" {
		return c.Key
	}
	b := append([]byte{}, c.Key...)
	b = append(b, byte(n), byte(n>>8), byte(n>>16), byte(g), byte(g>>8))
	if m == "AESV2" {
		b = append(b, "sAlT"...)
	}
	s := md5.Sum(b)
	l := len(c.Key) + 5
	if l > 16 {
		l = 16
	}
	return s[:l]
}

func (c *Crypt) Enc(n, g int, d []byte, m string, r *rand.Rand) []byte {
	if m == "Identity" || m == "None" {
		return d
	}
	k := c.objKey(n, g, m)
	if m == "V2" {
		return rc4x(k, d)
	}
	iv := rnd(r, 16)
	p := 16 - len(d)%16
	d = append(append([]byte{}, d...), bytes.Repeat([]byte{byte(p)}, p)...)
	return append(iv, cbcEnc(k, iv, d)...)
}

func (c *Crypt) Dec(n, g int, d []byte, m string) ([]byte, error) {
	if m == "Identity" || m == "None" {
		return d, nil
	}
	k := c.objKey(n, g, m)
	if m == "V2" {
		return rc4x(k, d), nil
	}
	if len(d) < 32 || len(d)%16 != 0 {
		return nil, fmt.Errorf("AES data of %d bytes", len(d))
	}
	o := cbcDec(k, d[:16], d[16:])
	p := int(o[len(o)-1])
	if p < 1 || p > 16 || p > len(o) {
		return nil, fmt.Errorf("bad AES padding %d", p)
	}
	for _, x := range o[len(o)-p:] {
		if int(x) != p {
			return nil, fmt.Errorf("bad AES padding")
		}
	}
	return o[:len(o)-p], nil
}

// streamMethod is the method for the data of a stream.
func (c *Crypt) streamMethod(d *Dict) string {
	if d.Name("Type") == "Metadata" && !c.EncMeta && c.V >= 4 {
		return "Identity"
	}
	f, parms := d.Get("Filter"), d.Get("DecodeParms")
	if a, ok := f.(Arr); ok && len(a) > 0 {
		f = a[0]
		if pa, ok := parms.(Arr); ok && len(pa) > 0 {
			parms = pa[0]
		}
	}
	if f == Name("Crypt") {
		pd, _ := parms.(*Dict)
		n := pd.Name("Name")
		if n == "" || n == "Identity" {
			return "Identity"
		}
		if m, ok := c.Filters[Name(n)]; ok {
			return m
		}
	} else if d.Name("Type") == "EmbeddedFile" && c.V >= 4 && c.EFF != "" {
		if m, ok := c.Filters[c.EFF]; ok {
			return m
		}
		return "Identity"
	}
	return c.stm()
}

// MapStrings returns o with f applied to every string.
func MapStrings(o Obj, f func([]byte) ([]byte, error)) (Obj, error) {
	switch v := o.(type) {
	case Str:
		s, err := f(v)
		return Str(s), err
	case Arr:
		out := make(Arr, len(v))
		for i, e := range v {
			x, err := MapStrings(e, f)
			if err != nil {
				return nil, err
			}
			out[i] = x
		}
		return out, nil
	case *Dict:
		out := NewDict()
		for _, k := range v.Keys {
			if _, ok := v.M[k].(Str); ok && k == "Contents" && v.Get("ByteRange") != nil {
				out.Set(k, v.M[k]) // a signature, never encrypted
				continue
			}
			x, err := MapStrings(v.M[k], f)
			if err != nil {
				return nil, err
			}
			out.Set(k, x)
		}
		return out, nil
	}
	return o, nil
}

// EncObj encrypts strings and stream data of an indirect object.
func (c *Crypt) EncObj(n, g int, o Obj, r *rand.Rand) Obj {
	enc := func(b []byte) ([]byte, error) { return c.Enc(n, g, b, c.str(), r), nil }
	if s, ok := o.(*Stream); ok {
		if s.D.Name("Type") == "XRef" {
			return o
		}
		d, _ := MapStrings(s.D, enc)
		raw := c.Enc(n, g, s.Raw, c.streamMethod(s.D), r)
		dd := d.(*Dict)
		dd.Set("Length", Int(len(raw)))
		return &Stream{D: dd, Raw: raw}
	}
	x, _ := MapStrings(o, enc)
	return x
}

func (c *Crypt) DecObj(n, g int, o Obj) (Obj, error) {
	dec := func(b []byte) ([]byte, error) { return c.Dec(n, g, b, c.str()) }
	if s, ok := o.(*Stream); ok {
		if s.D.Name("Type") == "XRef" {
			return o, nil
		}
		d, err := MapStrings(s.D, dec)
		if err != nil {
			return nil, err
		}
		raw, err := c.Dec(n, g, s.Raw, c.streamMethod(s.D))
		if err != nil {
			return nil, err
		}
		dd := d.(*Dict)
		if _, ok := dd.Get("Length").(Int); ok {
			dd.Set("Length", Int(len(raw)))
		}
		return &Stream{D: dd, Raw: raw}, nil
	}
	return MapStrings(o, dec)
}
