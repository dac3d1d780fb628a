package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/avast/apkparser"
	"github.com/avast/apkverifier"
	"github.com/avast/apkverifier/signingblock"
)

// Op is one call a simulated client makes.
type Op struct {
	Kind  string  `json:"kind"` // see runOp
	Store int     `json:"store"`
	Min   int32   `json:"min"`
	Max   int32   `json:"max"`
	Zip   string  `json:"zip,omitempty"` // "", "own", "shared"
	Env   ReadEnv `json:"env"`
	Perm  uint64  `json:"perm,omitempty"`  // pick: input permutation
	Certs []int   `json:"certs,omitempty"` // pick: indices into keyNames
	Keep  bool    `json:"keep,omitempty"`
	Fail  string  `json:"fail,omitempty"` // path ops: error of open
	ZEnv  ReadEnv `json:"zenv,omitempty"` // environment of the caller's own ZipReader, after it was opened
}

// Outcome is what the client observed.
type Outcome struct {
	Kind    string
	Err     string // "" accepted, "janus", "notfound" (signing block API), "err"
	Text    string // not compared
	Scheme  int
	Chains  [][]string
	Lineage []string
	Extra   map[string]string
	Extra3  *Outcome
	Stamp   *StampOut
	Frost   *FrostOut
	Blocks  []string
	Panic   string
	Budget  bool
	Dead    bool
	Picked  string
	Fired   int  // faults that struck this call's reader
	Leaked  int  // handles still open after the call
	After   int  // operations on a handle after it was closed
	Closed  bool // the caller's own ZipReader or reader was closed by the callee
	Ops     int
	ZipOps  int
	StampT  []string  // texts, not compared
	Odd     string    // parts of an accepted result which contradict each other
	Changed string    // what a result handed out earlier looks like at the end
	at      ClockSpec // the moment the call saw, if it asked
	parts   string
	certs   [][]*x509.Certificate
	res     *signingblock.VerificationResult
}

type StampOut struct {
	Cert    string
	Errs    bool
	NoEntry bool
	Time    int64
	Lineage []string
}

type FrostOut struct {
	Ok   bool
	Key  string
	Info string
}

func certName(c *x509.Certificate) string {
	if c == nil {
		return "nil"
	}
	if k := keyByCert[string(c.Raw)]; k != nil {
		return k.Name
	}
	h := sha256.Sum256(c.Raw)
	n := "x" + hex.EncodeToString(h[:6])
	if k := keyBySpki[string(c.RawSubjectPublicKeyInfo)]; k != nil {
		n += "~" + k.Name // another certificate for the key of that party
	}
	return n
}

// keyOwner is the party whose key a certificate carries.
func keyOwner(name string) string {
	if i := strings.IndexByte(name, '~'); i >= 0 {
		return name[i+1:]
	}
	return name
}

func chainNames(cs [][]*x509.Certificate) [][]string {
	var out [][]string
	for _, ch := range cs {
		var x []string
		for _, c := range ch {
			x = append(x, certName(c))
		}
		out = append(out, x)
	}
	return out
}

func lineageNames(l *signingblock.V3SigningLineage) []string {
	if l == nil {
		return nil
	}
	var out []string
	for _, n := range l.Nodes {
		out = append(out, fmt.Sprintf("%s/%d/%x/%x", certName(n.SigningCert), n.Flags, uint32(n.SigAlgorithm), uint32(n.ParentSigAlgorithm)))
	}
	return append(out, fmt.Sprintf("min%d", l.MinSdkVersion))
}

func (o *Outcome) setErr(err error) {
	switch {
	case err == nil:
		o.Err = ""
	case errors.Is(err, apkverifier.ErrMixedDexApkFile):
		o.Err = "janus"
	case signingblock.IsSigningBlockNotFoundError(err):
		o.Err = "notfound"
	default:
		o.Err = "err"
	}
	if err != nil {
		o.Text = err.Error()
	}
}

func (o *Outcome) setBlock(r *signingblock.VerificationResult) {
	o.res = r
	if r == nil {
		return
	}
	o.Lineage = lineageNames(r.SigningLineage)
	if x := r.ExtraResults[3]; x != nil {
		e := &Outcome{Scheme: x.SchemeId, Chains: chainNames(x.Certs), Lineage: lineageNames(x.SigningLineage), certs: x.Certs, res: x}
		if x.ContainsErrors() {
			e.Err = "err"
		}
		o.Extra3 = e
	}
	for k := range r.ExtraResults {
		if k != 3 {
			if o.Extra == nil {
				o.Extra = map[string]string{}
			}
			o.Extra[fmt.Sprint(k)] = "present"
		}
	}
	if s := r.SourceStamp; s != nil {
		so := &StampOut{Cert: certName(s.Cert), Errs: len(s.Errors) > 0}
		if !s.SigningTime.IsZero() {
			so.Time = s.SigningTime.Unix()
		}
		for _, n := range s.Lineage {
			so.Lineage = append(so.Lineage, fmt.Sprintf("%s/%d/%x/%x", certName(n.Cert), n.Flags, uint32(n.Algo), uint32(n.ParentAlgo)))
		}
		for _, e := range s.Errors {
			o.StampT = append(o.StampT, e.Error())
		}
		o.StampT = append(o.StampT, s.Warnings...)
		for _, w := range s.Warnings {
			if strings.Contains(w, "is missing") {
				so.NoEntry = true
			}
		}
		o.Stamp = so
	}
	if f := r.Frosting; f != nil {
		h := sha256.Sum256(f.ProtobufInfo)
		o.Frost = &FrostOut{Ok: f.Error == nil, Key: f.KeySha256, Info: fmt.Sprintf("%d:%x", len(f.ProtobufInfo), h[:6])}
		if f.Error != nil {
			o.StampT = append(o.StampT, "frosting: "+f.Error.Error())
		}
	}
	for id, b := range r.ExtraBlocks {
		h := sha256.Sum256(b)
		o.Blocks = append(o.Blocks, fmt.Sprintf("%08x:%d:%x", uint32(id), len(b), h[:6]))
	}
	sort.Strings(o.Blocks)
}

// render describes everything the caller holds after the call.
func (o *Outcome) render() string {
	x := &Outcome{Scheme: o.Scheme, Chains: chainNames(o.certs)}
	if o.res != nil {
		x.setBlock(o.res)
		x.Chains = append(x.Chains, chainNames(o.res.Certs)...)
		if o.res.Frosting != nil && o.res.Frosting.Error != nil {
			x.Blocks = append(x.Blocks, o.res.Frosting.Error.Error())
		}
	}
	return x.verdict() + strings.Join(x.StampT, "|")
}

func sameCerts(a, b [][]*x509.Certificate) bool {
	return fmt.Sprint(chainNames(a)) == fmt.Sprint(chainNames(b))
}

// oddBlock says how the parts of a signing block result contradict each other;
// old platforms do not look at the block.
func oddBlock(r *signingblock.VerificationResult, ok, old bool) string {
	switch {
	case r == nil && ok:
		return "success without a result"
	case r == nil:
		return ""
	case ok && r.ContainsErrors():
		return fmt.Sprintf("success with errors: %v", r.Errors)
	case ok && old && (r.SchemeId != 1 || len(r.Certs) != 0):
		return fmt.Sprintf("scheme %d for platforms which only know v1", r.SchemeId)
	case ok && !old && r.SchemeId != 2 && r.SchemeId != 3 && r.SchemeId != 31:
		return fmt.Sprintf("success with scheme %d", r.SchemeId)
	case ok && !old && len(r.Certs) == 0:
		return "success without signers"
	case (!ok || old) && (len(r.Certs) != 0 || r.SigningLineage != nil || len(r.ExtraResults) != 0):
		return "signers of a signing block which was not found"
	}
	for _, ch := range r.Certs {
		if len(ch) == 0 {
			return "a signer without certificates"
		}
		for _, c := range ch {
			if c == nil {
				return "a missing certificate"
			}
		}
	}
	if r.SigningLineage != nil && r.SchemeId < 3 {
		return fmt.Sprintf("a rotation history with scheme %d", r.SchemeId)
	}
	for id, x := range r.ExtraResults {
		switch {
		case r.SchemeId != 31 || id != 3:
			return fmt.Sprintf("an extra result of scheme %d for scheme %d", id, r.SchemeId)
		case x == nil || x.SchemeId != id || len(x.Certs) == 0 || ok && x.ContainsErrors():
			return "a broken v3 result beside v3.1"
		}
	}
	if ok && r.SchemeId == 31 && r.ExtraResults[3] == nil {
		return "v3.1 without the v3 result"
	}
	return ""
}

// oddResult does the same for an accepted full verification.
func oddResult(res *apkverifier.Result) string {
	r := res.SigningBlockResult
	if len(res.SignerCerts) == 0 {
		return "accepted without signers"
	}
	for _, ch := range res.SignerCerts {
		if len(ch) == 0 {
			return "a signer without certificates"
		}
	}
	if res.SigningSchemeId == 1 {
		return oddBlock(r, false, false)
	}
	if r == nil || r.SchemeId != res.SigningSchemeId {
		return fmt.Sprintf("scheme %d, but another in the signing block result", res.SigningSchemeId)
	}
	if !sameCerts(r.Certs, res.SignerCerts) {
		return fmt.Sprintf("signers %v, but %v in the signing block result", chainNames(res.SignerCerts), chainNames(r.Certs))
	}
	return oddBlock(r, true, false)
}

// verdict is what determinism, isolation and delivery checks compare.
func (o *Outcome) verdict() string {
	type v struct {
		Err, Panic, Picked string
		Budget, Dead       bool
		Scheme             int
		Chains             [][]string
		Lineage            []string
		Extra3             string
		Stamp              *StampOut
		Frost              *FrostOut
		Blocks             []string
	}
	x := v{Err: o.Err, Panic: o.Panic, Budget: o.Budget, Dead: o.Dead, Picked: o.Picked}
	if o.Err == "" || o.Err == "janus" {
		x.Scheme, x.Chains, x.Lineage, x.Stamp, x.Frost, x.Blocks = o.Scheme, o.Chains, o.Lineage, o.Stamp, o.Frost, o.Blocks
		if o.Extra3 != nil {
			x.Extra3 = o.Extra3.verdict()
		}
	}
	b, _ := json.Marshal(x)
	return string(b)
}

func (o *Outcome) accepted() bool {
	return o.Panic == "" && !o.Budget && !o.Dead && (o.Err == "" || o.Err == "janus")
}

// clientCtx is what a client keeps between its calls.
type clientCtx struct {
	zips    map[int]*apkparser.ZipReader
	zipFile map[int]*diskFile
	readers map[int]*diskFile
}

const simStorePath = simRoot + "store%d.apk"

// runOp performs one call. stores holds the bytes on the simulated disk.
func runOp(s *Sim, op *Op, stores [][]byte, cc *clientCtx) (o *Outcome) {
	o = &Outcome{Kind: op.Kind}
	var d *diskFile
	var zd *diskFile
	var zr *apkparser.ZipReader
	defer func() {
		if v := recover(); v != nil {
			if _, ok := v.(budgetExceeded); ok {
				o.Budget = !s.deadlock
				o.Dead = s.deadlock
			} else {
				o.Panic = panicText(v)
			}
		} else if s.budgetHit && s.cur.steps >= s.budget/2 {
			o.Budget = true
		}
		if s.budgetHit {
			o.Budget = true
		}
		if d != nil {
			o.Fired += d.fired
			o.Ops = d.ops
			o.After += d.after
		}
		if zd != nil {
			o.Fired += zd.fired
			o.ZipOps = zd.ops
		}
	}()
	s.Ctr.Ops++
	s.cur.steps = 0
	s.since = verifN()
	s.arm()
	data := stores[op.Store]
	path := fmt.Sprintf(simStorePath, op.Store)
	isPath := strings.HasSuffix(op.Kind, "path") || strings.HasSuffix(op.Kind, "path0")
	if isPath {
		disk.files[path] = func(*Sim) (*diskFile, error) {
			if op.Fail != "" {
				s.fault("open-" + op.Fail)
				o.Fired++
				return nil, openErr(op.Fail)
			}
			if d == nil {
				d = newDiskFile(s, data, op.Env)
				return d, nil
			}
			d2 := newDiskFile(s, data, op.Env)
			d2.env.Faults = nil
			return d2, nil
		}
	} else if op.Keep && cc.readers[op.Store] != nil {
		d = cc.readers[op.Store]
		d.env = op.Env
		d.ops, d.fired, d.hit, d.sticky, d.size = 0, 0, 0, false, int64(len(data))
		d.rng = nil
		if op.Env.Rand != 0 {
			d.rng = NewRng(op.Env.Rand)
		}
	} else {
		d = newDiskFile(s, data, op.Env)
		if op.Keep {
			cc.readers[op.Store] = d
		}
	}
	switch op.Zip {
	case "own":
		zd = newDiskFile(s, data, ReadEnv{})
		var err error
		zr, err = apkparser.OpenZipReader(zd.asReader())
		if err != nil {
			o.Err, o.Text = "err", "open zip: "+err.Error()
			return
		}
		zd.env = op.ZEnv
		zd.ops = 0
		defer zr.Close()
	case "shared":
		zr = cc.zips[op.Store]
		zd = cc.zipFile[op.Store]
		if zr == nil {
			zd = newDiskFile(s, data, ReadEnv{})
			var err error
			zr, err = apkparser.OpenZipReader(zd.asReader())
			if err != nil {
				o.Err, o.Text = "err", "open zip: "+err.Error()
				return
			}
			cc.zips[op.Store], cc.zipFile[op.Store] = zr, zd
		}
		zd.env = op.ZEnv
		zd.ops, zd.fired, zd.hit, zd.sticky, zd.size = 0, 0, 0, false, int64(len(data))
	}
	var rs io.ReadSeeker
	if d != nil {
		rs = d.asReader()
	}
	before := len(s.handles)
	var res apkverifier.Result
	var err error
	switch op.Kind {
	case "verify":
		res, err = apkverifier.VerifyWithSdkVersionReader(rs, zr, op.Min, op.Max)
	case "verify0":
		res, err = apkverifier.VerifyReader(rs, zr)
	case "vpath":
		res, err = apkverifier.VerifyWithSdkVersion(path, zr, op.Min, op.Max)
	case "vpath0":
		res, err = apkverifier.Verify(path, zr)
	case "sb", "sbpath", "sbzip":
		var r *signingblock.VerificationResult
		var magic uint32
		switch op.Kind {
		case "sb":
			r, magic, err = signingblock.VerifySigningBlockReader(rs, op.Min, op.Max)
		case "sbzip":
			r, magic, err = signingblock.VerifySigningBlockReaderWithZip(rs, op.Min, op.Max, zr)
		default:
			r, magic, err = signingblock.VerifySigningBlock(path, op.Min, op.Max)
		}
		o.setErr(err)
		if r != nil {
			o.certs = r.Certs
			o.Scheme = r.SchemeId
		}
		o.setBlock(r)
		if o.Err == "" || o.Err == "notfound" {
			o.Odd = oddBlock(r, err == nil, op.Max < 24)
			if len(data) >= 4 && magic != binary.LittleEndian.Uint32(data) {
				o.Odd = fmt.Sprintf("the file starts with %x, reported is %08x", data[:4], magic)
			}
		}
	case "ext":
		o.certs, err = apkverifier.ExtractCertsReader(rs, zr)
		o.setErr(err)
	case "extpath":
		o.certs, err = apkverifier.ExtractCerts(path, zr)
		o.setErr(err)
	case "sbext":
		o.certs, err = signingblock.ExtractCertsReader(rs, op.Min, op.Max)
		o.setErr(err)
	case "sbextpath":
		o.certs, err = signingblock.ExtractCerts(path, op.Min, op.Max)
		o.setErr(err)
	case "openzip":
	case "probezip":
		// the caller reads members through its own ZipReader afterwards
		for _, f := range zr.FilesOrdered {
			if f.IsDir || strings.HasSuffix(f.Name, ".skip") {
				continue
			}
			b, e := f.ReadAll(1 << 24)
			h := sha256.Sum256(b)
			o.Blocks = append(o.Blocks, fmt.Sprintf("%s:%d:%x:%v", f.Name, len(b), h[:6], e))
		}
	case "pick":
		o.pick(op)
	case "pickres":
		res, err = apkverifier.VerifyReader(rs, zr)
		if len(res.SignerCerts) > 0 {
			ci, c := apkverifier.PickBestApkCert(res.SignerCerts)
			o.Picked = certName(c)
			h := sha256.Sum256(c.Raw)
			if ci == nil || ci.Sha256 != hex.EncodeToString(h[:]) {
				o.Picked += "!certinfo"
			}
		}
	default:
		panic("unknown op " + op.Kind)
	}
	switch op.Kind {
	case "verify", "verify0", "vpath", "vpath0", "pickres":
		o.setErr(err)
		o.Scheme = res.SigningSchemeId
		o.certs = res.SignerCerts
		o.setBlock(res.SigningBlockResult)
		if o.accepted() {
			o.Odd = oddResult(&res)
		}
	}
	o.Chains = chainNames(o.certs)
	o.parts = o.render()
	o.Leaked = len(s.handles) - before
	if zr != nil && op.Zip != "" {
		// a ZipReader handed in must come back usable: no member left open
		zd.env = ReadEnv{}
		zd.sticky = false
		for _, f := range zr.FilesOrdered {
			if e := f.Open(); e != nil && strings.Contains(e.Error(), "already") {
				o.Closed = true
				o.StampT = append(o.StampT, "member left open: "+f.Name+": "+e.Error())
				continue
			}
			f.Close()
		}
	}
	return
}

func openErr(k string) error {
	switch k {
	case "enoent":
		return errors.New("no such file")
	case "emfile":
		return errors.New("too many open files")
	}
	return errors.New("permission denied")
}

func (o *Outcome) pick(op *Op) {
	var chains [][]*x509.Certificate
	idx := append([]int(nil), op.Certs...)
	if op.Perm != 0 {
		r := NewRng(op.Perm)
		for i := len(idx) - 1; i > 0; i-- {
			j := r.N(i + 1)
			idx[i], idx[j] = idx[j], idx[i]
		}
	}
	for _, i := range idx {
		c := append([]*x509.Certificate(nil), pickChain(i)...)
		for j := 1; j <= i*7/5%4; j++ { // issuers, which play no role
			c = append(c, pickChain((i*j*31 + 17*j) % pickSpace)[0])
		}
		chains = append(chains, c)
	}
	in := map[string]int{}
	for _, c := range chains {
		in[chainID(c)]++ // the slice and every certificate in it
	}
	ci, c := apkverifier.PickBestApkCert(chains)
	if c == nil {
		if ci != nil || len(chains) != 0 {
			o.Picked = "!nil"
		}
		return
	}
	o.Picked = certName(c)
	if bad := describes(ci, c); bad != "" {
		o.Picked += "!certinfo-" + bad
	}
	for _, ch := range chains {
		in[chainID(ch)]--
	}
	for _, n := range in {
		if n != 0 {
			o.Picked += "!lost"
		}
	}
}

// chainID identifies a chain and every certificate in it.
func chainID(c []*x509.Certificate) string {
	s := fmt.Sprintf("%p", c)
	for _, x := range c {
		s += fmt.Sprintf(" %p", x)
	}
	return s
}

// describes names the field of the summary which is not about the certificate.
func describes(ci *apkverifier.CertInfo, c *x509.Certificate) string {
	if ci == nil {
		return "missing"
	}
	h1, h2, h3 := md5.Sum(c.Raw), sha1.Sum(c.Raw), sha256.Sum256(c.Raw)
	switch {
	case ci.Md5 != hex.EncodeToString(h1[:]):
		return "md5"
	case ci.Sha1 != hex.EncodeToString(h2[:]):
		return "sha1"
	case ci.Sha256 != hex.EncodeToString(h3[:]):
		return "sha256"
	case !ci.ValidFrom.Equal(c.NotBefore) || !ci.ValidTo.Equal(c.NotAfter):
		return "validity"
	case ci.Subject != nameText(&c.Subject):
		return "subject"
	case ci.Issuer != nameText(&c.Issuer):
		return "issuer"
	case ci.SignatureAlgorithm != c.SignatureAlgorithm.String():
		return "algorithm"
	case ci.SerialNumber == nil || c.SerialNumber.Cmp(ci.SerialNumber) != 0:
		return "serial"
	}
	return ""
}

func nameText(n *pkix.Name) string {
	var l []string
	for _, a := range []struct {
		k string
		v []string
	}{{"C", n.Country}, {"ST", n.Province}, {"L", n.Locality}, {"O", n.Organization}, {"OU", n.OrganizationalUnit}} {
		if len(a.v) > 0 {
			l = append(l, a.k+"="+strings.Join(a.v, ";"))
		}
	}
	if n.CommonName != "" {
		l = append(l, "CN="+n.CommonName)
	}
	return strings.Join(l, ", ")
}
