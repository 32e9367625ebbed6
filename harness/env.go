package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/ardielle/ardielle-go/rdl"
	"github.com/golang-jwt/jwt/v4"
	"github.com/kpango/glg"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"

	"vs"
	vc "vs/context"
)

const athenzURL = "athenz.example:4443/zts/v1"

func initGlobals() {
	glg.Get().SetMode(glg.NONE)
	vs.AddReset(func() { jwt.TimeFunc = vs.Now })
}

// ---- fake server --------------------------------------------------------------

// Ans is a server answer.
type Ans struct {
	Status  int
	Hdr     map[string]string
	Body    []byte
	Err     error         // transport error
	Delay   time.Duration // virtual time until the answer
	Hang    bool          // never answers (until the context ends)
	BodyErr error         // error while reading the body after its bytes
	Name    string
}

// Req is a recorded request.
type Req struct {
	URL    string
	INM    string
	Method string
	At     time.Duration
	Hdr    http.Header
}

// Net is a fake transport: the answers come from Handle.
type Net struct {
	x      *vs.Exec
	Handle func(r *http.Request) *Ans
	Reqs   []Req
	Bodies []*Body
	quiet  bool // no scheduling points
}

// Body tracks how a response body is used.
type Body struct {
	r        *bytes.Reader
	err      error
	Closed   bool
	ReadN    int
	AfterCls bool
}

func (b *Body) Read(p []byte) (int, error) {
	if b.Closed {
		b.AfterCls = true
		return 0, errors.New("http: read on closed response body")
	}
	n, err := b.r.Read(p)
	b.ReadN += n
	if err == io.EOF && b.err != nil {
		err = b.err
	}
	return n, err
}

func (b *Body) Close() error { b.Closed = true; return nil }

func newNet(x *vs.Exec, h func(r *http.Request) *Ans) *Net { return &Net{x: x, Handle: h} }

func (n *Net) client() *http.Client { return &http.Client{Transport: n} }

// RoundTrip implements http.RoundTripper.
func (n *Net) RoundTrip(r *http.Request) (*http.Response, error) {
	if !n.quiet {
		vs.Point("http.send " + r.URL.Path)
	}
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	n.Reqs = append(n.Reqs, Req{URL: r.URL.String(), INM: r.Header.Get("If-None-Match"), Method: r.Method, At: n.x.Elapsed(), Hdr: r.Header.Clone()})
	a := n.Handle(r)
	n.x.Note("request %s INM=%q -> %s %d err=%v", r.URL, r.Header.Get("If-None-Match"), a.Name, a.Status, a.Err)
	if a.Hang || a.Delay > 0 {
		ch := make(chan struct{}, 1)
		if !a.Hang {
			t := vs.StartTimer(a.Delay, 0, func() { vs.TrySend(ch, struct{}{}) })
			defer t.Stop()
		}
		c0, c1 := vs.RecvCase(r.Context().Done()), vs.RecvCase(ch)
		if vs.Select(false, c0, c1) == 0 {
			return nil, r.Context().Err()
		}
	} else if !n.quiet {
		vs.Point("http.recv")
	}
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	if a.Err != nil {
		return nil, a.Err
	}
	b := &Body{r: bytes.NewReader(a.Body), err: a.BodyErr}
	n.Bodies = append(n.Bodies, b)
	h := http.Header{}
	for k, v := range a.Hdr {
		h.Set(k, v)
	}
	return &http.Response{StatusCode: a.Status, Status: fmt.Sprint(a.Status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: b, ContentLength: -1, Request: r}, nil
}

func ok200(name string, body []byte, etag string) *Ans {
	a := &Ans{Status: 200, Body: body, Name: name}
	if etag != "" {
		a.Hdr = map[string]string{"ETag": etag}
	}
	return a
}

func status(c int) *Ans { return &Ans{Status: c, Name: fmt.Sprint(c)} }

var errNet = errors.New("connection refused")

func netErr() *Ans { return &Ans{Err: errNet, Name: "neterr"} }

// kinds of request
const (
	rqPolicy = "policy"
	rqPubkey = "pubkey"
	rqJWK    = "jwk"
	rqOther  = "other"
)

// classify returns the kind of request and its domain / service / url.
func classify(r *http.Request) (string, string) {
	p := r.URL.Path
	switch {
	case strings.HasSuffix(p, "/signed_policy_data"):
		q := strings.Split(p, "/")
		return rqPolicy, q[len(q)-2]
	case strings.Contains(p, "/service/"):
		return rqPubkey, p[strings.LastIndexByte(p, '/')+1:]
	case strings.HasSuffix(p, "/oauth2/keys") || strings.Contains(p, "jwk"):
		return rqJWK, r.URL.String()
	}
	return rqOther, p
}

// ---- policies -------------------------------------------------------------------

// A is an assertion with a plain role name.
type A struct{ Role, Action, Resource, Effect string }

// P is a policy.
type P []A

// Doc describes a signed policy document.
type Doc struct {
	Domain  string
	Expires time.Duration // relative to the start of virtual time
	Pols    []P
	ZTSKey  string
	ZMSKey  string
}

func ts(d time.Duration) *rdl.Timestamp { return &rdl.Timestamp{Time: vs.Base.Add(d)} }

func fakeSign(env, key, input string) string { return fmt.Sprintf("%s/%s:%x", env, key, hash64(input)) }

func (d Doc) data() *util.SignedPolicyData {
	pd := &util.PolicyData{Domain: d.Domain}
	for i, p := range d.Pols {
		pol := &util.Policy{Name: fmt.Sprintf("%s:policy.p%d", d.Domain, i), Modified: ts(-time.Hour)}
		for _, a := range p {
			pol.Assertions = append(pol.Assertions, &util.Assertion{Role: fullRole(d.Domain, a.Role), Action: a.Action, Resource: a.Resource, Effect: a.Effect})
		}
		pd.Policies = append(pd.Policies, pol)
	}
	return &util.SignedPolicyData{Expires: ts(d.Expires), Modified: ts(-time.Hour), PolicyData: pd}
}

func fullRole(dom, role string) string {
	if strings.Contains(role, ":role.") {
		return role
	}
	return dom + ":role." + role
}

// Raw is the document with fake signatures.
func (d Doc) Raw() []byte { return d.sign(fakeSign) }

// Real is the document signed with real keys (key ids name keys in keyPEM).
func (d Doc) Real() []byte {
	return d.sign(func(env, key, in string) string { return realSign(key, in) })
}

func (d Doc) sign(sign func(env, key, in string) string) []byte {
	zk, mk := d.ZTSKey, d.ZMSKey
	if zk == "" {
		zk = "ec1"
	}
	if mk == "" {
		mk = "ec2"
	}
	s := d.data()
	pd, _ := json.Marshal(s.PolicyData)
	s.ZmsKeyId = mk
	s.ZmsSignature = sign("zms", mk, string(pd))
	spd, _ := json.Marshal(s)
	b, err := json.Marshal(&util.DomainSignedPolicyData{KeyId: zk, Signature: sign("zts", zk, string(spd)), SignedPolicyData: s})
	if err != nil {
		panic(err)
	}
	return b
}

// Asserts lists the document's assertions with full role names.
func (d Doc) Asserts() []A {
	var out []A
	for _, p := range d.Pols {
		for _, a := range p {
			a.Role = fullRole(d.Domain, a.Role)
			out = append(out, a)
		}
	}
	return out
}

type fakeVer struct{ env, key string }

func (v *fakeVer) Verify(in, sig string) error {
	if sig == fakeSign(v.env, v.key, in) {
		return nil
	}
	return errors.New("signature mismatch")
}

// fakeProvider knows key ec1 of ZTS and ec2 of ZMS.
func fakeProvider(env pubkey.AthenzEnv, id string) authcore.Verifier {
	if env == pubkey.EnvZTS && id == "ec1" {
		return &fakeVer{"zts", "ec1"}
	}
	if env == pubkey.EnvZMS && id == "ec2" {
		return &fakeVer{"zms", "ec2"}
	}
	return nil
}

// ---- reference decision -----------------------------------------------------------

// refGlob is the reference pattern matcher.
func refGlob(p, s []rune) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	switch p[0] {
	case '*':
		for i := 0; i <= len(s); i++ {
			if refGlob(p[1:], s[i:]) {
				return true
			}
		}
		return false
	case '?':
		return len(s) > 0 && refGlob(p[1:], s[1:])
	}
	return len(s) > 0 && p[0] == s[0] && refGlob(p[1:], s[1:])
}

func globMatch(p, s string) bool {
	return refGlob([]rune(strings.ToLower(p)), []rune(strings.ToLower(s)))
}

func refMatch(a A, domain, action, resource string) bool {
	d, r, ok := strings.Cut(a.Resource, ":")
	return ok && strings.EqualFold(d, domain) && globMatch(a.Action, action) && globMatch(r, resource)
}

// Verdict of a policy check.
type Verdict struct {
	Kind  string // allow, deny, nomatch
	Roles string // sorted allowed roles
}

func refDecide(as []A, domain string, roles []string, action, resource string) Verdict {
	allow := map[string]bool{}
	deny := false
	for _, r := range roles {
		for _, a := range as {
			if a.Role == domain+":role."+r && refMatch(a, domain, action, resource) {
				if strings.EqualFold(a.Effect, "deny") {
					deny = true
				} else {
					allow[r] = true
				}
			}
		}
	}
	if deny {
		return Verdict{Kind: "deny"}
	}
	if len(allow) == 0 {
		return Verdict{Kind: "nomatch"}
	}
	return Verdict{"allow", roleSet(keys(allow))}
}

func keys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func roleSet(r []string) string {
	m := map[string]bool{}
	for _, x := range r {
		m[x] = true
	}
	return strings.Join(keys(m), "|")
}

// ---- real keys ---------------------------------------------------------------------

type realKey struct {
	signer authcore.Signer
	priv   any
	pub    any
	pubPEM []byte
}

var realKeys = map[string]*realKey{}

func getKey(name string) *realKey {
	if k := realKeys[name]; k != nil {
		return k
	}
	pm, okk := keyPEM[name]
	if !okk {
		panic("no key " + name)
	}
	s, err := authcore.NewSigner([]byte(pm))
	if err != nil {
		panic(err)
	}
	k := &realKey{signer: s}
	b, _ := pem.Decode([]byte(pm))
	if strings.HasPrefix(name, "rsa") {
		p, err := x509.ParsePKCS1PrivateKey(b.Bytes)
		if err != nil {
			panic(err)
		}
		k.priv, k.pub = p, &p.PublicKey
	} else {
		p, err := x509.ParseECPrivateKey(b.Bytes)
		if err != nil {
			panic(err)
		}
		k.priv, k.pub = p, &p.PublicKey
	}
	var der []byte
	switch p := k.pub.(type) {
	case *rsa.PublicKey:
		der, _ = x509.MarshalPKIXPublicKey(p)
	case *ecdsa.PublicKey:
		der, _ = x509.MarshalPKIXPublicKey(p)
	}
	k.pubPEM = pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der})
	realKeys[name] = k
	return k
}

var signCache = map[string]string{}

func realSign(key, in string) string {
	ck := key + "\x00" + in
	if s, ok := signCache[ck]; ok {
		return s
	}
	s, err := getKey(key).signer.Sign(in)
	if err != nil {
		panic(err)
	}
	signCache[ck] = s
	return s
}

// pubkeyDoc is the answer of the public key endpoint: id -> key name.
func pubkeyDoc(svc string, ids ...string) []byte {
	type pk struct {
		ID  string `json:"id"`
		Key string `json:"key"`
	}
	var ks []pk
	for _, s := range ids {
		id, key, found := strings.Cut(s, "=")
		if !found {
			key = id
		}
		ks = append(ks, pk{id, string(new(authcore.YBase64).EncodeToString(getKey(key).pubPEM))})
	}
	b, _ := json.Marshal(map[string]any{"name": "sys.auth." + svc, "modified": "2024-03-01T00:00:00.000Z", "publicKeys": ks})
	return b
}

// ---- contexts ------------------------------------------------------------------------

func background() vc.Context { return vc.Background() }

func withCancel() (vc.Context, vc.CancelFunc) { return vc.WithCancel(vc.Background()) }
