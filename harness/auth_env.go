package main

import (
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/golang-jwt/jwt/v4"
	ljwk "github.com/lestrrat-go/jwx/jwk"
	authz "github.com/yahoojapan/athenz-authorizer/v5"

	"vs"
)

const athenzJWK = "https://" + athenzURL + "/oauth2/keys?rfc=true"

// authWorld is an authorizer with a fake Athenz server.
type authWorld struct {
	x      *vs.Exec
	net    *Net
	a      authz.Authorizerd
	docs   map[string]*pubDoc // policy documents by domain
	pub    map[string][]byte  // public key documents by service
	pubTag map[string]string
	jwks   map[string][]byte // key sets by URL
	answer func(kind, name string, r *http.Request) *Ans
}

// jwksDoc builds a key set: "kid=key" entries.
func jwksDoc(ids ...string) []byte {
	s := ljwk.NewSet()
	for _, e := range ids {
		id, key, found := strings.Cut(e, "=")
		if !found {
			key = id
		}
		var k ljwk.Key
		var err error
		if strings.HasPrefix(key, "oct:") {
			k, err = ljwk.New([]byte(key[4:]))
		} else {
			k, err = ljwk.New(getKey(key).pub)
		}
		if err != nil {
			panic(err)
		}
		k.Set("kid", id)
		s.Add(k)
	}
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	return b
}

var bodyCache = map[string][]byte{}

func cachedBody(key string, f func() []byte) []byte {
	if b, ok := bodyCache[key]; ok {
		return b
	}
	b := f()
	bodyCache[key] = b
	return b
}

func (w *authWorld) setDefaults() {
	w.pub = map[string][]byte{
		"zts": cachedBody("zts", func() []byte { return pubkeyDoc("zts", "ec1", "rsa1") }),
		"zms": cachedBody("zms", func() []byte { return pubkeyDoc("zms", "ec2") }),
	}
	w.pubTag = map[string]string{}
	w.jwks = map[string][]byte{athenzJWK: cachedBody("jwk", func() []byte { return jwksDoc("ec3", "rsa2", "oct=oct:"+octSecret) })}
	w.docs = map[string]*pubDoc{}
}

func newAuthServer(x *vs.Exec) *authWorld {
	w := &authWorld{x: x}
	w.setDefaults()
	w.net = newNet(x, func(r *http.Request) *Ans {
		k, name := classify(r)
		if w.answer != nil {
			if a := w.answer(k, name, r); a != nil {
				return a
			}
		}
		return w.serve(k, name, r)
	})
	return w
}

func (w *authWorld) serve(k, name string, r *http.Request) *Ans {
	switch k {
	case rqPolicy:
		p := w.docs[name]
		if p == nil {
			return status(404)
		}
		if p.etag != "" && r.Header.Get("If-None-Match") == p.etag {
			return status(304)
		}
		return ok200("doc", p.raw, p.etag)
	case rqPubkey:
		b, ok := w.pub[name]
		if !ok {
			return status(404)
		}
		if t := w.pubTag[name]; t != "" && r.Header.Get("If-None-Match") == t {
			return status(304)
		}
		return ok200("keys", b, w.pubTag[name])
	case rqJWK:
		b, ok := w.jwks[name]
		if !ok {
			return status(404)
		}
		return ok200("jwks", b, "")
	}
	return status(404)
}

func (w *authWorld) publish(d Doc) {
	k := fmt.Sprintf("real %+v", d)
	w.docs[d.Domain] = &pubDoc{d, cachedBody(k, d.Real), ""}
}

// newAuthWorld creates the authorizer; access tokens enabled without certificate binding by default.
func newAuthWorld(x *vs.Exec, docs []Doc, opts ...authz.Option) *authWorld {
	w, err := tryAuthWorld(x, docs, opts...)
	if err != nil {
		x.Failf("authorizerd.New: %v", err)
	}
	return w
}

// tryAuthWorld returns the error of the constructor.
func tryAuthWorld(x *vs.Exec, docs []Doc, opts ...authz.Option) (*authWorld, error) {
	w := newAuthServer(x)
	var doms []string
	for _, d := range docs {
		w.publish(d)
		doms = append(doms, d.Domain)
	}
	base := []authz.Option{
		authz.WithAthenzURL(athenzURL), authz.WithHTTPClient(w.net.client()), authz.WithAthenzDomains(doms...),
		authz.WithAccessTokenParam(authz.NewAccessTokenParam(true, false, "", "", false, nil)), authz.WithDisableRoleCert(),
		authz.WithPolicyRetryAttempts(1), authz.WithPolicyRetryDelay("1s"), authz.WithPolicyPurgePeriod("1000h"),
	}
	a, err := authz.New(append(base, opts...)...)
	w.a = a
	return w, err
}

// init runs Init without exploring interleavings.
func (w *authWorld) init() {
	w.x.Quiet(func() {
		if err := w.a.Init(background()); err != nil {
			w.x.Failf("Init: %v", err)
		}
		w.x.Settle()
	})
}

// ---- role tokens -------------------------------------------------------------------------

// RT describes a role token.
type RT struct {
	Domain, Principal string
	Roles             []string
	Issued, Expires   time.Duration
	Key               string // key id and signing key
	Extra             string
}

func (t RT) unsigned() string {
	k := t.Key
	if k == "" {
		k = "ec1"
	}
	e := t.Expires
	return fmt.Sprintf("v=Z1;d=%s;r=%s;p=%s;a=salt;t=%d;e=%d;k=%s%s", t.Domain, strings.Join(t.Roles, ","), t.Principal,
		vs.Base.Add(t.Issued).Unix(), vs.Base.Add(e).Unix(), k, t.Extra)
}

func (t RT) String() string {
	k := t.Key
	if k == "" {
		k = "ec1"
	}
	u := t.unsigned()
	return u + ";s=" + realSign(k, u)
}

// ---- access tokens -----------------------------------------------------------------------

// AT describes an access token.
type AT struct {
	Aud, Sub, Client string
	Scp              []string
	Iat, Nbf         time.Duration
	Exp              time.Duration
	NoIat, NoExp     bool
	WithNbf          bool
	Kid, Key         string
	Jku              string
	Alg              string
	Cnf              map[string]any
	NoKid            bool
	Hdr              map[string]any
	Claims           map[string]any // overrides
}

var tokCache = map[string]string{}

func (t AT) String() string {
	type plain AT
	ck := fmt.Sprintf("%+v", plain(t))
	if s, ok := tokCache[ck]; ok {
		return s
	}
	s := t.build()
	tokCache[ck] = s
	return s
}

func (t AT) parts() (map[string]any, map[string]any, string, string) {
	key, kid, alg := t.Key, t.Kid, t.Alg
	if key == "" {
		key = "ec3"
	}
	if kid == "" {
		kid = key
	}
	if alg == "" {
		alg = "ES256"
		if strings.HasPrefix(key, "rsa") {
			alg = "RS256"
		}
	}
	c := map[string]any{"aud": t.Aud, "sub": t.Sub, "scp": t.Scp, "iss": "https://" + athenzURL}
	if t.Client != "" {
		c["client_id"] = t.Client
	}
	if !t.NoExp {
		c["exp"] = vs.Base.Add(t.Exp).Unix()
	}
	if !t.NoIat {
		c["iat"] = vs.Base.Add(t.Iat).Unix()
	}
	if t.WithNbf {
		c["nbf"] = vs.Base.Add(t.Nbf).Unix()
	}
	if t.Cnf != nil {
		c["cnf"] = t.Cnf
	}
	for k, v := range t.Claims {
		c[k] = v
	}
	h := map[string]any{"typ": "JWT", "alg": alg}
	if !t.NoKid {
		h["kid"] = kid
	}
	if t.Jku != "" {
		h["jku"] = t.Jku
	}
	for k, v := range t.Hdr {
		h[k] = v
	}
	return h, c, alg, key
}

func (t AT) build() string {
	h, c, alg, key := t.parts()
	return signJWT(h, c, alg, key)
}

func b64(v any) string {
	b, _ := json.Marshal(v)
	return base64.RawURLEncoding.EncodeToString(b)
}

// signJWT signs with method alg under key ("" none, "hmac:<secret>", or a real key).
func signJWT(h, c map[string]any, alg, key string) string {
	in := b64(h) + "." + b64(c)
	m := jwt.GetSigningMethod(alg)
	if m == nil {
		return in + "."
	}
	var k any
	switch {
	case alg == "none":
		k = jwt.UnsafeAllowNoneSignatureType
	case strings.HasPrefix(key, "hmac:"):
		k = []byte(key[5:])
	default:
		k = getKey(key).priv
	}
	s, err := m.Sign(in, k)
	if err != nil {
		return in + "." + base64.RawURLEncoding.EncodeToString([]byte("unsignable"))
	}
	return in + "." + s
}

// ---- certificates -------------------------------------------------------------------------

// Crt describes a client certificate (never parsed, only its fields are used).
type Crt struct {
	CN, Issuer string
	NotBefore  time.Duration
	URIs       []string
	Raw        string
	Also       []string // names in places which must not count: DNS names, e-mail addresses, OU, O, locality, serial number
}

func (c Crt) cert() *x509.Certificate {
	r := &x509.Certificate{Subject: pkix.Name{CommonName: c.CN}, Issuer: pkix.Name{CommonName: c.Issuer}, NotBefore: vs.Base.Add(c.NotBefore)}
	if len(c.Also) > 0 {
		r.DNSNames, r.EmailAddresses, r.ExcludedDNSDomains = c.Also, c.Also, c.Also
		r.Subject.Organization, r.Subject.OrganizationalUnit, r.Subject.Locality, r.Subject.SerialNumber = c.Also, c.Also, c.Also, c.Also[0]
		r.Issuer.Organization, r.Issuer.OrganizationalUnit = c.Also, c.Also
		for _, a := range c.Also {
			r.Subject.ExtraNames = append(r.Subject.ExtraNames, pkix.AttributeTypeAndValue{Type: asn1.ObjectIdentifier{2, 5, 4, 3}, Value: a})
			if u, err := url.Parse(a); err == nil {
				r.CRLDistributionPoints = append(r.CRLDistributionPoints, u.String())
				r.PermittedURIDomains = append(r.PermittedURIDomains, a)
			}
		}
	}
	raw := c.Raw
	if raw == "" {
		raw = "raw of " + c.CN + "/" + c.Issuer
	}
	if raw != "-" {
		r.Raw = []byte(raw)
	}
	for _, u := range c.URIs {
		p, err := url.Parse(u)
		if err != nil {
			panic(err)
		}
		r.URIs = append(r.URIs, p)
	}
	return r
}

func thumb(c *x509.Certificate) string {
	s := sha256.Sum256(c.Raw)
	return base64.RawURLEncoding.EncodeToString(s[:])
}

// princ renders a principal completely.
func princ(p authz.Principal) string {
	if p == nil {
		return "<nil>"
	}
	s := fmt.Sprintf("name=%s domain=%s roles=%q issue=%d expiry=%d auth=%q", p.Name(), p.Domain(), p.Roles(), p.IssueTime(), p.ExpiryTime(), sorted(p.AuthorizedRoles()))
	if c, ok := p.(authz.OAuthAccessToken); ok {
		s += " client=" + c.ClientID()
	}
	return s
}
