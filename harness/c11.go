package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"strconv"
	"strings"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/golang-jwt/jwt/v4"
	authz "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
	"github.com/yahoojapan/athenz-authorizer/v5/role"

	"vs"
)

func init() {
	register(&Check{
		ID:        "C11",
		Rule:      "every combination of named algorithm x actual signer x key id x key-set URL, every combination of expiry, issue and not-before times, every exchange of parts between tokens, every replacement, insertion and deletion of a character of valid tokens; real key sets, real cryptography; reference: independent verifier",
		Scenarios: c11,
	})
	register(&Check{
		ID:        "C12",
		Rule:      "every combination of configuration (binding, backdate, mismatch window) x confirmation (thumbprint, proxies, malformed) x client id x certificate (absent, thumbprint, common name, issue time around every boundary, URIs), on the processor and through the authorizer; reference predicate",
		Scenarios: c12,
	})
	register(&Check{
		ID:        "C13",
		Rule:      "every combination of configured lists x common name x client id x enabled checks, on the processor and through the authorizer; reference predicate",
		Scenarios: c13,
	})
	register(&Check{
		ID:        "C14",
		Rule:      "every order and selection of fields, every boundary value of the times, every key id against every key table, every replacement, insertion and deletion of a character of valid tokens, every exchange of signatures; real cryptography; reference: independent parser and verifier",
		Scenarios: c14,
	})
}

// ---- reference verifier of JSON web tokens ---------------------------------------

type refHeader struct {
	alg, kid, jku string
	algOK, kidOK  bool
	jkuOK         bool // absent or a string
}

func b64url(s string) ([]byte, bool) {
	b, err := base64.RawURLEncoding.DecodeString(s)
	return b, err == nil
}

// refJWT decides on a token: accept, reject, or unspecified.
func refJWT(tok string, keyOf func(kid, jku string) any, now time.Time) string {
	p := strings.Split(tok, ".")
	if len(p) != 3 {
		return "reject"
	}
	hb, ok1 := b64url(p[0])
	cb, ok2 := b64url(p[1])
	sig, ok3 := b64url(p[2])
	if !ok1 || !ok2 || !ok3 {
		return "reject"
	}
	var h map[string]any
	if json.Unmarshal(hb, &h) != nil {
		return "reject"
	}
	alg, _ := h["alg"].(string)
	kid, _ := h["kid"].(string)
	jku := ""
	if j, there := h["jku"]; there {
		s, isS := j.(string)
		if !isS {
			return "reject"
		}
		jku = s
	}
	if kid == "" || alg == "" {
		return "reject"
	}
	if !refSig(alg, p[0]+"."+p[1], sig, keyOf(kid, jku)) {
		return "reject"
	}
	var c map[string]any
	if json.Unmarshal(cb, &c) != nil {
		return "reject"
	}
	n := float64(now.Unix())
	exp, isN := c["exp"].(float64)
	switch {
	case !isN || exp < n:
		return "reject"
	case exp == n:
		return "unspecified"
	}
	for _, f := range []string{"iat", "nbf"} {
		v, there := c[f]
		if !there {
			continue
		}
		if t, isN := v.(float64); isN && t > n {
			return "reject"
		} else if !isN {
			return "unspecified"
		}
	}
	return "accept"
}

func refSig(alg, in string, sig []byte, key any) bool {
	if key == nil || len(alg) != 5 {
		return false
	}
	if alg == "EdDSA" {
		k, ok := key.(ed25519.PublicKey)
		return ok && ed25519.Verify(k, []byte(in), sig)
	}
	var hash crypto.Hash
	var sum []byte
	switch alg[2:] {
	case "256":
		s := sha256.Sum256([]byte(in))
		hash, sum = crypto.SHA256, s[:]
	case "384":
		s := sha512.Sum384([]byte(in))
		hash, sum = crypto.SHA384, s[:]
	case "512":
		s := sha512.Sum512([]byte(in))
		hash, sum = crypto.SHA512, s[:]
	default:
		return false
	}
	switch alg[:2] {
	case "ES":
		k, ok := key.(*ecdsa.PublicKey)
		size := map[string]int{"ES256": 256, "ES384": 384, "ES512": 521}[alg]
		if n := (size + 7) / 8; !ok || k.Params().BitSize != size || len(sig) != 2*n {
			return false
		}
		return ecdsa.Verify(k, sum, new(big.Int).SetBytes(sig[:len(sig)/2]), new(big.Int).SetBytes(sig[len(sig)/2:]))
	case "RS":
		k, ok := key.(*rsa.PublicKey)
		return ok && rsa.VerifyPKCS1v15(k, hash, sum, sig) == nil
	case "PS":
		k, ok := key.(*rsa.PublicKey)
		return ok && rsa.VerifyPSS(k, hash, sum, sig, nil) == nil
	case "HS":
		k, ok := key.([]byte)
		if !ok {
			return false
		}
		m := hmac.New(hash.New, k)
		m.Write([]byte(in))
		return hmac.Equal(m.Sum(nil), sig)
	}
	return false
}

const octSecret = "sixteen byte key and some more.."

// c11world is an access token processor fed by a real key daemon.
func c11world(x *vs.Exec) (access.Processor, func(kid, jku string) any) {
	d := newJwk(x, []string{jku1}, func(u string, r *http.Request) *Ans {
		switch u {
		case athenzJWK:
			return ok200("jwks", cachedBody("c11a", func() []byte { return jwksDoc("ec3", "rsa2", "oct=oct:"+octSecret) }), "")
		case jku1:
			return ok200("jwks", cachedBody("c11b", func() []byte { return jwksDoc("ec3=ec2", "rsa1") }), "")
		}
		x.Failf("request to %s", u)
		return nil
	})
	if err := d.Update(background()); err != nil {
		x.Failf("key set update: %v", err)
	}
	ap, err := access.New(access.WithJWKProvider(d.GetProvider()))
	if err != nil {
		x.Failf("access.New: %v", err)
	}
	return ap, func(kid, jku string) any {
		t := map[string]any{}
		switch jku {
		case "", athenzJWK:
			t = map[string]any{"ec3": getKey("ec3").pub, "rsa2": getKey("rsa2").pub, "oct": []byte(octSecret)}
		case jku1:
			t = map[string]any{"ec3": getKey("ec2").pub, "rsa1": getKey("rsa1").pub}
		}
		return t[kid]
	}
}

func (t AT) with(f func(*AT)) AT { f(&t); return t }

func c11(thorough bool) []*Scenario {
	judge := func(x *vs.Exec, ap access.Processor, keyOf func(kid, jku string) any, tok, what string) {
		want := refJWT(tok, keyOf, vs.Now())
		c, err := ap.ParseAndValidateOAuth2AccessToken(tok, nil)
		if want == "accept" && err != nil {
			x.Failf("%s: refused: %v\ntoken %s", what, err, tok)
		}
		if want == "reject" && err == nil {
			x.Failf("%s: accepted\ntoken %s", what, tok)
		}
		if err == nil && c == nil || err != nil && c != nil {
			x.Failf("%s: claims %v with error %v", what, c, err)
		}
	}
	type signer struct{ alg, key string }
	pem := func(k string) string { return "hmac:" + string(getKey(k).pubPEM) }
	signers := []signer{{"ES256", "ec3"}, {"ES256", "ec2"}, {"RS256", "rsa2"}, {"RS256", "rsa1"}, {"PS256", "rsa2"}, {"RS512", "rsa2"}, {"HS256", "hmac:" + octSecret}, {"HS512", "hmac:" + octSecret},
		{"HS256", pem("rsa2")}, {"HS256", pem("ec3")}, {"HS256", "hmac:"}, {"none", ""}}
	algs := []any{"ES256", "RS256", "PS256", "RS512", "HS256", "HS512", "none", "", nil, "ES384", "es256", "None", 7.0, "EdDSA", "delete"}
	kids := []any{"ec3", "rsa2", "oct", "rsa1", "nope", "", "delete", 5.0, nil, []any{"ec3"}}
	jkus := []any{"delete", jku1, athenzJWK, "https://evil.example/jwk", "", 5.0, nil}
	sign := func(h, c map[string]any, s signer) string {
		in := b64(h) + "." + b64(c)
		ck := "sign " + s.alg + s.key + in
		if v, ok := tokCache[ck]; ok {
			return v
		}
		m := jwt.GetSigningMethod(s.alg)
		var k any
		switch {
		case s.alg == "none":
			k = jwt.UnsafeAllowNoneSignatureType
		case strings.HasPrefix(s.key, "hmac:"):
			k = []byte(s.key[5:])
		default:
			k = getKey(s.key).priv
		}
		sg, err := m.Sign(in, k)
		if err != nil {
			panic(err)
		}
		tokCache[ck] = in + "." + sg
		return in + "." + sg
	}
	claims := map[string]any{"aud": "d", "sub": "u", "scp": []string{"r"}, "exp": vs.Base.Add(day).Unix(), "iat": vs.Base.Add(-time.Hour).Unix()}
	var out []*Scenario
	out = append(out, &Scenario{Name: "algorithms-keys", Cfg: seqCfg, Body: func(x *vs.Exec) {
		s := signers[x.Choose(len(signers))]
		alg := algs[x.Choose(len(algs))]
		ap, keyOf := c11world(x)
		for _, kid := range kids {
			for _, jku := range jkus {
				h := map[string]any{"typ": "JWT"}
				set := func(n string, v any) {
					if v != "delete" {
						h[n] = v
					}
				}
				set("alg", alg)
				set("kid", kid)
				set("jku", jku)
				what := fmt.Sprintf("header %v signed with %s under %.12s", h, s.alg, s.key)
				x.Label("token", what)
				judge(x, ap, keyOf, sign(h, claims, s), what)
				x.Eval(what)
			}
		}
	}})

	out = append(out, &Scenario{Name: "times", Cfg: seqCfg, Body: func(x *vs.Exec) {
		s := []signer{{"ES256", "ec3"}, {"RS256", "rsa2"}, {"HS256", "hmac:" + octSecret}}[x.Choose(3)]
		kid := map[string]string{"ES256": "ec3", "RS256": "rsa2", "HS256": "oct"}[s.alg]
		shift := []time.Duration{0, 2 * time.Second, day, 400 * day, 400 * time.Millisecond, 999 * time.Millisecond}[x.Choose(6)]
		ap, keyOf := c11world(x)
		x.JumpBy(shift)
		now := vs.Now().Unix()
		times := func() []any {
			return []any{"delete", 0, -1, 1, now - 86400, now - 2, now - 1, now, now + 1, now + 2, now + 86400, now + 400*86400, nil, "x", strconv.FormatInt(now+100, 10)}
		}
		for _, exp := range append(times(), int64(9007199254740991)) {
			for _, iat := range times() {
				for _, nbf := range times() {
					c := map[string]any{"aud": "d", "sub": "u", "scp": []string{"r"}}
					for n, v := range map[string]any{"exp": exp, "iat": iat, "nbf": nbf} {
						if v != "delete" {
							c[n] = v
						}
					}
					what := fmt.Sprintf("at %d: exp %v iat %v nbf %v", now, exp, iat, nbf)
					x.Label("token", what)
					// zero and negative issue times: absent in effect, not in the future
					judge(x, ap, keyOf, sign(map[string]any{"alg": s.alg, "kid": kid}, c, s), what)
					x.Eval(what + s.alg)
				}
			}
		}
	}})

	base := func(i int) (map[string]any, map[string]any, signer) {
		switch i {
		case 0:
			return map[string]any{"alg": "ES256", "kid": "ec3", "typ": "JWT"}, claims, signer{"ES256", "ec3"}
		case 1:
			return map[string]any{"alg": "RS256", "kid": "rsa2", "typ": "JWT"}, claims, signer{"RS256", "rsa2"}
		case 2:
			return map[string]any{"alg": "HS256", "kid": "oct"}, claims, signer{"HS256", "hmac:" + octSecret}
		case 3:
			return map[string]any{"alg": "ES256", "kid": "ec3", "jku": jku1}, claims, signer{"ES256", "ec2"}
		case 4:
			c := map[string]any{"aud": "d", "sub": "admin", "scp": []string{"admin"}, "exp": vs.Base.Add(day).Unix()}
			return map[string]any{"alg": "ES256", "kid": "ec3", "typ": "JWT"}, c, signer{"ES256", "ec3"}
		case 5:
			c := map[string]any{"aud": "d", "sub": "u", "scp": []string{"r"}, "exp": vs.Base.Add(-day).Unix()}
			return map[string]any{"alg": "ES256", "kid": "ec3", "typ": "JWT"}, c, signer{"ES256", "ec3"}
		default:
			c := map[string]any{"aud": "d", "sub": "admin", "scp": []string{"admin"}, "exp": vs.Base.Add(day).Unix()}
			return map[string]any{"alg": "PS256", "kid": "rsa2"}, c, signer{"PS256", "rsa2"}
		}
	}
	out = append(out, c11similar(), c11algs(), c11kids(), c11claims(), &Scenario{Name: "exchanged-parts", Cfg: seqCfg, Body: func(x *vs.Exec) {
		n := 7
		a := x.Choose(n)
		ap, keyOf := c11world(x)
		var toks [][]string
		for i := 0; i < n; i++ {
			toks = append(toks, strings.Split(sign(base(i)), "."))
		}
		for b := 0; b < n; b++ {
			for c := 0; c < n; c++ {
				for _, f := range []string{"%s.%s.%s", "%[1]s.%[2]s.", "%s.%s.%s.", ".%s.%s.%s", "%[1]s.%[2]s", "%[2]s.%[1]s.%[3]s", "%s..%s.%s", "bearer %s.%s.%s", "%s.%s.%s==", " %s.%s.%s"} {
					tok := fmt.Sprintf(f, toks[a][0], toks[b][1], toks[c][2])
					tok, _, _ = strings.Cut(tok, "%!(EXTRA")
					what := fmt.Sprintf("parts of tokens %d %d %d as %q", a, b, c, f)
					x.Label("token", what)
					judge(x, ap, keyOf, tok, what)
					x.Eval(what)
				}
			}
		}
	}})

	chars := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.=+/ %\n\x00"
	mut := func(i int, th bool) {
		out = append(out, &Scenario{Name: fmt.Sprintf("altered-%d", i), Thorough: th, Cfg: seqCfg, Body: func(x *vs.Exec) {
			ap, keyOf := c11world(x)
			tok := sign(base(i))
			p := x.Choose(len(tok) + 1)
			try := func(m, what string) {
				if m == tok {
					return
				}
				x.Label("alteration", what)
				judge(x, ap, keyOf, m, what)
				x.Eval(what)
			}
			if p < len(tok) {
				try(tok[:p]+tok[p+1:], fmt.Sprintf("without character %d", p))
			}
			try(tok[:p], fmt.Sprintf("cut at %d", p))
			try(tok[p:], fmt.Sprintf("from %d", p))
			for _, c := range chars {
				if p < len(tok) {
					try(tok[:p]+string(c)+tok[p+1:], fmt.Sprintf("character %d replaced by %q", p, c))
				}
				try(tok[:p]+string(c)+tok[p:], fmt.Sprintf("%q inserted at %d", c, p))
			}
		}})
	}
	mut(0, false)
	mut(2, false)
	mut(1, true)
	mut(3, true)
	return out
}

// ---- C12, C13 ---------------------------------------------------------------------

type c12cfg struct {
	bind, client bool
	back, offset time.Duration
	ids          map[string][]string
}

// refBind is the reference predicate of C12 and C13 for a token that is otherwise fine.
func refBind(c c12cfg, t AT, crt *x509.Certificate) bool {
	if c.client {
		ok := false
		if crt != nil {
			for _, id := range c.ids[crt.Subject.CommonName] {
				ok = ok || id == t.Client
			}
		}
		if !ok {
			return false
		}
	}
	if !c.bind {
		return true
	}
	if crt == nil {
		return false
	}
	if th, isS := t.Cnf["x5t#S256"].(string); isS {
		if th == thumb(crt) {
			return true
		}
		if cn := crt.Subject.CommonName; c.offset != 0 && cn != "" && cn == t.Client && !t.NoIat {
			d := crt.NotBefore.Add(c.back).Sub(vs.Base.Add(t.Iat))
			if d >= 0 && d <= c.offset {
				return true
			}
		}
	}
	if l, isL := t.Cnf["proxy-principals#spiffe"].([]any); isL {
		for _, e := range l {
			for _, u := range crt.URIs {
				if s, isS := e.(string); isS && s == u.String() {
					return true
				}
			}
		}
	}
	return false
}

var octProvider = func(kid, jku string) interface{} {
	if kid == "oct" && jku == "" {
		return []byte(octSecret)
	}
	return nil
}

func octToken(t AT) string {
	t.Alg, t.Key, t.Kid = "HS256", "hmac:"+octSecret, "oct"
	return t.build()
}

func c12(thorough bool) []*Scenario {
	iat := -10 * time.Hour
	certs := func(back, off time.Duration) []*x509.Certificate {
		out := []*x509.Certificate{nil}
		for _, cn := range []string{"", "client", "other", "Client"} {
			for _, nb := range []time.Duration{iat - back - time.Second, iat - back, iat - back + time.Second, iat - back + off - time.Second, iat - back + off, iat - back + off + time.Second, -iat, iat, iat + back} {
				for _, uris := range [][]string{nil, {"spiffe://a/b"}, {"spiffe://x/y"}, {"spiffe://x/y", "spiffe://a/b"}, {"spiffe://a/b/"}, {"spiffe://a/b?x=1"}, {"spiffe://a/b#x"}, {"spiffe://A/b"}, {"SPIFFE://a/b"}, {"spiffe://a/B"}, {"spiffe://a/%62"}, {"spiffe://a"}, {"spiffe://u@a/b"}, {"spiffe://a/b/c"}, {"xspiffe://a/b"}, {"//a/b"}} {
					out = append(out, Crt{CN: cn, NotBefore: nb, URIs: uris, Raw: "the certificate"}.cert())
				}
			}
		}
		for _, cn := range []string{"", "other", "client"} {
			out = append(out, Crt{CN: cn, Issuer: "client", NotBefore: iat - back + time.Second, Also: []string{"client", "spiffe://a/b"}, Raw: "the certificate"}.cert())
		}
		out = append(out, Crt{CN: "client", NotBefore: iat, Raw: "another certificate"}.cert(), Crt{Raw: "-"}.cert())
		return out
	}
	th := thumb(Crt{Raw: "the certificate"}.cert())
	var cnfs []map[string]any
	for _, t := range []any{"delete", th, "wrong", "", 5.0, nil, []any{th}, strings.ToUpper(th), th + "=", thumb(Crt{Raw: "third"}.cert())} {
		for _, p := range []any{"delete", []any{"spiffe://a/b"}, []any{"spiffe://q", 5.0, "spiffe://a/b"}, []any{}, "spiffe://a/b", nil, []any{[]any{"spiffe://a/b"}}} {
			m := map[string]any{}
			if t != "delete" {
				m["x5t#S256"] = t
			}
			if p != "delete" {
				m["proxy-principals#spiffe"] = p
			}
			cnfs = append(cnfs, m)
		}
	}
	cnfs = append(cnfs, nil, map[string]any{"other": th})
	backs := []string{"0s", "1h"}
	offs := []string{"0s", "30m", "2h"}
	dur := func(s string) time.Duration { d, _ := time.ParseDuration(s); return d }
	run := func(x *vs.Exec, c c12cfg, t AT, crt *x509.Certificate, f func() error) {
		want := refBind(c, t, crt)
		if err := f(); (err == nil) != want {
			d := "none"
			if crt != nil {
				d = fmt.Sprintf("cn %q not before %v uris %v raw %q", crt.Subject.CommonName, crt.NotBefore.Sub(vs.Base), crt.URIs, crt.Raw)
			}
			x.Failf("configuration %+v, token cnf %v client %q iat %v (none: %v), certificate %s: got %v, want acceptance %v", c, t.Cnf, t.Client, t.Iat, t.NoIat, d, err, want)
		}
	}
	var out []*Scenario
	out = append(out, &Scenario{Name: "processor", Cfg: seqCfg, Body: func(x *vs.Exec) {
		bs, os := backs[x.Choose(len(backs))], offs[x.Choose(len(offs))]
		cnf := cnfs[x.Choose(len(cnfs))]
		c := c12cfg{back: dur(bs), offset: dur(os)}
		x.Label("configuration", fmt.Sprintf("backdate %s window %s confirmation %v", bs, os, cnf))
		for _, bind := range []bool{true, false} {
			c.bind = bind
			ap, err := access.New(access.WithJWKProvider(octProvider), access.WithEnableMTLSCertificateBoundAccessToken(bind), access.WithClientCertificateGoBackSeconds(bs), access.WithClientCertificateOffsetSeconds(os))
			if err != nil {
				x.Failf("access.New: %v", err)
			}
			for _, client := range []string{"", "client", "other"} {
				for _, noiat := range []bool{false, true} {
					t := AT{Aud: "d", Sub: "u", Scp: []string{"r"}, Exp: day, Iat: iat, NoIat: noiat, Client: client, Cnf: cnf}
					tok := octToken(t)
					for _, crt := range certs(c.back, c.offset) {
						run(x, c, t, crt, func() error { _, err := ap.ParseAndValidateOAuth2AccessToken(tok, crt); return err })
						x.Evals(1)
					}
				}
			}
		}
		x.Eval(fmt.Sprint(bs, os, cnf))
	}})
	out = append(out, &Scenario{Name: "authorizer", Cfg: seqCfg, Body: func(x *vs.Exec) {
		bs, os := backs[x.Choose(len(backs))], offs[x.Choose(len(offs))]
		bind := x.Choose(2) == 0
		client := x.Choose(2) == 0
		c := c12cfg{bind: bind, client: client, back: dur(bs), offset: dur(os), ids: map[string][]string{"client": {"client"}, "other": {"x", "client"}}}
		x.Label("configuration", fmt.Sprintf("binding %v clients %v backdate %s window %s", bind, client, bs, os))
		w := newAuthWorld(x, nil, authz.WithAccessTokenParam(authz.NewAccessTokenParam(true, bind, bs, os, client, c.ids)), authz.WithDisablePolicyd())
		w.net.quiet = true
		w.jwks[athenzJWK] = cachedBody("c12", func() []byte { return jwksDoc("oct=oct:" + octSecret) })
		w.init()
		for _, cnf := range []map[string]any{nil, {"x5t#S256": th}, {"x5t#S256": "no"}, {"x5t#S256": "no", "proxy-principals#spiffe": []any{"spiffe://a/b"}}, {"proxy-principals#spiffe": []any{"spiffe://a/b"}}} {
			for _, cl := range []string{"", "client", "other"} {
				t := AT{Aud: "d", Sub: "u", Scp: []string{"r"}, Exp: day, Iat: iat, Client: cl, Cnf: cnf}
				tok := octToken(t)
				// every second certificate of the alphabet, to keep the remembered acceptances apart by a fresh token per certificate
				for i, crt := range certs(c.back, c.offset) {
					tt := t
					tt.Sub = fmt.Sprintf("u%d", i)
					tok = octToken(tt)
					run(x, c, t, crt, func() error { return w.a.VerifyAccessToken(background(), tok, "a", "x", crt) })
					x.Evals(1)
				}
			}
		}
		x.Eval(fmt.Sprint(bs, os, bind, client))
	}}, c12similar(), c12lists(thorough))
	return out
}

func c13(thorough bool) []*Scenario {
	lists := []map[string][]string{nil, {}, {"c1": {"i1"}}, {"c1": {"i1", "i2"}, "c2": {}}, {"c1": {}, "c2": {"i2", "i1", "i3"}}, {"": {"i1", ""}}, {"c1": {""}}, {"c1": nil, "i1": {"c1"}}, {"c1": {"I1"}, "C1": {"i1"}}, {"c1": {"i1,i2"}}, {"c1,c2": {"i1"}}, {"*": {"*"}}, {"c1": {"*"}}}
	var crts []*x509.Certificate
	for _, cn := range []string{"", "c1", "c2", "C1", "i1", "c1,c2", "*", "c3"} {
		crts = append(crts, Crt{CN: cn, Raw: "the certificate"}.cert(), Crt{CN: cn, Raw: "another"}.cert())
	}
	for _, cn := range []string{"", "c2", "c3"} {
		crts = append(crts, Crt{CN: cn, Issuer: "c1", Also: []string{"c1", "i1"}, URIs: []string{"spiffe://c1", "c1"}, Raw: "the certificate"}.cert())
	}
	crts = append(crts, nil)
	th := thumb(Crt{Raw: "the certificate"}.cert())
	var out []*Scenario
	body := func(x *vs.Exec, viaAuth bool) {
		ids := lists[x.Choose(len(lists))]
		client, bind := x.Choose(2) == 0, x.Choose(2) == 0
		c := c12cfg{bind: bind, client: client, offset: time.Hour, ids: ids}
		x.Label("configuration", fmt.Sprintf("%+v", c))
		var check func(tok string, crt *x509.Certificate) error
		if viaAuth {
			w := newAuthWorld(x, nil, authz.WithAccessTokenParam(authz.NewAccessTokenParam(true, bind, "0s", "1h", client, ids)), authz.WithDisablePolicyd())
			w.net.quiet = true
			w.jwks[athenzJWK] = cachedBody("c12", func() []byte { return jwksDoc("oct=oct:" + octSecret) })
			w.init()
			check = func(tok string, crt *x509.Certificate) error {
				return w.a.VerifyAccessToken(background(), tok, "a", "x", crt)
			}
		} else {
			ap, err := access.New(access.WithJWKProvider(octProvider), access.WithEnableMTLSCertificateBoundAccessToken(bind), access.WithEnableVerifyClientID(client), access.WithAuthorizedClientIDs(ids), access.WithClientCertificateOffsetSeconds("1h"))
			if err != nil {
				x.Failf("access.New: %v", err)
			}
			check = func(tok string, crt *x509.Certificate) error {
				_, err := ap.ParseAndValidateOAuth2AccessToken(tok, crt)
				return err
			}
		}
		for _, cl := range []string{"", "i1", "i2", "I1", "c1", "i1,i2", "*", "i"} {
			for _, cnf := range []map[string]any{nil, {"x5t#S256": th}, {"x5t#S256": "no"}} {
				for _, exp := range []time.Duration{day, -day} {
					for i, crt := range crts {
						t := AT{Aud: "d", Sub: fmt.Sprint("u", i), Scp: []string{"r"}, Exp: exp, Iat: -time.Minute, Client: cl, Cnf: cnf}
						want := refBind(c, t, crt) && exp > 0
						if err := check(octToken(t), crt); (err == nil) != want {
							cn := "none"
							if crt != nil {
								cn = crt.Subject.CommonName
							}
							x.Failf("lists %v, binding %v, client check %v, certificate %q, client id %q, cnf %v, expires in %v: got %v, want acceptance %v", ids, bind, client, cn, cl, cnf, exp, err, want)
						}
						x.Evals(1)
					}
				}
			}
		}
		x.Eval(fmt.Sprintf("%+v", c))
	}
	out = append(out, &Scenario{Name: "processor", Cfg: seqCfg, Body: func(x *vs.Exec) { body(x, false) }},
		&Scenario{Name: "authorizer", Cfg: seqCfg, Body: func(x *vs.Exec) { body(x, true) }}, c13similar())
	return out
}

// ---- C14 ---------------------------------------------------------------------

type refRole struct {
	verdict         string
	domain, princ   string
	roles           []string
	issued, expires int64
}

// refRoleToken is the reference parser and verifier of role tokens.
func refRoleToken(tok string, keyOf func(string) string, now time.Time) refRole {
	text, sig, found := strings.Cut(tok, ";s=")
	if !found {
		return refRole{verdict: "reject"}
	}
	f := map[string]string{}
	for _, p := range strings.Split(text, ";") {
		n, v, ok := strings.Cut(p, "=")
		if !ok {
			return refRole{verdict: "reject"}
		}
		f[n] = v
	}
	r := refRole{verdict: "accept", domain: f["d"], princ: f["p"], roles: strings.Split(f["r"], ",")}
	if _, there := f["r"]; !there {
		r.roles = nil
	}
	for n, d := range map[string]*int64{"t": &r.issued, "e": &r.expires} {
		v, there := f[n]
		if !there {
			continue
		}
		i, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			return refRole{verdict: "reject"}
		}
		*d = i
	}
	if _, there := f["e"]; !there || r.expires < now.Unix() {
		return refRole{verdict: "reject"}
	}
	if _, there := f["k"]; !there {
		return refRole{verdict: "reject"}
	}
	key := keyOf(f["k"])
	if key == "" {
		return refRole{verdict: "reject"}
	}
	b, err := base64.NewEncoding("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789._").WithPadding('-').DecodeString(sig)
	if err != nil {
		return refRole{verdict: "reject"}
	}
	h := sha256.Sum256([]byte(text))
	ok := false
	switch k := getKey(key).pub.(type) {
	case *rsa.PublicKey:
		ok = rsa.VerifyPKCS1v15(k, crypto.SHA256, h[:], b) == nil
	case *ecdsa.PublicKey:
		ok = ecdsa.VerifyASN1(k, h[:], b)
		if !ok {
			// both ASN.1 readers need not agree on exotic encodings of a signature
			if v, err := authcore.NewVerifier(getKey(key).pubPEM); err == nil && v.Verify(text, sig) == nil {
				ok = true
			}
		}
	}
	if !ok {
		return refRole{verdict: "reject"}
	}
	if r.expires == now.Unix() && now.Nanosecond() != 0 {
		return refRole{verdict: "reject"} // passed by a fraction of a second
	}
	if r.expires == now.Unix() || r.expires > 1<<60 || r.issued > 1<<60 || r.issued < -1<<60 {
		r.verdict = "unspecified"
	}
	return r
}

func c14(thorough bool) []*Scenario {
	table := map[string]string{"ec1": "ec1", "rsa1": "rsa1", "k.2": "ec3", "0": "ec2"}
	provider := func(env pubkey.AthenzEnv, id string) authcore.Verifier {
		name := table[id]
		if env != pubkey.EnvZTS {
			name = map[string]string{"ec1": "ec4", "zmsonly": "ec2"}[id]
		}
		if name == "" {
			return nil
		}
		v := refVers["p"+name]
		if v == nil {
			v, _ = authcore.NewVerifier(getKey(name).pubPEM)
			refVers["p"+name] = v
		}
		return v
	}
	mk := func(x *vs.Exec) role.Processor {
		p, err := role.New(role.WithPubkeyProvider(provider))
		if err != nil {
			x.Failf("role.New: %v", err)
		}
		return p
	}
	judge := func(x *vs.Exec, p role.Processor, tok, what string) {
		x.Label("token", tok)
		want := refRoleToken(tok, func(id string) string { return table[id] }, vs.Now())
		got, err := p.ParseAndValidateRoleToken(tok)
		if want.verdict == "accept" && err != nil {
			x.Failf("%s: refused: %v", what, err)
		}
		if want.verdict == "reject" && err == nil {
			x.Failf("%s: accepted", what)
		}
		if err == nil {
			if got == nil {
				x.Failf("%s: no token returned", what)
			}
			if got.Domain != want.domain || got.Principal != want.princ || strings.Join(got.Roles, "\x00") != strings.Join(want.roles, "\x00") || got.ExpiryTime.Unix() != want.expires || want.issued != 0 && got.TimeStamp.Unix() != want.issued {
				x.Failf("%s: got %+v, signed text says %+v", what, got, want)
			}
		}
		x.Eval(what)
	}
	tim := func(d time.Duration) string { return strconv.FormatInt(vs.Base.Add(d).Unix(), 10) }
	var out []*Scenario
	out = append(out, &Scenario{Name: "fields", Cfg: seqCfg, Body: func(x *vs.Exec) {
		p := mk(x)
		fields := []string{"v=Z1", "d=dom.sub", "r=a,b,c", "p=user.x", "t=" + tim(-time.Hour), "e=" + tim(time.Hour), "k=ec1"}
		extra := []string{"", "i=1.2.3.4", "h=host", "a=salt=x", "proxy=user.y", "D=other", "c=1", "=", "x=", "de=1", "keyVersion=k.2", "e =1", " e=99999999999", "novalue", "\x00", " "}[x.Choose(16)]
		mask := 1 + x.Choose(127)
		var sel []string
		for i, f := range fields {
			if mask>>i&1 == 1 {
				sel = append(sel, f)
			}
		}
		var perm func(k int)
		n := 0
		perm = func(k int) {
			if n >= 200 && len(sel) > 5 && !thorough {
				return
			}
			if k == len(sel) {
				n++
				for pos := 0; pos <= len(sel); pos++ {
					l := append([]string(nil), sel[:pos]...)
					if extra != "" {
						l = append(l, strings.Trim(extra, "\x00")) // one of them is nothing between two separators
					} else if pos > 0 {
						break
					}
					l = append(l, sel[pos:]...)
					t := strings.Join(l, ";")
					judge(x, p, t+";s="+c14sign("ec1", t), "fields "+t)
					if len(sel) > 4 {
						break
					}
				}
				return
			}
			for i := k; i < len(sel); i++ {
				sel[k], sel[i] = sel[i], sel[k]
				perm(k + 1)
				sel[k], sel[i] = sel[i], sel[k]
			}
		}
		perm(0)
	}})
	out = append(out, &Scenario{Name: "values", Cfg: seqCfg, Body: func(x *vs.Exec) {
		p := mk(x)
		shift := []time.Duration{0, time.Millisecond, 500 * time.Millisecond, 2 * time.Second, day}[x.Choose(5)]
		x.JumpBy(shift)
		d := func(o time.Duration) string { return strconv.FormatInt(vs.Now().Add(o).Unix(), 10) }
		times := []string{d(-day), d(-2 * time.Second), d(-time.Second), d(0), d(time.Second), d(2 * time.Second), d(day), "0", "-1", "", "x", "1e9", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "+" + d(day), " " + d(day), d(day) + " ", "0x7fffffff", d(day) + ".5", "99999999999_9", "99999999999", "100000000001", "253402300800", "1000000000000000", "delete", "00" + d(day)}
		e := times[x.Choose(len(times))]
		for _, t := range times {
			for _, dom := range []string{"d", "d=e", "", "D:role.x", "d,e", "delete"} {
				for _, rl := range []string{"r", "", ",", "r,,s", "r, s", "a:b=c", "delete"} {
					for _, k := range []string{"ec1", "delete", "", "nope", "zmsonly"} {
						if k != "ec1" && (t != times[1] || e != times[6]) {
							continue
						}
						var l []string
						for _, kv := range [][2]string{{"v", "Z1"}, {"d", dom}, {"r", rl}, {"p", "user=1"}, {"t", t}, {"e", e}, {"k", k}} {
							if kv[1] != "delete" {
								l = append(l, kv[0]+"="+kv[1])
							}
						}
						u := strings.Join(l, ";")
						judge(x, p, u+";s="+c14sign("ec1", u), u)
					}
				}
			}
		}
	}})
	out = append(out, &Scenario{Name: "keys", Cfg: seqCfg, Body: func(x *vs.Exec) {
		p := mk(x)
		ids := []string{"ec1", "rsa1", "k.2", "0", "zmsonly", "nope", "", "EC1", "ec1 ", "k.2;x=y", "ec", "00"}
		var texts []string
		for _, id := range ids {
			for _, r := range []string{"r", "admin"} {
				texts = append(texts, "d=d;r="+r+";p=u;t="+tim(-time.Hour)+";e="+tim(time.Hour)+";k="+id)
			}
		}
		i := x.Choose(len(texts))
		for _, signer := range []string{"ec1", "ec2", "ec3", "ec4", "rsa1", "rsa2"} {
			for j := range texts { // a signature over another text
				judge(x, p, texts[i]+";s="+c14sign(signer, texts[j]), fmt.Sprintf("text %d signed by %s over %d", i, signer, j))
			}
		}
		for _, s := range []string{"", "AAAA", "-", "....", " ", ";s=", ";s=" + c14sign("ec1", texts[i]), c14sign("ec1", texts[i]) + ";", c14sign("ec1", texts[i]) + ";s=x", c14sign("ec1", texts[i]) + "-", c14sign("ec1", texts[i]) + c14sign("ec1", texts[i])} {
			judge(x, p, texts[i]+";s="+s, fmt.Sprintf("text %d with signature %q", i, s))
		}
	}})
	chars := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789._-;=,: \n\x00%+/"
	mut := func(key, id string, th bool) {
		u := "v=Z1;d=d;r=r,s;p=u;a=s;t=" + tim(-time.Hour) + ";e=" + tim(time.Hour) + ";k=" + id + ";i=1"
		out = append(out, &Scenario{Name: "altered-" + key, Thorough: th, Cfg: seqCfg, Body: func(x *vs.Exec) {
			p := mk(x)
			tok := u + ";s=" + c14sign(key, u)
			at := x.Choose(len(tok) + 1)
			try := func(m, what string) {
				if m != tok {
					judge(x, p, m, what)
				}
			}
			try(tok[:at], fmt.Sprintf("cut at %d", at))
			try(tok[at:], fmt.Sprintf("from %d", at))
			if at < len(tok) {
				try(tok[:at]+tok[at+1:], fmt.Sprintf("without character %d", at))
			}
			for _, c := range chars {
				if at < len(tok) {
					try(tok[:at]+string(c)+tok[at+1:], fmt.Sprintf("character %d replaced by %q", at, c))
				}
				try(tok[:at]+string(c)+tok[at:], fmt.Sprintf("%q inserted at %d", c, at))
			}
			// two neighbours exchanged, and a whole field appended or put in front
			if at+1 < len(tok) {
				try(tok[:at]+tok[at+1:at+2]+tok[at:at+1]+tok[at+2:], fmt.Sprintf("characters %d, %d exchanged", at, at+1))
			}
			for _, f := range []string{"r=admin;", ";r=admin", "e=99999999999;", ";k=rsa1", ";s=x", ";d=e"} {
				try(tok[:at]+f+tok[at:], fmt.Sprintf("%q inserted at %d", f, at))
			}
		}})
	}
	mut("ec1", "ec1", false)
	mut("rsa1", "rsa1", false)
	mut("ec3", "k.2", true)
	return out
}

var c14sigs = map[string]string{}

// c14sign signs, remembering few signatures only.
func c14sign(key, text string) string {
	ck := key + "\x00" + text
	if s, ok := c14sigs[ck]; ok {
		return s
	}
	s, err := getKey(key).signer.Sign(text)
	if err != nil {
		panic(err)
	}
	if len(c14sigs) > 20000 {
		c14sigs = map[string]string{}
	}
	c14sigs[ck] = s
	return s
}
