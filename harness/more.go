package main

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/golang-jwt/jwt/v4"
	ljwk "github.com/lestrrat-go/jwx/jwk"
	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"

	"net/http"
	"net/url"

	authz "github.com/yahoojapan/athenz-authorizer/v5"

	"vs"
)

// ---- C01 ---------------------------------------------------------------------

// c01many: requests of many roles which are all allowed but one, which is denied or unknown.
func c01many(thorough bool) *Scenario {
	sizes := []int{2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257}
	if thorough {
		sizes = append(sizes, 24, 47, 50, 90, 200, 300, 511, 512, 513, 1000, 1025)
	}
	return &Scenario{Name: "all-but-one", Cfg: seqCfg, Body: func(x *vs.Exec) {
		n := sizes[x.Choose(len(sizes))]
		kind := []string{"denied", "unknown", "other", "none", "same roles"}[x.Choose(5)]
		d := Doc{Domain: "d", Expires: day, Pols: []P{{{"denied", "a", "d:*", "DENY"}, {"other", "a", "d:y", "ALLOW"}}}}
		for i := 0; i < n; i++ {
			d.Pols = append(d.Pols, P{{fmt.Sprint("m", i), "a", "d:x", "ALLOW"}})
		}
		w := newPolWorld(x, polCfg{}, d)
		w.net.quiet = true
		w.mustUpdate()
		as := d.Asserts()
		for i := 0; i < n; i++ {
			if n > 40 && i > 2 && i < n-3 && i != n/2 && i%16 > 1 && i%16 < 15 {
				continue
			}
			l := make([]string, n)
			for k := range l {
				l[k] = fmt.Sprint("m", k)
				if kind == "same roles" {
					l[k] = fmt.Sprint("m", k%2)
				}
			}
			if kind == "denied" || kind == "unknown" || kind == "other" {
				l[i] = kind
			}
			want := refDecide(as, "d", l, "a", "x")
			if got := w.check(background(), "d", l, "a", "x"); got != want {
				x.Failf("list of %d allowed roles, the one at %d %s: got %v, want %v", n, i, kind, got, want)
			}
			x.Eval(fmt.Sprint(n, kind, i))
		}
	}}
}

// c01effects: one role with up to n assertions of every combination of effects, and requests which match
// every subset of them.
func c01effects(thorough bool) *Scenario {
	n := 6
	if thorough {
		n = 7
	}
	return &Scenario{Name: "effects-subsets", Cfg: seqCfg, Body: func(x *vs.Exec) {
		k := x.Choose(n) + 1
		order := x.Choose(3)
		split := x.Choose(2)
		for eff := 0; eff < 1<<k; eff++ {
			d := Doc{Domain: "d", Expires: day}
			var l P
			for j := 0; j < k; j++ {
				i := j
				switch order {
				case 1:
					i = k - 1 - j
				case 2:
					i = (j*2 + 1) % k
					if k%2 == 0 {
						i = (j*2)%k + j*2/k
					}
				}
				e := "ALLOW"
				if eff>>i&1 == 1 {
					e = "DENY"
				}
				a := A{"r", fmt.Sprintf("*%d*", i), "d:x", e}
				if split == 1 {
					d.Pols = append(d.Pols, P{a})
				} else {
					l = append(l, a)
				}
			}
			if l != nil {
				d.Pols = append(d.Pols, l)
			}
			w := newPolWorld(x, polCfg{}, d)
			w.net.quiet = true
			w.mustUpdate()
			as := d.Asserts()
			for sub := 0; sub < 1<<k; sub++ {
				act := "a"
				for i := 0; i < k; i++ {
					if sub>>i&1 == 1 {
						act += fmt.Sprint(i)
					}
				}
				want := refDecide(as, "d", []string{"r"}, act, "x")
				if got := w.check(background(), "d", []string{"r"}, act, "x"); got != want {
					x.Failf("document %v, action %s: got %v, want %v", d.Pols, act, got, want)
				}
			}
			x.Eval(fmt.Sprint(k, order, split, eff))
			x.Evals(1<<k - 1)
		}
	}}
}

// c01nulls: documents with null in the place of policies and assertions: refused, or the others count.
func c01nulls() *Scenario {
	atom := []string{"null", `{"role":"d:role.r","action":"a","resource":"d:x","effect":"ALLOW"}`, `{"role":"d:role.r","action":"a","resource":"d:x","effect":"DENY"}`, `{"role":"d:role.s","action":"a","resource":"d:x","effect":"ALLOW"}`}
	var polAlpha []string
	polAlpha = append(polAlpha, "null", `{"name":"d:policy.p","assertions":null}`, `{"name":"d:policy.p"}`)
	for _, l := range seqsOf(atom, 2) {
		polAlpha = append(polAlpha, `{"name":"d:policy.p","assertions":[`+strings.Join(l, ",")+`]}`)
	}
	return &Scenario{Name: "nulls", Cfg: seqCfg, Body: func(x *vs.Exec) {
		first := polAlpha[x.Choose(len(polAlpha))]
		for _, second := range append([]string{""}, polAlpha...) {
			for _, third := range []string{"", "null", polAlpha[len(polAlpha)-1]} {
				l := []string{first}
				for _, p := range []string{second, third} {
					if p != "" {
						l = append(l, p)
					}
				}
				policies := "[" + strings.Join(l, ",") + "]"
				sp := Doc{Domain: "d", Expires: day}.data()
				if err := json.Unmarshal([]byte(policies), &sp.PolicyData.Policies); err != nil {
					x.Failf("%s: %v", policies, err)
				}
				as := assertsOf(sp)
				raw := fakeSigned(sp)
				w := newPolWorld(x, polCfg{}, Doc{Domain: "d", Expires: day})
				w.net.quiet = true
				w.answer = func(string, *http.Request) *Ans { return ok200("doc", raw, "") }
				if err := w.d.Update(background()); err != nil {
					as = nil
				}
				for _, r := range [][]string{{"r"}, {"s"}, {"r", "s"}} {
					want := refDecide(as, "d", r, "a", "x")
					if got := w.check(background(), "d", r, "a", "x"); got != want {
						x.Failf("policies %s, roles %v: got %v, want %v", policies, r, got, want)
					}
				}
				x.Eval(policies)
			}
		}
	}}
}

func fakeSigned(s *util.SignedPolicyData) []byte {
	pd, _ := json.Marshal(s.PolicyData)
	s.ZmsKeyId, s.ZmsSignature = "ec2", fakeSign("zms", "ec2", string(pd))
	spd, _ := json.Marshal(s)
	b, err := json.Marshal(&util.DomainSignedPolicyData{KeyId: "ec1", Signature: fakeSign("zts", "ec1", string(spd)), SignedPolicyData: s})
	if err != nil {
		panic(err)
	}
	return b
}

// ---- C02 ---------------------------------------------------------------------

// c02Runs: wildcards against long texts.
func c02Runs(thorough bool) *Scenario {
	lens := []int{1, 2, 31, 64, 127, 255, 256, 257, 999, 1000, 1001, 1024, 4097}
	if thorough {
		lens = append(lens, 65537, 100000)
	}
	return &Scenario{Name: "long-runs", Cfg: seqCfg, Body: func(x *vs.Exec) {
		n := lens[x.Choose(len(lens))]
		asAction := x.Choose(2) == 0
		fill := []string{"x", "é", " ", "/"}[x.Choose(4)]
		for _, p := range []string{"*", "a*", "*a", "a*a", "?*", "*?", "a*b*a", "*b*", "a?a", "a", "**", "*a*", "a**?"} {
			d := Doc{Domain: "d", Expires: day, Pols: []P{{{"r", p, "d:fix", "ALLOW"}}}}
			if !asAction {
				d = Doc{Domain: "d", Expires: day, Pols: []P{{{"r", "fix", "d:" + p, "ALLOW"}}}}
			}
			w := newPolWorld(x, polCfg{}, d)
			w.net.quiet = true
			w.mustUpdate()
			run := strings.Repeat(fill, n)
			for _, s := range []string{run, "a" + run, run + "a", "a" + run + "a", run + "b" + run, "a" + run + "b" + run + "a", "a" + run + "b"} {
				act, res := s, "fix"
				if !asAction {
					act, res = "fix", s
				}
				_, err := w.d.CheckPolicyRoles(background(), "d", []string{"r"}, act, res)
				if want := globMatch(p, s); (err == nil) != want {
					x.Failf("pattern %q against a text of %d characters (%.5q...%q): got %v, want match=%v", p, len(s), s, s[len(s)-1:], err, want)
				}
				x.Eval(fmt.Sprint(n, asAction, fill, p))
			}
		}
	}}
}

// ---- C11 ---------------------------------------------------------------------

// extraKey returns a fixed key which the other scenarios do not use: P-384, P-521, Ed25519.
func extraKey(name string) (priv, pub any) {
	ec := func(c elliptic.Curve) (any, any) {
		k := &ecdsa.PrivateKey{D: big.NewInt(0x1234567890abcdef)}
		k.Curve = c
		k.X, k.Y = c.ScalarBaseMult(k.D.Bytes())
		return k, &k.PublicKey
	}
	switch name {
	case "p384":
		return ec(elliptic.P384())
	case "p521":
		return ec(elliptic.P521())
	case "ed":
		k := ed25519.NewKeyFromSeed([]byte("thirty-two bytes of a fixed seed"))
		return k, k.Public().(ed25519.PublicKey)
	case "oct":
		return []byte(octSecret), []byte(octSecret)
	}
	k := getKey(name)
	return k.priv, k.pub
}

// c11algs: every algorithm with every key, under every key identifier.
func c11algs() *Scenario {
	names := []string{"ec3", "p384", "p521", "ed", "rsa2", "oct"}
	algs := []string{"ES256", "ES384", "ES512", "RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "HS256", "HS384", "HS512", "EdDSA"}
	return &Scenario{Name: "every-algorithm", Cfg: seqCfg, Body: func(x *vs.Exec) {
		alg := algs[x.Choose(len(algs))]
		name := names[x.Choose(len(names))]
		d := newJwk(x, nil, func(u string, r *http.Request) *Ans {
			return ok200("jwks", cachedBody("c11algs", func() []byte {
				s := ljwk.NewSet()
				for _, n := range names {
					_, pub := extraKey(n)
					k, err := ljwk.New(pub)
					if err != nil {
						panic(err)
					}
					k.Set("kid", n)
					s.Add(k)
				}
				b, _ := json.Marshal(s)
				return b
			}), "")
		})
		if err := d.Update(background()); err != nil {
			x.Failf("key set update: %v", err)
		}
		ap, err := access.New(access.WithJWKProvider(d.GetProvider()))
		if err != nil {
			x.Failf("access.New: %v", err)
		}
		keyOf := func(kid, jku string) any {
			if jku != "" {
				return nil
			}
			for _, n := range names {
				if n == kid {
					_, pub := extraKey(n)
					return pub
				}
			}
			return nil
		}
		c := map[string]any{"aud": "d", "sub": "u", "scp": []string{"r"}, "exp": vs.Base.Add(day).Unix()}
		priv, _ := extraKey(name)
		for _, kid := range names {
			in := b64(map[string]any{"alg": alg, "kid": kid}) + "." + b64(c)
			m := jwt.GetSigningMethod(alg)
			if m == nil {
				x.Failf("no method %s", alg)
			}
			sig, err := m.Sign(in, priv)
			if err != nil {
				continue
			}
			tok := in + "." + sig
			want := refJWT(tok, keyOf, vs.Now())
			_, err = ap.ParseAndValidateOAuth2AccessToken(tok, nil)
			if (want == "accept") != (err == nil) {
				x.Failf("a token signed with %s by the key %s naming the key %s: got %v, want %s", alg, name, kid, err, want)
			}
			x.Eval(alg + name + kid)
		}
	}}
}

// c11claims: no other claim or header changes what the times decide.
func c11claims() *Scenario {
	type kv struct {
		n string
		v any
	}
	base := vs.Base.Unix()
	extra := []kv{{"jti", "id"}, {"iss", "https://athenz.test"}, {"auth_time", base}, {"auth_time", base + 86400}, {"ver", 1}, {"ver", 2}, {"uid", "u"}, {"proxy", "p"}, {"client_id", "c"},
		{"cnf", map[string]any{"x5t#S256": "x"}}, {"foo", "bar"}, {"expires_in", 86400}, {"exp_time", base + 86400}, {"Exp", "x"}, {"refresh", true}, {"scope", "r"}, {"sub", ""}, {"aud", ""}, {"scp", []string{}}}
	extra = extra[:len(extra):len(extra)]
	heads := []kv{{"typ", "at+jwt"}, {"typ", "JWT"}, {"typ", ""}, {"typ", "refresh"}, {"cty", "JWT"}, {"x5t", "x"}, {"foo", 1.0}}
	return &Scenario{Name: "other-claims", Cfg: seqCfg, Body: func(x *vs.Exec) {
		i := x.Choose(len(extra) + 1)
		ap, keyOf := c11world(x)
		now := vs.Now().Unix()
		for j := i; j <= len(extra); j++ {
			for h := 0; h <= len(heads); h++ {
				if h > 0 && j > i && j < len(extra) {
					continue
				}
				for _, t := range []map[string]any{{"exp": now + 100}, {}, {"exp": now - 100}, {"exp": 0}, {"exp": now + 100, "iat": now + 50}, {"exp": now + 100, "nbf": now + 50}, {"exp": now + 100, "iat": now - 50, "nbf": now - 50}, {"exp": now + 100, "iat": now - 50, "nbf": now + 50},
					{"exp": now - 10, "iat": now - 400*86400, "nbf": now - 400*86400}, {"exp": now + 1000*86400}} {
					c := map[string]any{"aud": "d", "sub": "u", "scp": []string{"r"}}
					for k, v := range t {
						c[k] = v
					}
					for _, e := range []int{i, j} {
						if e < len(extra) && extra[e].n != "Exp" {
							c[extra[e].n] = extra[e].v
						}
					}
					hd := map[string]any{"alg": "HS256", "kid": "oct"}
					if h > 0 {
						hd[heads[h-1].n] = heads[h-1].v
					}
					in := b64(hd) + "." + b64(c)
					sig, _ := jwt.SigningMethodHS256.Sign(in, []byte(octSecret))
					want := refJWT(in+"."+sig, keyOf, vs.Now())
					_, err := ap.ParseAndValidateOAuth2AccessToken(in+"."+sig, nil)
					if want == "accept" && err != nil || want == "reject" && err == nil {
						x.Failf("header %v claims %v: got %v, want %s", hd, c, err, want)
					}
					x.Eval(fmt.Sprint(i, j, h, t))
				}
			}
		}
	}}
}

// ---- C10 ---------------------------------------------------------------------

// c10shapes: sets of keys with and without identifiers and other members: an identifier finds its own key only.
func c10shapes(thorough bool) *Scenario {
	type shape struct {
		id, key string
		edit    func(map[string]any)
	}
	shapes := []shape{
		{"k", "ec1", nil},
		{"-", "ec2", func(m map[string]any) { delete(m, "kid") }},
		{"", "ec3", nil},
		{"K", "rsa1", nil},
		{"k2", "rsa2", func(m map[string]any) { m["use"], m["alg"] = "sig", "RS256" }},
		{"-", "rsa1", func(m map[string]any) { delete(m, "kid"); m["use"], m["alg"] = "sig", "RS256"; m["x5t"] = "k" }},
		{"k3", "ec1", func(m map[string]any) { m["alg"], m["key_ops"] = "ES256", []string{"verify"} }},
	}
	n := 2
	if thorough {
		n = 3
	}
	var lists [][]int
	var all []string
	for i := range shapes {
		all = append(all, fmt.Sprint(i))
	}
	for _, l := range seqsOf(all, n) {
		var o []int
		for _, s := range l {
			var v int
			fmt.Sscan(s, &v)
			o = append(o, v)
		}
		lists = append(lists, o)
	}
	doc := func(l []int) []byte {
		keys := []any{}
		for _, i := range l {
			var d struct{ Keys []map[string]any }
			json.Unmarshal(cachedBody("shape"+shapes[i].key, func() []byte { return jwksDoc("x=" + shapes[i].key) }), &d)
			m := d.Keys[0]
			m["kid"] = shapes[i].id
			if shapes[i].edit != nil {
				shapes[i].edit(m)
			}
			keys = append(keys, m)
		}
		b, _ := json.Marshal(map[string]any{"keys": keys})
		return b
	}
	return &Scenario{Name: "shapes", Cfg: seqCfg, Body: func(x *vs.Exec) {
		l := lists[x.Choose(len(lists))]
		urls := [][]string{nil, {jku1}}[x.Choose(2)]
		d := newJwk(x, urls, func(u string, r *http.Request) *Ans {
			if u == jku1 {
				return ok200("other", cachedBody("shapes other", func() []byte { return jwksDoc("j=ec3") }), "")
			}
			return ok200("set", doc(l), "")
		})
		if err := d.Update(background()); err != nil {
			x.Failf("key set %s: %v", doc(l), err)
		}
		p := d.GetProvider()
		for _, id := range []string{"k", "K", "k2", "k3", "", "-", "nope", " k", "k ", "x", "j", "0", "1", "ec1"} {
			want := map[string]bool{}
			for _, i := range l {
				if shapes[i].id == id && id != "" && id != "-" {
					want[shapes[i].key] = true
				}
			}
			for _, u := range []string{"", athenzJWK} {
				got := rawName(p(id, u))
				if got == "" && len(want) > 0 || got != "" && !want[got] {
					x.Failf("key set %s: the identifier %q finds %q, want %v", doc(l), id, got, keys(want))
				}
			}
			for _, u := range []string{jku1, "https://nope.example/jwk", "/", "athenz.test"} {
				want := ""
				if u == jku1 && urls != nil && id == "j" {
					want = "ec3"
				}
				if got := rawName(p(id, u)); got != want {
					x.Failf("URLs %v: the identifier %q of %s finds %q, want %q", urls, id, u, got, want)
				}
			}
			x.Eval(fmt.Sprint(l, id))
		}
	}}
}

// ---- C07, C08 -----------------------------------------------------------------

func tagTexts() []string {
	l := strings.Repeat("0123456789abcdef", 20)
	return []string{`e`, `"e"`, `W/"e"`, `w/"e"`, `"E"`, `"e" `, ` "e"`, `"e","f"`, `"f"`, `"f","e"`, `"e-gzip"`, `"e--gzip"`, `"e:1"`, `W/e`, `W/`, `W/"W/e"`, `""`, `"`, `'e'`, `*`, `"*"`, "\"\u00e9\"", `"e;q=1"`, `"` + l + `"`, `"` + l + `1"`, l, `W/"` + l + `"`, "0", "-", "null", `\"e\"`, "e\te"}
}

// c07tags: documents under every pair of tags; each request names the tag of the document held, literally.
func c07tags() *Scenario {
	tags := tagTexts()
	return &Scenario{Name: "tag-texts", Cfg: seqCfg, Body: func(x *vs.Exec) {
		t1 := tags[x.Choose(len(tags))]
		for _, t2 := range tags {
			w := newPolWorld(x, polCfg{attempts: 1, margin: "1h", delay: "1s", purge: "1000h", domains: []string{"d"}})
			w.net.quiet = true
			held, cur := "", t1
			ver := 1
			n := 0
			w.answer = func(dom string, r *http.Request) *Ans {
				n++
				inm := strings.Join(r.Header["If-None-Match"], "|")
				if inm != held {
					x.Failf("tags %q, %q: If-None-Match %q with the document of tag %q", t1, t2, inm, held)
				}
				if inm == cur {
					return status(304)
				}
				held = cur
				return ok200("doc", verDoc("d", ver, day).Raw(), cur)
			}
			for i, t := range []string{t1, t2, t2, t1, t1} {
				if t != cur {
					ver++
				}
				cur, n = t, 0
				ctx, cancel := withCancel()
				err := w.d.Update(ctx)
				cancel()
				if err != nil || n != 1 {
					x.Failf("tags %q, %q: refresh %d: %v after %d requests", t1, t2, i, err, n)
				}
				for v := 1; v <= ver; v++ {
					want := "nomatch"
					if v == ver {
						want = "allow"
					}
					if got := w.check(background(), "d", []string{"r"}, "a", fmt.Sprint("v", v)); got.Kind != want {
						x.Failf("tags %q, %q: refresh %d: version %d of %d: %v", t1, t2, i, v, ver, got)
					}
				}
			}
			x.Eval(t1 + "\x00" + t2)
		}
	}}
}

// c08tags: key sets under every pair of tags, the server comparing them literally.
func c08tags() *Scenario {
	tags := tagTexts()
	return &Scenario{Name: "tag-texts", Cfg: seqCfg, Body: func(x *vs.Exec) {
		t1 := tags[x.Choose(len(tags))]
		svc := []string{"zts", "zms"}[x.Choose(2)]
		env := map[string]pubkey.AthenzEnv{"zts": pubkey.EnvZTS, "zms": pubkey.EnvZMS}[svc]
		for _, t2 := range tags {
			tag, key := t1, "ec1"
			w := newAuthServer(x)
			w.net.quiet = true
			w.answer = func(kind, name string, r *http.Request) *Ans {
				t, k := tag, key
				if name != svc {
					t, k = t2, "ec2" // the other service uses the same tag
				}
				if r.Header.Get("If-None-Match") == t {
					return status(304)
				}
				return ok200("keys", pubkeyDoc(name, "id="+k), t)
			}
			d, err := pubkey.New(pubkey.WithAthenzURL(athenzURL), pubkey.WithHTTPClient(w.net.client()), pubkey.WithETagExpiry("1h"))
			if err != nil {
				x.Failf("pubkey.New: %v", err)
			}
			p := d.GetProvider()
			for i, t := range []string{t1, t2, t2, t1} {
				if t != tag {
					key = map[string]string{"ec1": "ec3", "ec3": "ec1"}[key]
				}
				tag = t
				if err := d.Update(background()); err != nil {
					x.Failf("tags %q, %q: refresh %d: %v", t1, t2, i, err)
				}
				if got := verName(p(env, "id")); got != key {
					x.Failf("tags %q, %q: refresh %d: the key in use is %s, published %s", t1, t2, i, got, key)
				}
			}
			x.Eval(t1 + "\x00" + t2)
		}
	}}
}

// c22slow: the consumer of the reports keeps reading, but more slowly than failures are reported, or pauses for a while.
func c22slow(kinds []string) *Scenario {
	return &Scenario{Name: "slow-consumer", Cfg: seqCfg, Body: func(x *vs.Exec) {
		kind := kinds[x.Choose(len(kinds))]
		gap := []time.Duration{0, 5 * time.Second, time.Minute}[x.Choose(3)]
		pause := []time.Duration{0, 100 * time.Minute, 5 * time.Hour}[x.Choose(3)]
		mode := []string{"500", "transport error", "ok"}[x.Choose(3)]
		for _, after := range []time.Duration{10 * time.Minute, 20 * time.Minute, 35 * time.Minute, 36*time.Minute + 7*time.Second, 60 * time.Minute, 100 * time.Minute, 101 * time.Minute, 200 * time.Minute} {
			at := c22period + after
			x.Label("case", fmt.Sprintf("%s, server %s, one report read every %v after a pause of %v, cancelled after %v", kind, mode, gap, pause, at))
			active := false
			d := c22make(x, kind, 1000*day, func(k, name string) *Ans {
				switch {
				case !active || mode == "ok":
					return nil
				case mode == "500":
					return status(500)
				}
				return netErr()
			})
			d.net.quiet = true
			ctx, cancel := withCancel()
			if kind != rqPolicy && kind != "authorizer" { // policies fetched before would be used again
				if err := d.update(ctx); err != nil {
					x.Failf("update: %v", err)
				}
			}
			active = true
			ech := d.start(ctx)
			rd := &c22reader{}
			rd.h = x.Spawn("h:reader", func() {
				vs.Sleep(pause)
				for {
					e, ok := vs.Recv2(ech)
					if !ok {
						rd.closed = true
						return
					}
					rd.errs = append(rd.errs, e)
					if gap > 0 {
						vs.Sleep(gap)
					}
				}
			})
			vs.Sleep(at)
			cancel()
			d.ended(x, rd, max(0, pause-at)+700*max(gap, time.Second)+6*c22delay)
			x.Evals(1)
		}
		x.Eval(fmt.Sprint(kind, gap, pause, mode))
	}}
}

// c25shapes: correctly signed tokens with every part of every shape, with certificates of every shape, in every
// combination of the checks made of them.
func c25shapes() *Scenario {
	obj := func(kv ...any) map[string]any {
		m := map[string]any{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
		return m
	}
	values := []any{nil, true, 0, -1, 1.5, 1e300, json.Number("99999999999999999999999"), "", "x", "9999999999", "spiffe://a/b", []any{}, []any{nil}, []any{"d"}, []any{"d", 1, nil, []any{"x"}, obj()}, []any{[]any{"spiffe://a/b"}}, obj(), obj("x", 1), obj("", nil)}
	tp, pp := "x5t#S256", "proxy-principals#spiffe"
	var cnfs []any
	for _, v := range values {
		cnfs = append(cnfs, obj(tp, v), obj(pp, v), obj(tp, "x", pp, v), obj(tp, v, pp, []any{"spiffe://a/b"}), obj(pp, []any{v, "spiffe://a/b"}), obj(pp, []any{"x", v}))
	}
	mk := func(raw string) *url.URL { u, _ := url.Parse(raw); return u }
	crt := func(cn string, us ...*url.URL) *x509.Certificate {
		c := Crt{CN: cn, Raw: "r"}.cert()
		c.URIs = us
		return c
	}
	odd := []*url.URL{{}, {Scheme: "athenz"}, {Opaque: "x"}, {Scheme: "athenz", Host: "role"}, {Scheme: "athenz", Host: "role", Path: "/"}, {Scheme: "athenz", Host: "role", Path: "/d"}, {Scheme: "athenz", Host: "role", Path: "/d/"}, {Scheme: "athenz", Host: "role", Path: "//"},
		{Scheme: "athenz", Host: "role", Path: "/d/r", RawQuery: "x"}, {Scheme: "athenz", Host: "role", Path: "/d/r", Fragment: "/"}, {Path: "/"}, {Host: ":"}, {User: url.User("")}, mk("athenz://role/%2f"), mk("athenz://role/d/\u00e9"), mk("ATHENZ://role/d/r"), mk("spiffe://a/b")}
	return &Scenario{Name: "credential-shapes", Cfg: seqCfg, Body: func(x *vs.Exec) {
		bound, ids, pols, offset := x.Choose(2) == 1, x.Choose(2) == 1, x.Choose(2) == 1, []string{"0", "1h"}[x.Choose(2)]
		opts := []authz.Option{authz.WithAccessTokenParam(authz.NewAccessTokenParam(true, bound, "1h", offset, ids, map[string][]string{"u": {"u", ""}, "": {"u"}, "d:role.r": nil})), authz.WithEnableRoleCert(), authz.WithEnableRoleToken()}
		prefix := []string{"athenz://role/", "athenz://role", "", "x"}[x.Choose(4)]
		opts = append(opts, authz.WithRoleCertURIPrefix(prefix))
		if !pols {
			opts = append(opts, authz.WithDisablePolicyd())
		}
		w, err := tryAuthWorld(x, []Doc{{Domain: "d", Expires: day, Pols: []P{{{"r", "*", "d:*", "ALLOW"}, {"", "*", "d:*", "ALLOW"}}}}}, opts...)
		if err != nil { // a prefix may be refused
			x.Eval(prefix)
			return
		}
		w.net.quiet = true
		w.init()
		certs := []*x509.Certificate{nil, {}, crt("u"), crt("", odd...), crt("u", mk("spiffe://a/b")), crt(":role."), crt("d:role.", odd[0]), crt("d:role.r", odd[1:]...)}
		for i := range odd {
			certs = append(certs, crt(strings.Repeat(":", i), odd[i]))
		}
		what := fmt.Sprintf("bound %v, client ids %v, policies %v, window %s, prefix %q", bound, ids, pols, offset, prefix)
		do := func(kind, tok string, c *x509.Certificate, text string) {
			x.Label("call", what+": "+text)
			areq{kind: kind, tok: tok, act: "a", res: "x", crt: c}.do(w.a)
			x.Evals(1)
		}
		tokens := func(f func(tok, text string)) {
			good := AT{Aud: "d", Sub: "u", Client: "u", Scp: []string{"r"}, Exp: day}
			try := func(h, c map[string]any, text string) {
				t := good
				t.Alg, t.Key, t.Kid, t.Hdr, t.Claims = "HS256", "hmac:"+octSecret, "oct", h, c
				f(t.build(), text)
			}
			for _, v := range values {
				for _, k := range []string{"aud", "sub", "scp", "client_id", "cnf", "iat", "nbf", "exp", "iss", "jti", "auth_time", "ver", "uid", ""} {
					try(nil, obj(k, v), fmt.Sprintf("claim %s %#v", k, v))
				}
				for _, k := range []string{"kid", "jku", "typ", "crit", "x5c", "b64", "cty", "zip", ""} {
					try(obj(k, v), nil, fmt.Sprintf("header %s %#v", k, v))
				}
			}
			for _, c := range cnfs {
				try(nil, obj("cnf", c), fmt.Sprintf("confirmation %#v", c))
			}
		}
		tokens(func(tok, text string) {
			cs := certs
			if !bound && !ids {
				cs = certs[:3]
			}
			for i, c := range cs {
				do("access", tok, c, fmt.Sprintf("%s, certificate %d", text, i))
			}
			do("http", tok, certs[3], text)
		})
		// role tokens, with one field replaced, repeated or left out
		if !bound && !ids && offset == "0" {
			fields := []string{"v=Z1", "d=d", "r=r", "p=u", "a=1", fmt.Sprintf("t=%d", vs.Base.Unix()), fmt.Sprintf("e=%d", vs.Base.Add(day).Unix()), "k=ec4"}
			for i := range fields {
				k := fields[i][:2]
				for _, v := range []string{"", k, k + k, k + "-1", k + "0", k + strings.Repeat("9", 40), k + ",", k + ",,", k + " ", k + "\x00", "=" + k, k[:1], k + "\u00e9", fields[i] + ";" + fields[i], fields[i] + ";", ";" + fields[i], "h=" + k + ";" + fields[i], "proxy=;" + fields[i], "s=x;" + fields[i]} {
					fs := append([]string(nil), fields...)
					fs[i] = v
					u := strings.Join(fs, ";")
					do("role", u+";s="+c14sign("ec4", u), nil, "role token "+u)
				}
			}
		}
		for i, c := range certs[1:] {
			for _, l := range [][]*x509.Certificate{{c}, {c, c}, {certs[1], c}, {c, certs[3]}} {
				x.Label("call", fmt.Sprintf("%s: role certificates with number %d", what, i))
				w.a.VerifyRoleCert(background(), l, "a", "x")
				w.a.VerifyRoleCert(background(), l, "", "")
				x.Evals(2)
			}
		}
		// it still works
		ok := AT{Aud: "d", Sub: "u", Client: "u", Scp: []string{"r"}, Exp: day}
		var c *x509.Certificate
		if bound || ids {
			c = crt("u")
			ok.Cnf = map[string]any{tp: thumb(c)}
		}
		x.Label("call", what+": a good token")
		if _, err := (areq{kind: "access", tok: octToken(ok), act: "a", res: "x", crt: c}).do(w.a); err != nil {
			x.Failf("a good token is refused: %v", err)
		}
		x.Eval(what)
	}}
}

// c11kids: key ids which are no texts, although there are keys under the texts they could be taken for.
func c11kids() *Scenario {
	heads := []any{nil, 5, 5.5, 0, -1, 1e300, true, false, []any{5}, []any{"oct"}, []any{}, map[string]any{}, map[string]any{"kid": "oct"}, "oct", "5", "", " oct", "OCT"}
	return &Scenario{Name: "key-ids-of-every-type", Cfg: seqCfg, Body: func(x *vs.Exec) {
		var ids []string
		seen := map[string]bool{}
		for _, h := range heads {
			js, _ := json.Marshal(h)
			for _, t := range []string{fmt.Sprint(h), fmt.Sprintf("%q", h), fmt.Sprintf("%#v", h), string(js)} {
				if t != "" && !seen[t] && !strings.ContainsAny(t, "=:") {
					seen[t] = true
					ids = append(ids, t+"=oct:"+octSecret)
				}
			}
		}
		kids := map[string]bool{}
		for _, i := range ids {
			id, _, _ := strings.Cut(i, "=oct:")
			kids[id] = true
		}
		d := newJwk(x, []string{jku1}, func(u string, r *http.Request) *Ans { return ok200("jwks", jwksDoc(ids...), "") })
		if err := d.Update(background()); err != nil {
			x.Failf("key set update: %v", err)
		}
		ap, err := access.New(access.WithJWKProvider(d.GetProvider()))
		if err != nil {
			x.Failf("access.New: %v", err)
		}
		for _, kid := range heads {
			for _, jku := range []any{"absent", jku1, nil, 5, []any{jku1}, "elsewhere"} {
				h := map[string]any{"alg": "HS256", "kid": kid}
				if jku != "absent" {
					h["jku"] = jku
				}
				tok := signJWT(h, map[string]any{"aud": "d", "sub": "u", "scp": []string{"r"}, "exp": vs.Now().Unix() + 100}, "HS256", "hmac:"+octSecret)
				id, isText := kid.(string)
				want := isText && kids[id] && (jku == "absent" || jku == any(jku1))
				if _, err := ap.ParseAndValidateOAuth2AccessToken(tok, nil); (err == nil) != want {
					x.Failf("key id %#v, key set URL %#v: got %v, want acceptance %v", kid, jku, err, want)
				}
				x.Eval(fmt.Sprintf("%#v %#v", kid, jku))
			}
		}
	}}
}

// c22checks: a check over any number of roles ends with everything it started.
func c22checks() *Scenario {
	return &Scenario{Name: "checks-end", Cfg: vs.Config{NoSched: true, SelOrder: true, Horizon: 200_000_000}, D: 1, DT: 2, Body: func(x *vs.Exec) {
		n := []int{1, 2, 3, 4, 5, 8, 16, 33, 100}[x.Choose(9)]
		var pol, roles = P{}, []string{}
		kind := x.Choose(4)
		pos := 0
		if kind != 0 {
			pos = []int{0, n / 2, n - 1}[x.Choose(3)]
		}
		for i := 0; i < n; i++ {
			r := fmt.Sprint("r", i)
			roles = append(roles, r)
			switch {
			case kind == 1 && i == pos, kind == 2 && i >= pos, kind == 3 && i != pos:
				pol = append(pol, A{Role: r, Action: "a", Resource: "d:x", Effect: "DENY"})
			default:
				pol = append(pol, A{Role: r, Action: "a", Resource: "d:x", Effect: "ALLOW"})
			}
		}
		ctx, cancel := withCancel()
		w := newPolWorld(x, polCfg{}, Doc{Domain: "d", Expires: day, Pols: []P{pol}})
		w.net.quiet = true
		if err := w.d.Update(ctx); err != nil {
			x.Failf("Update: %v", err)
		}
		x.Settle()
		before := len(leftovers(x))
		cctx, ccancel := withCancel()
		for i := 0; i < 3; i++ {
			got := w.check(cctx, "d", roles, "a", "x")
			if want := map[bool]string{true: "allow", false: "deny"}[kind == 0 || kind == 3 && n == 1]; got.Kind != want {
				x.Failf("%d roles, kind %d at %d: %v, want %s", n, kind, pos, got, want)
			}
		}
		x.Settle()
		if l := leftovers(x); len(l) > before {
			x.Failf("%d roles, denials of kind %d at %d: goroutines left by checks: %s", n, kind, pos, strings.Join(l, ", "))
		}
		ccancel()
		w.check(cctx, "d", roles, "a", "x")
		x.Settle()
		if l := leftovers(x); len(l) > before {
			x.Failf("%d roles, denials of kind %d at %d: goroutines left by a cancelled check: %s", n, kind, pos, strings.Join(l, ", "))
		}
		cancel()
		x.Eval(fmt.Sprint(n, kind, pos))
	}}
}

// c28attempts: every number of retries is the number of retries made.
func c28attempts() *Scenario {
	return &Scenario{Name: "retry-counts", Cfg: seqCfg, Body: func(x *vs.Exec) {
		for n := 1; n <= 1000; n++ {
			if n > 70 && n%50 > 1 && n != 128 && n != 256 && n != 257 && n != 512 {
				continue
			}
			reqs := 0
			w := newAuthServer(x)
			w.net.quiet = true
			w.answer = func(kind, name string, r *http.Request) *Ans {
				if kind != rqPolicy {
					return nil
				}
				reqs++
				return status(503)
			}
			a, err := authz.New(authz.WithAthenzURL(athenzURL), authz.WithHTTPClient(w.net.client()), authz.WithAthenzDomains("d"), authz.WithPolicyRetryAttempts(n), authz.WithPolicyRetryDelay("1ms"))
			if err != nil {
				x.Failf("New: %v", err)
			}
			if err := a.Init(background()); err == nil || reqs != n+1 {
				x.Failf("%d retries set: %d requests, error %v", n, reqs, err)
			}
			x.Eval(fmt.Sprint(n))
		}
	}}
}

// c19many: rules with many segments, parameters, placeholders, occurrences, rules and domains.
func c19many(thorough bool) *Scenario {
	return &Scenario{Name: "many-parts", Cfg: seqCfg, Body: func(x *vs.Exec) {
		kind := x.Choose(5)
		ns := []int{1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 26, 31, 32, 33, 64, 65}
		if thorough {
			ns = append(ns, 127, 128, 129, 255, 256, 257)
		}
		n := ns[x.Choose(len(ns))]
		hole := func(i int) string { return fmt.Sprintf("{p%d}", i) }
		path, query, res, rp := "/a", "", "", "/a"
		rq := ""
		for i := 0; i < n; i++ {
			switch kind {
			case 0: // in the path
				path += "/" + hole(i)
				rp += fmt.Sprintf("/v%d", i)
			case 1: // in the query
				query += fmt.Sprintf("&q%d=%s", i, hole(i))
				rq += fmt.Sprintf("&q%d=v%d", i, i)
			case 2: // texts, and one placeholder
				path += fmt.Sprintf("/s%d", i)
				rp += fmt.Sprintf("/s%d", i)
				query += fmt.Sprintf("&q%d=t%d", i, i)
				rq += fmt.Sprintf("&q%d=t%d", i, i)
			}
			res += hole(n-1-i) + ":"
		}
		rules := map[string][]authz.Rule{}
		switch kind {
		case 3: // many rules, the same in part
			for i := 0; i < n; i++ {
				rules["d"] = append(rules["d"], authz.Rule{Method: "get", Path: fmt.Sprintf("/a/s%d/{p0}", i), Action: fmt.Sprint("act", i), Resource: "{p0}"})
			}
			rules["d"] = append(rules["d"], authz.Rule{Method: "get", Path: "/a/{p0}/{p1}", Action: "any", Resource: "{p1}{p0}"})
		case 4: // many domains
			for i := 0; i < n; i++ {
				rules[fmt.Sprint("d", i)] = []authz.Rule{{Method: "get", Path: "/a/{p0}/{p1}", Action: fmt.Sprint("act", i), Resource: "{p1}"}}
			}
		default:
			rules["d"] = []authz.Rule{{Method: "get", Path: path + "?" + strings.TrimPrefix(query, "&"), Action: "act", Resource: res + res}, {Method: "get", Path: "/a", Action: "other", Resource: "other"}}
		}
		mr, err := authz.NewMappingRules(rules)
		if err != nil {
			x.Failf("%v", err)
		}
		rq = strings.TrimPrefix(rq, "&")
		if kind > 2 {
			for i := 0; i <= n; i++ {
				for _, d := range []string{"d", fmt.Sprint("d", i)} {
					for _, p := range []string{fmt.Sprintf("/a/s%d/x", i), fmt.Sprintf("/a/s%d/{p0}", i), fmt.Sprintf("/a/s%d/{p1}", i)} {
						checkTranslate(x, mr, rules, d, "GET", p, "")
						x.Evals(1)
					}
				}
			}
			x.Eval(fmt.Sprint(kind, n))
			return
		}
		try := func(p, q string) {
			checkTranslate(x, mr, rules, "d", "get", p, q)
			x.Evals(1)
		}
		try(rp, rq)
		for i := 0; i < n; i++ { // one part is different, missing, additional, or looks like a placeholder
			for _, v := range []string{"", hole(i), hole((i + 1) % n), "z"} {
				seg, val := strings.Split(rp, "/"), strings.Split(rq, "&")
				if i+2 < len(seg) {
					seg[i+2] = v
					try(strings.Join(seg, "/"), rq)
				}
				if i < len(val) && val[i] != "" {
					name, _, _ := strings.Cut(val[i], "=")
					val[i] = name + "=" + v
					try(rp, strings.Join(val, "&"))
					val[i] = name + "x=" + v
					try(rp, strings.Join(val, "&"))
				}
			}
			seg, val := strings.Split(rp, "/"), strings.Split(rq, "&")
			if i+2 < len(seg) {
				try(strings.Join(append(seg[:i+2:i+2], seg[i+3:]...), "/"), rq)
			}
			if i < len(val) {
				try(rp, strings.Join(append(val[:i:i], val[i+1:]...), "&"))
				try(rp, rq+"&"+val[i])
			}
		}
		try(rp+"/z", rq)
		try(rp, rq+"&z=1")
		x.Eval(fmt.Sprint(kind, n))
	}}
}

type fixedTranslator struct{ act, res string }

func (t *fixedTranslator) Translate(domain, method, path, query string) (string, string, error) {
	return t.act, t.res, nil
}

// c20texts: the policies are asked for exactly the translated action and the prefix followed by the translated
// resource, whatever texts they are: every text has a role of its own.
func c20texts() *Scenario {
	texts := []string{"x", "d:x", "d:d:x", "e:x", ":x", "::x", "/x", "//x", "x/", "/x/", "xx", "X", " x", "x ", "x:", "p", "p:x", "pp", "p:p:x", "p/x", "%78", "x%20", "x#f", "x&y=z", "/x/../y", "/y", "./x", "https://h/x", "//h/x", "a b", "a+b", "x;y", "x,y", "{x}", "role.r", "d:role.r", "\u00e9x", "x.", "-", "0", long(300)}
	ress := append(append([]string(nil), texts...), "")
	return &Scenario{Name: "texts", Cfg: seqCfg, Body: func(x *vs.Exec) {
		prefix := []string{"", "p", "p:", "/", "d:", " ", "x", "/x/", "d", ":"}[x.Choose(10)]
		mode := []string{"none", "custom", "rules"}[x.Choose(3)]
		kind := []string{"role", "access"}[x.Choose(2)]
		var pol P
		var roles []string
		for i, t := range texts {
			pol = append(pol, A{Role: fmt.Sprint("act", i), Action: t, Resource: "d:" + prefix + "x", Effect: "ALLOW"})
			roles = append(roles, fmt.Sprint("act", i))
		}
		for i, t := range ress {
			pol = append(pol, A{Role: fmt.Sprint("res", i), Action: "a", Resource: "d:" + prefix + t, Effect: "ALLOW"})
			roles = append(roles, fmt.Sprint("res", i))
		}
		doc := Doc{Domain: "d", Expires: 1000 * day, Pols: []P{pol}}
		opts := []authz.Option{authz.WithResourcePrefix(prefix), authz.WithCacheExp(0)}
		ft := &fixedTranslator{}
		switch mode {
		case "custom":
			opts = append(opts, authz.WithTranslator(ft))
		case "rules":
			m, err := authz.NewMappingRules(map[string][]authz.Rule{"d": {{Method: "get", Path: "/?res={t}", Action: "a", Resource: "{t}"}, {Method: "get", Path: "/?r={t}", Action: "a", Resource: "x{t}x"}}})
			if err != nil {
				x.Failf("%v", err)
			}
			opts = append(opts, authz.WithTranslator(m))
		}
		w := newAuthWorld(x, []Doc{doc}, opts...)
		w.net.quiet = true
		w.pub["zts"] = cachedBody("c16k", func() []byte { return pubkeyDoc("zts", "ec1", "ec4") })
		w.init()
		as := doc.Asserts()
		t := RT{Domain: "d", Principal: "u", Roles: roles, Expires: day, Key: "ec4"}
		tok := t.unsigned() + ";s=" + c14sign("ec4", t.unsigned())
		if kind == "access" {
			tok = octToken(AT{Aud: "d", Sub: "u", Scp: roles, Exp: day})
		}
		ask := func(rq areq, act, res string) {
			v := refDecide(as, "d", roles, act, prefix+res)
			p, err := rq.do(w.a)
			if (err == nil) != (v.Kind == "allow") {
				x.Failf("prefix %q, action %q resource %q: got %v, want %v", prefix, act, res, err, v)
			}
			if err != nil {
				return
			}
			if got := roleSet(p.AuthorizedRoles()); got != v.Roles {
				x.Failf("prefix %q, action %q resource %q: authorised %s, want %s", prefix, act, res, got, v.Roles)
			}
			x.Evals(1)
		}
		direct := func(act, res string) areq { return areq{kind: kind, tok: tok, act: act, res: res} }
		for _, s := range ress {
			switch mode {
			case "none":
				if s != "" {
					ask(direct("a", s), "a", s)
					ask(direct(s, "x"), s, "x")
				}
			case "custom":
				ft.act, ft.res = "a", s
				ask(direct("any", "thing"), "a", s)
				ft.act, ft.res = s, "x"
				ask(direct("any", "thing"), s, "x")
			case "rules":
				for i, n := range []string{"res", "r"} {
					rq := areq{kind: "http", act: "get", res: "/", query: n + "=" + url.QueryEscape(s)}
					if kind == "role" {
						rq.role = tok
					} else {
						rq.tok = tok
					}
					ask(rq, "a", []string{s, "x" + s + "x"}[i])
				}
				if s != "" { // no rule matches
					ask(direct("a", s), "a", s)
					ask(direct(s, "x"), s, "x")
				}
			}
		}
		x.Eval(prefix + mode + kind)
	}}
}
