package main

import (
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	authz "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/jwk"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
	"github.com/yahoojapan/athenz-authorizer/v5/role"

	"vs"
)

func init() {
	register(&Check{
		ID:        "C25",
		Rule:      "every answer of a shape grammar (statuses x entity tags x JSON shapes, correctly signed where a signature is needed) to policy, key and JWK requests, before and after good data was loaded; every credential shape through every entry point in every combination of enabled and disabled parts; verdict: no panic, no endless wait, data in use unchanged after an error",
		Scenarios: c25,
	})
}

var statuses25 = []int{200, 304, 204, 206, 301, 302, 400, 401, 404, 429, 500, 503, 599}

// policyBodies are bodies of policy answers; those with signatures are correctly signed.
func policyBodies() map[string][]byte {
	out := map[string][]byte{}
	for _, s := range []string{"", "null", "[]", "{}", "true", "1", `"x"`, "[null]", `{"signedPolicyData":null}`, `{"signedPolicyData":{}}`, `{"signedPolicyData":[]}`,
		`{"signedPolicyData":{"expires":null}}`, `{"signedPolicyData":{"expires":1}}`, `{"keyId":1}`, `{"keyId":null,"signature":null}`, "\x00", "{", `{"a":`, "nul", "[[[[[[[[[[", strings.Repeat("[", 20000),
		`{"signedPolicyData":{"expires":"2024-03-02T12:00:00.000Z"}}`, `{"signedPolicyData":{"expires":"2024-03-02T12:00:00.000Z","policyData":null}}`} {
		n := s
		if len(n) > 60 {
			n = n[:20] + "..."
		}
		out["raw "+n] = []byte(s)
	}
	for _, pd := range []string{"null", "{}", `{"policies":null}`, `{"policies":[]}`, `{"policies":[null]}`, `{"domain":"d","policies":[{}]}`, `{"domain":"d","policies":[{"assertions":null}]}`,
		`{"domain":"d","policies":[{"assertions":[null]}]}`, `{"domain":"d","policies":[{"assertions":[{}]}]}`, `{"domain":"d","policies":[{"assertions":[{"role":"d:role.r","action":"*","effect":"ALLOW"}]}]}`,
		`{"domain":"d","policies":[{"assertions":[{"role":"","action":"","resource":":","effect":""}]}]}`, `{"domain":"d","policies":[{"assertions":[{"role":"d:role.r","action":"(","resource":"d:[","effect":"ALLOW"}]}]}`,
		`{"domain":"d","policies":[{"assertions":[{"role":"d:role.r","action":"\\","resource":"d:\\Q","effect":"ALLOW"},null]},null]}`,
		`{"domain":"d","policies":[{"assertions":[{"role":"d:role.r","action":"\ud800","resource":"d:\u0000","effect":"X"}]}]}`,
		`{"domain":"other","policies":[{"name":"x","modified":null,"assertions":[{"role":"d:role.r","action":"a","resource":"d:x","effect":"ALLOW"}]}]}`} {
		for _, exp := range []string{`"2024-03-02T12:00:00.000Z"`, `"9999-12-31T23:59:59.999Z"`, `"0001-01-01T00:00:00.000Z"`, `""`} {
			body := fmt.Sprintf(`{"expires":%s,"modified":null,"policyData":%s,"zmsKeyId":"ec2","zmsSignature":"`, exp, pd)
			var s util.SignedPolicyData
			if json.Unmarshal([]byte(body+`"}`), &s) != nil {
				continue
			}
			p, _ := json.Marshal(s.PolicyData)
			sig := fakeSign("zms", "ec2", string(p))
			body += sig + `"}`
			s = util.SignedPolicyData{}
			json.Unmarshal([]byte(body), &s)
			e, _ := json.Marshal(&s)
			out["signed "+exp+" "+pd] = []byte(fmt.Sprintf(`{"keyId":"ec1","signature":%q,"signedPolicyData":%s}`, fakeSign("zts", "ec1", string(e)), body))
		}
	}
	return out
}

func c25policy(x *vs.Exec) {
	bodies := policyBodies()
	names := keys(bodies)
	st := statuses25[x.Choose(len(statuses25))]
	pre := x.Choose(3) // nothing held, a document without a tag, with a tag
	good := Doc{Domain: "d", Expires: day, Pols: []P{{{"r", "a", "d:x", "ALLOW"}, {"s", "a", "d:x", "DENY"}}}}
	for _, n := range names {
		for _, tag := range []string{"", "t"} {
			w := newPolWorld(x, polCfg{attempts: 1, delay: "1ms", margin: "1m", purge: "1000h"}, good)
			w.net.quiet = true
			if pre == 2 {
				w.publish(good, "g")
			}
			if pre > 0 {
				if err := w.d.Update(background()); err != nil {
					x.Failf("initial update: %v", err)
				}
			}
			what := fmt.Sprintf("status %d etag %q body %s, before: %d", st, tag, n, pre)
			x.Label("answer", what)
			w.answer = func(dom string, r *http.Request) *Ans {
				a := &Ans{Status: st, Body: bodies[n], Hdr: map[string]string{}}
				if tag != "" {
					a.Hdr["ETag"] = tag
				}
				if st == 301 || st == 302 {
					a.Hdr["Location"] = "https://elsewhere.example/loop/domain/d/signed_policy_data"
				}
				return a
			}
			before, _ := dumpOf(w.d.GetPolicyCache(background()))
			err := w.d.Update(background())
			after, _ := dumpOf(w.d.GetPolicyCache(background()))
			if err != nil && before != after {
				x.Failf("%s: refresh fails (%v) but the policies in use changed from\n%s\nto\n%s", what, err, before, after)
			}
			if pre > 0 && st != 200 && before != after {
				x.Failf("%s: the policies in use changed from\n%s\nto\n%s", what, before, after)
			}
			w.check(background(), "d", []string{"r", "s", ""}, "a", "x")
			w.check(background(), "", nil, "", "")
			w.d.Update(background())
			w.check(background(), "d", []string{"r"}, "a", "x")
			x.Eval(what)
		}
	}
}

func c25policyNoKeys(x *vs.Exec) {
	// a policy daemon whose public keys are disabled
	good := Doc{Domain: "d", Expires: day, Pols: []P{{{"r", "a", "d:x", "ALLOW"}}}}
	n := newNet(x, func(r *http.Request) *Ans { return ok200("doc", good.Raw(), "") })
	d, err := policy.New(policy.WithAthenzURL(athenzURL), policy.WithAthenzDomains("d"), policy.WithHTTPClient(n.client()), policy.WithRetryAttempts(1))
	if err != nil {
		x.Failf("policy.New: %v", err)
	}
	if d.Update(background()) == nil {
		x.Failf("a document is accepted without any key")
	}
	x.Eval("no keys")
}

func c25pubkey(x *vs.Exec) {
	pem := string(pubkeyDoc("zts", "k=ec1"))
	pem = pem[strings.Index(pem, `"key":"`)+7:]
	pem = pem[:strings.Index(pem, `"`)]
	bodies := []string{"", "null", "[]", "{}", "1", `"x"`, "[null]", `{"publicKeys":null}`, `{"publicKeys":[]}`, `{"publicKeys":[null]}`, `{"publicKeys":[{}]}`, `{"publicKeys":[{"id":null,"key":null}]}`,
		`{"publicKeys":[{"id":"k","key":"!!!"}]}`, `{"publicKeys":[{"id":"k","key":"LS0tLS1CRUdJTi--"}]}`, `{"publicKeys":[{"id":"k","key":"LS0t"},{"id":"k2","key":"` + pem + `"}]}`, `{"publicKeys":[{"id":"k2","key":"` + pem + `"},null]}`,
		`{"publicKeys":{}}`, `{"publicKeys":"x"}`, `{"publicKeys":[{"id":1}]}`, `{"publicKeys":[{"id":"k","key":"` + pem + `"},{"id":"k","key":"` + pem + `"}]}`, "{", `{"publicKeys":[`, strings.Repeat("[", 20000), `{"name":1}`, `{"publicKeys":[{"id":"","key":"` + pem + `"}]}`}
	st := statuses25[x.Choose(len(statuses25))]
	pre := x.Choose(3)
	for _, svc := range []string{"zts", "zms", "both"} {
		for _, tag := range []string{"", "t"} {
			for _, b := range bodies {
				n := len(b)
				if n > 80 {
					n = 80
				}
				what := fmt.Sprintf("service %s status %d etag %q body %s before %d", svc, st, tag, b[:n], pre)
				x.Label("answer", what)
				w := newAuthServer(x)
				w.net.quiet = true
				if pre == 2 {
					w.pubTag["zts"], w.pubTag["zms"] = "g1", "g2"
				}
				d, err := pubkey.New(pubkey.WithAthenzURL(athenzURL), pubkey.WithHTTPClient(w.net.client()))
				if err != nil {
					x.Failf("pubkey.New: %v", err)
				}
				if pre > 0 {
					if err := d.Update(background()); err != nil {
						x.Failf("initial: %v", err)
					}
				}
				p := d.GetProvider()
				look := func() string {
					s := ""
					for _, e := range []pubkey.AthenzEnv{pubkey.EnvZTS, pubkey.EnvZMS, "x"} {
						for _, id := range []string{"ec1", "ec2", "rsa1", ""} {
							s += fmt.Sprintf("%s/%s:%v ", e, id, p(e, id) != nil)
						}
					}
					return s
				}
				before := look()
				w.answer = func(kind, name string, r *http.Request) *Ans {
					if svc != "both" && name != svc {
						return nil
					}
					a := &Ans{Status: st, Body: []byte(b), Hdr: map[string]string{}}
					if tag != "" {
						a.Hdr["ETag"] = tag
					}
					if st == 301 || st == 302 {
						a.Hdr["Location"] = "https://elsewhere.example/domain/sys.auth/service/" + name
					}
					return a
				}
				err = d.Update(background())
				after := look()
				if (err != nil || st != 200) && pre > 0 && before != after {
					x.Failf("%s: result %v, keys in use changed from %s to %s", what, err, before, after)
				}
				d.Update(background())
				look()
				// good answers again: everything recovers
				w.answer = nil
				if err := d.Update(background()); err != nil {
					x.Failf("%s: does not recover: %v", what, err)
				}
				if p(pubkey.EnvZTS, "ec1") == nil || p(pubkey.EnvZMS, "ec2") == nil {
					x.Failf("%s: refresh reports success but the keys are missing", what)
				}
				x.Eval(what)
			}
		}
	}
}

func c25jwk(x *vs.Exec) {
	good := string(jwksDoc("ec3"))
	one := good[strings.Index(good, "[")+1 : strings.LastIndex(good, "]")]
	bodies := []string{"", "null", "[]", "{}", "1", `"x"`, "[null]", `{"keys":null}`, `{"keys":[]}`, `{"keys":[null]}`, `{"keys":[{}]}`, `{"keys":{}}`, `{"keys":"x"}`, `{"keys":[1]}`,
		`{"keys":[{"kty":"oct","kid":"ec3","k":""}]}`, `{"keys":[{"kty":"oct","kid":"ec3"}]}`, `{"keys":[{"kty":"RSA","kid":"ec3"}]}`, `{"keys":[{"kty":"RSA","kid":"ec3","n":"","e":""}]}`, `{"keys":[{"kty":"RSA","kid":"ec3","n":"AQAB","e":"AQAB"}]}`,
		`{"keys":[{"kty":"EC","kid":"ec3","crv":"P-256","x":"AA","y":"AA"}]}`, `{"keys":[{"kty":"EC","kid":"ec3","crv":"P-999","x":"AA","y":"AA"}]}`, `{"keys":[{"kty":"OKP","kid":"ec3","crv":"Ed25519","x":"AA"}]}`, `{"keys":[{"kty":"OKP","kid":"ec3","crv":"X25519","x":"AA"}]}`,
		`{"keys":[{"kty":"EC","kid":"ec3"}]}`, `{"keys":[{"kty":null,"kid":null}]}`, one, `{"keys":[` + one + `,null]}`, `{"keys":[` + one + `,` + one + `]}`, "{", `{"keys":[`, strings.Repeat("[", 5000), good, `{"keys":[{"kty":"EC","crv":"P-256","x":"","y":"","kid":"ec3"}]}`,
		`{"keys":[{"kty":"oct","kid":5,"k":"AA"}]}`}
	st := statuses25[x.Choose(len(statuses25))]
	pre := x.Choose(2)
	toks := []string{AT{Aud: "d", Sub: "u", Scp: []string{"r"}, Exp: day}.String(),
		AT{Aud: "d", Sub: "u", Scp: []string{"r"}, Exp: day, Kid: "ec3", Key: "rsa2"}.String(),
		AT{Aud: "d", Sub: "u", Scp: []string{"r"}, Exp: day, Kid: "ec3", Alg: "HS256", Key: "hmac:x"}.String()}
	for _, b := range bodies {
		n := len(b)
		if n > 80 {
			n = 80
		}
		what := fmt.Sprintf("status %d body %s before %d", st, b[:n], pre)
		x.Label("answer", what)
		w := newAuthServer(x)
		w.net.quiet = true
		d, err := jwk.New(jwk.WithAthenzJwksURL(athenzURL), jwk.WithHTTPClient(w.net.client()))
		if err != nil {
			x.Failf("jwk.New: %v", err)
		}
		if pre > 0 {
			if err := d.Update(background()); err != nil {
				x.Failf("initial: %v", err)
			}
		}
		p := d.GetProvider()
		ap, err := access.New(access.WithJWKProvider(p))
		if err != nil {
			x.Failf("access.New: %v", err)
		}
		before := fmt.Sprint(p("ec3", ""))
		w.answer = func(kind, name string, r *http.Request) *Ans {
			a := &Ans{Status: st, Body: []byte(b), Hdr: map[string]string{}}
			if st == 301 || st == 302 {
				a.Hdr["Location"] = "https://elsewhere.example/oauth2/keys"
			}
			return a
		}
		err = d.Update(background())
		after := fmt.Sprint(p("ec3", ""))
		if err != nil && before != after {
			x.Failf("%s: refresh fails (%v) but the key changed", what, err)
		}
		for _, t := range toks {
			ap.ParseAndValidateOAuth2AccessToken(t, nil)
		}
		p("", "")
		p("nope", "nope")
		w.answer = nil
		if err := d.Update(background()); err != nil {
			x.Failf("%s: does not recover: %v", what, err)
		}
		if _, err := ap.ParseAndValidateOAuth2AccessToken(toks[0], nil); err != nil {
			x.Failf("%s: after recovery a good token is refused: %v", what, err)
		}
		x.Eval(what)
	}
}

func c25tokens() (rts, ats []string) {
	good := RT{Domain: "d", Principal: "u", Roles: []string{"r"}, Expires: day}
	rts = []string{"", ";", ";s=", "s=", "=", ";s=;s=", "v=Z1", "v=Z1;s=", "e=;s=x", "e=99999999999999999999;s=x", "t=-1;e=-1;s=x", "k=;s=", "r=;e=9999999999;k=ec1;s=" + realSign("ec1", "r=;e=9999999999;k=ec1"), good.String(), good.String() + ";", good.String()[1:],
		";;;;;;;s=", "\x00;s=\x00", "d=d;r=r;p=;e=9999999999;k=ec1;s=", "e=9223372036854775807;k=ec1;s=" + realSign("ec1", "e=9223372036854775807;k=ec1"), "k=ec1;e=9999999999;s=.._-", "e=9999999999;k=ec1;s=" + strings.Repeat("A", 10000)}
	g := AT{Aud: "d", Sub: "u", Scp: []string{"r"}, Exp: day}
	ats = []string{"", ".", "..", "...", "a.b.c", "e30.e30.", "e30.e30.e30", "bnVsbA.bnVsbA.", "bnVsbA.bnVsbA.bnVsbA", "W10.W10.x", g.String(), g.String() + ".", g.String()[:20], "Bearer", "Bearer " + g.String(),
		AT{Aud: "d", Sub: "u", Exp: day, NoKid: true}.String(), AT{Aud: "d", Exp: day, Hdr: map[string]any{"kid": 1}}.String(), AT{Aud: "d", Exp: day, Hdr: map[string]any{"kid": nil}}.String(), AT{Aud: "d", Exp: day, Hdr: map[string]any{"jku": 7}}.String(),
		AT{Aud: "d", Exp: day, Hdr: map[string]any{"alg": nil}}.String(), AT{Aud: "d", Exp: day, Hdr: map[string]any{"alg": 3}}.String(), AT{Aud: "d", Exp: day, Alg: "none"}.String(), AT{Aud: "d", Exp: day, Alg: "HS256", Key: "hmac:x", Kid: "ec3"}.String(),
		AT{Aud: "d", Exp: day, Alg: "PS256", Key: "rsa2"}.String(), AT{Aud: "d", Exp: day, Alg: "ES512", Key: "ec3"}.String(), AT{Aud: "d", Exp: day, Alg: "RS256", Key: "rsa2", Kid: "ec3"}.String(), AT{Aud: "d", Exp: day, Key: "ec3", Kid: "rsa2"}.String(),
		AT{Exp: day, Claims: map[string]any{"aud": []string{"d", "e"}}}.String(), AT{Exp: day, Claims: map[string]any{"scp": "r"}}.String(), AT{Exp: day, Claims: map[string]any{"scp": nil, "aud": nil, "sub": nil}}.String(),
		AT{Exp: day, Claims: map[string]any{"cnf": nil}}.String(), AT{Exp: day, Claims: map[string]any{"cnf": "x"}}.String(), AT{Exp: day, Claims: map[string]any{"cnf": map[string]any{"x5t#S256": 1, "proxy-principals#spiffe": 2}}}.String(),
		AT{Exp: day, Claims: map[string]any{"cnf": map[string]any{"proxy-principals#spiffe": []any{1, nil, "x"}}}}.String(), AT{Exp: day, Claims: map[string]any{"exp": 1e300}}.String(), AT{Exp: day, Claims: map[string]any{"exp": "x"}}.String(), AT{Exp: day, Claims: map[string]any{"iat": -1e18, "nbf": 0}}.String()}
	return
}

// c25auth: every combination of parts, every entry point, every credential shape.
func c25auth(x *vs.Exec) {
	bits := x.Choose(64)
	initd := x.Choose(2) == 1
	trans := x.Choose(2) == 1
	on := func(i int) bool { return bits>>i&1 == 1 }
	rules, err := authz.NewMappingRules(map[string][]authz.Rule{"d": {{Method: "a", Path: "/{p}?q={v}", Action: "a", Resource: "{p}{v}"}}})
	if err != nil {
		x.Failf("rules: %v", err)
	}
	opts := []authz.Option{authz.WithCacheExp(1)}
	pick := func(c bool, a, b authz.Option) {
		if c {
			opts = append(opts, a)
		} else {
			opts = append(opts, b)
		}
	}
	pick(on(0), authz.WithEnablePubkeyd(), authz.WithDisablePubkeyd())
	pick(on(1), authz.WithEnablePolicyd(), authz.WithDisablePolicyd())
	pick(on(2), authz.WithEnableJwkd(), authz.WithDisableJwkd())
	pick(on(3), authz.WithEnableRoleToken(), authz.WithDisableRoleToken())
	pick(on(4), authz.WithEnableRoleCert(), authz.WithDisableRoleCert())
	opts = append(opts, authz.WithAccessTokenParam(authz.NewAccessTokenParam(on(5), true, "1h", "1h", true, map[string][]string{"u": {"u"}})))
	if trans {
		opts = append(opts, authz.WithTranslator(rules))
	}
	x.Label("configuration", fmt.Sprintf("pubkeyd=%v policyd=%v jwkd=%v role=%v cert=%v access=%v init=%v translator=%v", on(0), on(1), on(2), on(3), on(4), on(5), initd, trans))
	w := newAuthServer(x)
	w.net.quiet = true
	w.publish(Doc{Domain: "d", Expires: day, Pols: []P{{{"r", "*", "d:*", "ALLOW"}}}})
	a, err := authz.New(append([]authz.Option{authz.WithAthenzURL(athenzURL), authz.WithHTTPClient(w.net.client()), authz.WithAthenzDomains("d"), authz.WithPolicyRetryAttempts(1), authz.WithPolicyRetryDelay("1ms")}, opts...)...)
	if err != nil {
		if on(3) || on(4) || on(5) {
			x.Failf("authorizerd.New: %v", err)
		}
		return
	}
	if initd {
		err := a.Init(background())
		if on(0) && err != nil {
			x.Failf("Init: %v", err)
		}
	}
	ctx := background()
	rts, ats := c25tokens()
	acc := 0
	certs := []*x509.Certificate{nil, {}, Crt{CN: "u", URIs: []string{"athenz://role/d/r", "x:", "spiffe://a"}}.cert(), Crt{CN: "d:role.r"}.cert()}
	do := func(what string, f func() error) {
		x.Label("call", what)
		if f() == nil {
			acc++
		}
		x.Eval("")
	}
	for _, act := range []string{"a", ""} {
		for _, t := range append(append([]string(nil), rts...), ats...) {
			t := t
			do("role token "+t, func() error { return a.VerifyRoleToken(ctx, t, act, "/x") })
			do("role token "+t, func() error { _, e := a.AuthorizeRoleToken(ctx, t, act, "/x"); return e })
		}
		for _, t := range append(append([]string(nil), ats...), rts...) {
			for _, c := range certs {
				t, c := t, c
				do("access token "+t, func() error { return a.VerifyAccessToken(ctx, t, act, "/x", c) })
				do("access token "+t, func() error { _, e := a.AuthorizeAccessToken(ctx, t, act, "/x", c); return e })
			}
		}
		for _, cs := range [][]*x509.Certificate{nil, {}, {{}}, certs[1:]} {
			cs := cs
			do("role certificate", func() error { return a.VerifyRoleCert(ctx, cs, act, "/x") })
			do("role certificate", func() error { _, e := a.AuthorizeRoleCert(ctx, cs, act, "/x"); return e })
		}
		for i, hdr := range []http.Header{nil, {}, {"Authorization": {""}}, {"Authorization": {"Bearer"}}, {"Authorization": {"bearer " + ats[10]}}, {"Authorization": {"Bearer " + ats[10], "x"}}, {"Authorization": {"Basic x"}}, {"Athenz-Role-Auth": {rts[13]}}, {"Athenz-Role-Auth": {}}, {"Athenz-Role-Auth": {"", ""}}} {
			for _, q := range []string{"", "q=1", "q=1&q=2", "%zz", ";"} {
				for _, tl := range []*tls.ConnectionState{nil, {}, {PeerCertificates: certs[1:]}} {
					r, _ := http.NewRequest("GET", "http://h/p", nil)
					r.URL.RawQuery = q
					r.Header = hdr
					r.TLS = tl
					do(fmt.Sprintf("request %d query %q", i, q), func() error { return a.Verify(r, act, "/x") })
					do(fmt.Sprintf("request %d query %q", i, q), func() error { _, e := a.Authorize(r, act, "/x"); return e })
				}
			}
		}
	}
	x.Label("call", "policy cache")
	a.GetPolicyCache(ctx)
	x.Eval(fmt.Sprintf("configuration %d init %v translator %v accepted %d", bits, initd, trans, acc))
}

// c25lifecycle: Start in every combination of parts, cancelled again, while the server is silent or broken.
func c25lifecycle(x *vs.Exec) {
	bits := x.Choose(8)
	mode := x.Choose(4)
	on := func(i int) bool { return bits>>i&1 == 1 }
	var opts []authz.Option
	if !on(0) {
		opts = append(opts, authz.WithDisablePubkeyd())
	}
	if !on(1) {
		opts = append(opts, authz.WithDisablePolicyd())
	}
	if !on(2) {
		opts = append(opts, authz.WithDisableJwkd())
	}
	w := newAuthWorld(x, []Doc{{Domain: "d", Expires: day}}, opts...)
	w.net.quiet = true
	w.answer = func(kind, name string, r *http.Request) *Ans {
		switch mode {
		case 1:
			return ok200("null", []byte("null"), "t")
		case 2:
			return status(304)
		case 3:
			return ok200("garbage", []byte("{"), "")
		}
		return nil
	}
	ctx, cancel := withCancel()
	w.a.Init(ctx)
	ech := w.a.Start(ctx)
	r := x.Spawn("reader", func() {
		for {
			if _, ok := vs.Recv2(ech); !ok {
				return
			}
		}
	})
	vs.Sleep(25 * 3600 * 1e9)
	cancel()
	r.Join()
	x.Eval(fmt.Sprint(bits, mode))
}

// durations that make no sense are refused or work, but never crash.
func c25durations(x *vs.Exec) {
	vals := []string{"0s", "-1s", "1ns", "-1ns", "0", "2540400h"}
	sets := []struct {
		name string
		f    func(string) authz.Option
	}{
		{"public key refresh period", authz.WithPubkeyRefreshPeriod}, {"public key retry delay", authz.WithPubkeyRetryDelay},
		{"eTag expiry", authz.WithPubkeyETagExpiry}, {"eTag purge period", authz.WithPubkeyETagPurgePeriod},
		{"policy expiry margin", authz.WithPolicyExpiryMargin}, {"policy refresh period", authz.WithPolicyRefreshPeriod},
		{"policy purge period", authz.WithPolicyPurgePeriod}, {"policy retry delay", authz.WithPolicyRetryDelay},
		{"JWK refresh period", authz.WithJwkRefreshPeriod}, {"JWK retry delay", authz.WithJwkRetryDelay},
		{"lifetime", func(s string) authz.Option { d, _ := time.ParseDuration(s); return authz.WithCacheExp(d) }},
	}
	set := sets[x.Choose(len(sets))]
	v := vals[x.Choose(len(vals))]
	bad := x.Choose(2) == 1
	x.Label("setting", set.name+" = "+v)
	opts := []authz.Option{set.f(v)}
	w, err := tryAuthWorld(x, []Doc{{Domain: "d", Expires: day, Pols: []P{{{"r", "a", "d:x", "ALLOW"}}}}}, opts...)
	x.Eval(fmt.Sprint(set.name, v, bad))
	if err != nil {
		x.Outcome("refused")
		return
	}
	w.net.quiet = true
	if bad {
		n := 0
		w.answer = func(kind, name string, r *http.Request) *Ans {
			if n++; n > 3 && n < 12 {
				return status(500)
			}
			return nil
		}
	}
	ctx, cancel := withCancel()
	w.a.Init(ctx)
	ech := w.a.Start(ctx)
	r := x.Spawn("reader", func() {
		for {
			if _, ok := vs.Recv2(ech); !ok {
				return
			}
		}
	})
	rt := RT{Domain: "d", Principal: "u", Roles: []string{"r"}, Expires: day}
	for i := 0; i < 5; i++ {
		w.a.VerifyRoleToken(ctx, rt.String(), "a", "x")
		if d, _ := time.ParseDuration(v); d > 0 && d < time.Second {
			vs.Sleep(5 * d)
		} else {
			vs.Sleep(3 * time.Hour)
		}
	}
	cancel()
	r.Join()
	x.Outcome("ran")
}

func c25procs(x *vs.Exec) {
	// processors without providers
	rts, ats := c25tokens()
	rp, err := role.New()
	if err != nil {
		x.Failf("role.New: %v", err)
	}
	ap, err := access.New()
	if err != nil {
		x.Failf("access.New: %v", err)
	}
	for _, t := range append(rts, ats...) {
		x.Label("token", t)
		if _, err := rp.ParseAndValidateRoleToken(t); err == nil {
			x.Failf("a role token is accepted without any key")
		}
		if _, err := ap.ParseAndValidateOAuth2AccessToken(t, nil); err == nil {
			x.Failf("an access token is accepted without any key")
		}
		x.Eval(t)
	}
}

func c25(thorough bool) []*Scenario {
	return []*Scenario{
		{Name: "policy-answers", Cfg: seqCfg, Body: c25policy},
		{Name: "policy-without-keys", Cfg: seqCfg, Body: c25policyNoKeys},
		{Name: "pubkey-answers", Cfg: seqCfg, Body: c25pubkey},
		{Name: "jwk-answers", Cfg: seqCfg, Body: c25jwk},
		{Name: "entry-points", Cfg: seqCfg, Body: c25auth},
		{Name: "processors-without-keys", Cfg: seqCfg, Body: c25procs},
		{Name: "lifecycle", Cfg: seqCfg, Body: c25lifecycle},
		{Name: "durations", Cfg: seqCfg, Body: c25durations},
		c25shapes(),
	}
}
