package main

import (
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"math/big"
	"net/http"
	"strings"
	"time"

	authz "github.com/yahoojapan/athenz-authorizer/v5"

	"vs"
	vc "vs/context"
)

func init() {
	register(&Check{
		ID:        "C15",
		Rule:      "every ordered pair of requests (both orders) over adversarial alphabets: all strings over {letter, ':', '\\\\'} up to a length as action and resource, tokens with appended text, certificates whose names contain delimiters, other certificates with the same names, other kinds of credential with the same text, queries; decision and principal with memory = decision and principal of a fresh instance",
		Scenarios: c15,
	})
	register(&Check{
		ID:        "C16",
		Rule:      "every sequence of requests, clock advances and changes of policies and keys up to the depth bound, for several lifetimes; an acceptance needs a true evaluation within the lifetime before, a request that would be allowed is accepted at once; every operation sequence (with clock advances, hooks and the expiry daemon) of the cache stand-in agrees with the real cache run on the same virtual clock, every interleaving of concurrent operations of the real cache has the results of some order of the indivisible operations of the stand-in",
		Scenarios: c16,
	})
	register(&Check{
		ID:        "C17",
		Rule:      "every configuration x every combination of Authorization header, role header, TLS connection and requested action; reference: disjunction of the enabled kinds; every verify form against its authorize form",
		Scenarios: c17,
	})
	register(&Check{
		ID:        "C18",
		Rule:      "every list of up to two (thorough three) certificates over an alphabet of common names and URIs x policy documents x prefixes x map order; reference: role extraction and policy decision",
		Scenarios: c18,
	})
}

// areq is one authorisation request.
type areq struct {
	kind          string // role, access, http
	tok, act, res string
	crt           *x509.Certificate
	crtName       string
	query         string
	role          string // http: role header
}

func (r areq) String() string {
	return fmt.Sprintf("%s token %q action %q resource %q query %q certificate %s role header %q", r.kind, r.tok, r.act, r.res, r.query, r.crtName, r.role)
}

func (r areq) do(a authz.Authorizerd) (authz.Principal, error) { return r.doCtx(background(), a) }

func (r areq) doCtx(ctx vc.Context, a authz.Authorizerd) (authz.Principal, error) {
	switch r.kind {
	case "role":
		return a.AuthorizeRoleToken(ctx, r.tok, r.act, r.res)
	case "access":
		return a.AuthorizeAccessToken(ctx, r.tok, r.act, r.res, r.crt)
	case "cert":
		return nil, a.VerifyRoleCert(ctx, []*x509.Certificate{r.crt}, r.act, r.res)
	}
	q := &http.Request{Method: "GET", Header: http.Header{}, Host: "h"}
	q, _ = http.NewRequest("GET", "http://h/", nil)
	q.URL.RawQuery = r.query
	if r.tok != "" {
		q.Header.Set("Authorization", "Bearer "+r.tok)
	}
	if r.role != "" {
		q.Header.Set("Athenz-Role-Auth", r.role)
	}
	if r.crt != nil {
		q.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{r.crt}}
	}
	return a.Authorize(q.WithContext(ctx), r.act, r.res)
}

func outcome(p authz.Principal, err error) string {
	if err != nil {
		return "rejected"
	}
	return "accepted " + princ(p)
}

// strs is every string over the letters up to the given length, the empty one excluded.
func strs(letters []string, max int) []string {
	out := []string{}
	prev := []string{""}
	for i := 0; i < max; i++ {
		var next []string
		for _, p := range prev {
			for _, l := range letters {
				next = append(next, p+l)
			}
		}
		out = append(out, next...)
		prev = next
	}
	return out
}

func c15(thorough bool) []*Scenario {
	var out []*Scenario
	run := func(name string, variants int, mk func(x *vs.Exec, v int) ([]areq, func() *authWorld)) {
		const split = 16
		out = append(out, &Scenario{Name: name, Cfg: seqCfg, Body: func(x *vs.Exec) {
			v := x.Choose(variants)
			part := x.Choose(split)
			reqs, world := mk(x, v)
			x.Label("requests", fmt.Sprintf("%d, variant %d", len(reqs), v))
			// this part: every pair with its first request in part; the others stay in the sequence, so all pairs are met
			truth := make([]string, len(reqs))
			lazy := func(i int) string {
				if truth[i] == "" {
					w := world()
					truth[i] = outcome(reqs[i].do(w.a))
				}
				return truth[i]
			}
			for _, dir := range []int{1, -1} {
				w := world()
				first := map[int]string{}
				for k := range reqs {
					i := k
					if dir < 0 {
						i = len(reqs) - 1 - k
					}
					got := outcome(reqs[i].do(w.a))
					first[i] = got
					// the decision of a fresh instance, shared out over the parts
					if i%split == part {
						if want := lazy(i); got != want {
							// find the earlier request whose acceptance was used
							other := "?"
							for j := range reqs {
								w2 := world()
								reqs[j].do(w2.a)
								if outcome(reqs[i].do(w2.a)) != want {
									other = reqs[j].String()
									break
								}
							}
							x.Failf("%s\n  decided afresh: %s\n  with memory: %s\n  after %s", reqs[i], want, got, other)
						}
						// again: served from memory
						if again := outcome(reqs[i].do(w.a)); again != truth[i] {
							x.Failf("%s\n  decided afresh: %s\n  when repeated: %s", reqs[i], truth[i], again)
						}
						x.Eval(fmt.Sprintf("%d %d %d", v, dir, i))
					}
				}
			}
		}})
	}
	allows := []P{
		{{"r", "?", "d:*", "ALLOW"}},
		{{"r", "??*", "d:*", "ALLOW"}, {"r", "*a", "d:?", "ALLOW"}},
		{{"r", "*:", "d:*", "ALLOW"}, {"r", "*\\", "d:*", "ALLOW"}, {"r", "*", "d::*", "ALLOW"}},
		{{"r", "*", "d:*", "ALLOW"}, {"r", "a", "d:*", "DENY"}, {"r", "a:a", "d:*", "DENY"}, {"r", "*", "d:a", "DENY"}},
	}
	letters := []string{"a", ":", "\\"}
	depth := 2
	if thorough {
		depth = 3
	}
	world := func(x *vs.Exec, pols []P, opts ...authz.Option) func() *authWorld {
		return func() *authWorld {
			w := newAuthWorld(x, []Doc{{Domain: "d", Expires: day, Pols: pols}}, append([]authz.Option{authz.WithCacheExp(time.Hour)}, opts...)...)
			w.net.quiet = true
			w.init()
			return w
		}
	}
	rt := RT{Domain: "d", Principal: "u", Roles: []string{"r"}, Expires: day}.String()
	rt2 := RT{Domain: "d", Principal: "u", Roles: []string{"r"}, Expires: day, Extra: ";x=a:a"}.String()
	at := octToken(AT{Aud: "d", Sub: "u", Scp: []string{"r"}, Exp: day})
	run("texts", len(allows), func(x *vs.Exec, v int) ([]areq, func() *authWorld) {
		var reqs []areq
		ss := strs(letters, depth)
		extra := []string{"%3A", "::a", "a%5C", "A", "a ", "\x00", "a\x00a", "a,a", "\"a\"", "a:a:a", "\\:a"}
		for _, k := range []string{"role", "access"} {
			t := rt
			if k == "access" {
				t = at
			}
			for _, tok := range []string{t, t + ":a", t + ":a:a", t + "\\", t + "\\:a"} {
				for _, a := range append(append([]string(nil), ss...), extra...) {
					for _, r := range append(append([]string(nil), ss...), extra...) {
						reqs = append(reqs, areq{kind: k, tok: tok, act: a, res: r})
					}
				}
			}
		}
		return reqs, world(x, []P{allows[v]})
	})
	run("kinds", 2, func(x *vs.Exec, v int) ([]areq, func() *authWorld) {
		var reqs []areq
		for _, tok := range []string{rt, rt2, at} {
			for _, a := range []string{"a", "a:a", "b"} {
				for _, r := range []string{"a", "a:a"} {
					reqs = append(reqs, areq{kind: "role", tok: tok, act: a, res: r}, areq{kind: "access", tok: tok, act: a, res: r})
					for _, tok2 := range []string{"", rt, at} {
						reqs = append(reqs, areq{kind: "http", tok: tok, role: tok2, act: a, res: r})
					}
				}
			}
		}
		if v == 0 {
			return reqs, world(x, []P{allows[0]})
		}
		return reqs, world(x, nil, authz.WithDisablePolicyd())
	})
	// certificates
	names := []string{"", "a", ":", "a:a", "a:", "\\", "\\:", ":a"}
	mkCert := func(iss, sub, salt string) *x509.Certificate {
		return Crt{Issuer: iss, CN: sub, Raw: fmt.Sprintf("%q %q %q", iss, sub, salt), NotBefore: -time.Minute}.cert()
	}
	for _, mode := range []string{"binding", "client", "binding-window", "off"} {
		mode := mode
		run("certificates-"+mode, 4, func(x *vs.Exec, v int) ([]areq, func() *authWorld) {
			var reqs []areq
			bound := mkCert("a", "a", "1")
			toks := []string{octToken(AT{Aud: "d", Sub: "u", Scp: []string{"r"}, Exp: day, Client: "a", Iat: -2 * time.Minute, Cnf: map[string]any{"x5t#S256": thumb(bound)}}),
				octToken(AT{Aud: "d", Sub: "u2", Scp: []string{"r"}, Exp: day, Client: "a:a", Iat: -2 * time.Minute, Cnf: map[string]any{"x5t#S256": thumb(mkCert("a:", "\\", "1"))}})}
			crts := []*x509.Certificate{nil}
			cn := []string{"none"}
			for _, i := range names {
				for _, s := range names {
					for _, salt := range []string{"1", "2"} {
						crts = append(crts, mkCert(i, s, salt))
						cn = append(cn, fmt.Sprintf("issuer %q subject %q salt %s", i, s, salt))
					}
				}
			}
			acts, ress := []string{"a", "a:a", ":a:a", "a:a:a", "\\:a"}, []string{"a", "a:a"}
			if v >= 2 { // policies disabled
				acts, ress = []string{"", "a"}, []string{"", "a:a"}
			}
			for _, tok := range append(toks, toks[0]+":a:a", toks[0]+":a") {
				for i, c := range crts {
					for _, a := range acts {
						for _, r := range ress {
							k := "access"
							if v%2 == 1 {
								k = "http"
							}
							reqs = append(reqs, areq{kind: k, tok: tok, act: a, res: r, crt: c, crtName: cn[i]})
						}
					}
				}
			}
			opts := []authz.Option{authz.WithAccessTokenParam(map[string]authz.AccessTokenParam{
				"binding":        authz.NewAccessTokenParam(true, true, "0s", "0s", false, nil),
				"binding-window": authz.NewAccessTokenParam(true, true, "0s", "1h", false, nil),
				"client":         authz.NewAccessTokenParam(true, false, "", "", true, map[string][]string{"a": {"a"}, ":": {"a:a"}, "a:a": {"a", "a:a"}}),
				"off":            authz.NewAccessTokenParam(true, false, "", "", false, nil),
			}[mode])}
			if v >= 2 {
				opts = append(opts, authz.WithDisablePolicyd())
			}
			return reqs, world(x, []P{allows[0]}, opts...)
		})
	}
	// queries
	run("queries", 3, func(x *vs.Exec, v int) ([]areq, func() *authWorld) {
		rules, err := authz.NewMappingRules(map[string][]authz.Rule{"d": {
			{Method: "get", Path: "/a?q={v}", Action: "a", Resource: "{v}"},
			{Method: "get", Path: "/a?v={v}", Action: "bb", Resource: "{v}"},
			{Method: "get", Path: "/{p}", Action: "cc", Resource: "x{p}"},
			{Method: "get", Path: "/a:q=a", Action: "a", Resource: "p"},
		}})
		if err != nil {
			x.Failf("rules: %v", err)
		}
		var reqs []areq
		for _, q := range []string{"", "q=a", "q=b", "v=a", "q=a&v=a", ":q=a", "q=a:q=a", "a", "\\", "q=a\\", "q=%61", "q=a%3A", "q=a:", "Q=a"} {
			for _, a := range []string{"get", "get:/a", "GET", "get:", "a"} {
				for _, r := range []string{"/a", "/b", "/a:q=a", "/a:", "q=a", "/a\\", "/a:q=a:q=a", "/a\\:q=a"} {
					reqs = append(reqs, areq{kind: "http", tok: at, act: a, res: r, query: q}, areq{kind: "http", role: rt, act: a, res: r, query: q})
					if q == "" {
						reqs = append(reqs, areq{kind: "access", tok: at, act: a, res: r}, areq{kind: "role", tok: rt, act: a, res: r})
					}
				}
			}
		}
		pols := []P{{{"r", "a", "d:a*", "ALLOW"}, {"r", "get", "d:/a:*", "ALLOW"}}}
		switch v {
		case 1:
			pols = []P{{{"r", "?*", "d:*", "ALLOW"}, {"r", "a", "d:*", "DENY"}}}
		case 2:
			return reqs, world(x, pols)
		}
		return reqs, world(x, pols, authz.WithTranslator(rules))
	})
	return append(out, c15similar())
}

// ---- C16 ---------------------------------------------------------------------

func spanText(s [2]time.Duration) string {
	if s[1] == 0 {
		return ""
	}
	return fmt.Sprintf(", tokens issued %v ago and valid for %v", s[0], s[1])
}

func c16(thorough bool) []*Scenario {
	var out []*Scenario
	depth := 5
	if thorough {
		depth = 6
	}
	// spans, if any, are the times a token may have been issued before its first
	// use and will be valid for after it; nothing says that a remembered
	// acceptance depends on them
	sequences := func(name, kind string, depth int, lives []time.Duration, spans [][2]time.Duration) {
		out = append(out, &Scenario{Name: name + "-" + kind, Cfg: seqCfg, Body: func(x *vs.Exec) {
			life := lives[x.Choose(len(lives))]
			span := [2]time.Duration{}
			if len(spans) > 0 {
				span = spans[x.Choose(len(spans))]
			}
			step := life
			if step <= 0 { // nothing is remembered
				step = time.Second
			}
			// events
			evs := []string{"request", "0.6 request", "almost request", "over request", "deny/allow", "unkey/key", "request2"}
			tail := 3 // enumerated inside
			var pre []int
			for i := 0; i < depth-tail; i++ {
				pre = append(pre, x.Choose(len(evs)))
			}
			n := 1
			for i := 0; i < tail; i++ {
				n *= len(evs)
			}
			for k := 0; k < n; k++ {
				seq := append([]int(nil), pre...)
				for i, v := 0, k; i < tail; i++ {
					seq = append(seq, v%len(evs))
					v /= len(evs)
				}
				allow := Doc{Domain: "d", Expires: x.Elapsed() + 10000*time.Hour, Pols: []P{{{"r", "a", "d:x", "ALLOW"}}}}
				deny := Doc{Domain: "d", Expires: x.Elapsed() + 10000*time.Hour, Pols: []P{{{"r", "a", "d:x", "ALLOW"}, {"r", "*", "d:*", "DENY"}}}}
				tr := &evalTranslator{}
				w := newAuthWorld(x, []Doc{allow}, authz.WithCacheExp(life), authz.WithTranslator(tr))
				w.net.quiet = true
				zts := cachedBody("c16k", func() []byte { return pubkeyDoc("zts", "ec1", "ec4") })
				w.pub["zts"] = zts
				w.init()
				denied, unkeyed := false, false
				expAt := []time.Duration{x.Elapsed() + max(step, 10*time.Second)*3/2, x.Elapsed() + 10000*time.Hour}
				if span[1] > 0 {
					expAt = []time.Duration{x.Elapsed() + span[1], x.Elapsed() + max(step, 10*time.Second)*3/2}
				}
				var toks []string
				for i, e := range expAt {
					if t := (RT{Domain: "d", Principal: fmt.Sprint("u", i), Roles: []string{"r"}, Issued: x.Elapsed() - span[0], Expires: e, Key: "rsa1"}); kind == "role" {
						t.Key = "ec4"
						toks = append(toks, t.unsigned()+";s="+c14sign("ec4", t.unsigned()))
					} else {
						toks = append(toks, octToken(AT{Aud: "d", Sub: fmt.Sprint("u", i), Scp: []string{"r"}, Iat: x.Elapsed() - span[0], Exp: e}))
					}
				}
				lastTrue := []time.Duration{-1 << 40, -1 << 40}
				story := fmt.Sprintf("lifetime %v%s:", life, spanText(span))
				for _, e := range seq {
					story += " " + evs[e]
					x.Label("events", story)
					switch evs[e] {
					case "deny/allow":
						denied = !denied
						if denied {
							w.publish(deny)
						} else {
							w.publish(allow)
						}
						if err := w.a.Init(background()); err != nil {
							x.Failf("refresh: %v", err)
						}
					case "unkey/key":
						unkeyed = !unkeyed
						if unkeyed {
							w.pub["zts"] = cachedBody("c16a", func() []byte { return pubkeyDoc("zts", "ec1") })
							w.jwks[athenzJWK] = cachedBody("c16b", func() []byte { return jwksDoc("ec3") })
						} else {
							nw := &authWorld{}
							nw.setDefaults()
							w.pub["zts"], w.jwks = zts, nw.jwks
						}
						if err := w.a.Init(background()); err != nil {
							x.Failf("refresh: %v", err)
						}
					default:
						t := 0
						switch evs[e] {
						case "request2":
							t = 1
						case "0.6 request":
							x.JumpBy(step * 6 / 10)
						case "almost request":
							x.JumpBy(step - time.Millisecond)
						case "over request":
							x.JumpBy(step + time.Millisecond)
						}
						tr.n = 0
						now := x.Elapsed()
						truth := !denied && !unkeyed && now < expAt[t]
						d := now - expAt[t]
						edge := d > -time.Second && d < time.Second // which second counts is not specified
						p, err := areq{kind: kind, tok: toks[t], act: "a", res: "x"}.do(w.a)
						if edge && !denied && !unkeyed {
							if tr.n > 0 && err == nil {
								lastTrue[t] = now
							}
							continue
						}
						if truth && err != nil {
							x.Failf("refused although token, keys and policies allow it: %v", err)
						}
						if !truth && err == nil && now-lastTrue[t] > life {
							x.Failf("accepted (%s) %v after the last time it was allowed", princ(p), now-lastTrue[t])
						}
						if truth && tr.n > 0 { // fully evaluated now, not answered from memory
							lastTrue[t] = now
						}
					}
				}
				x.Eval(story)
			}
		}})
	}
	for _, kind := range []string{"role", "access"} {
		sequences("sequences", kind, depth, []time.Duration{10 * time.Second, time.Minute, 0, -time.Second, 300 * time.Millisecond}, nil)
		sequences("lifetimes", kind, depth-2, []time.Duration{2 * time.Millisecond, 50 * time.Millisecond, time.Second, 1500 * time.Millisecond, 59 * time.Second, 61 * time.Second, 90 * time.Second, 2 * time.Minute, 10 * time.Minute, 61 * time.Minute, 7 * time.Hour, 30 * time.Hour, 10 * 24 * time.Hour, 25 * 24 * time.Hour}, nil)
		day := 24 * time.Hour
		sequences("token-ages", kind, depth-1, []time.Duration{10 * time.Second, time.Minute}, [][2]time.Duration{{0, time.Hour}, {0, day}, {time.Hour, 30 * day}, {0, 31 * day}, {40 * day, day}, {400 * day, 3650 * day}})
	}
	return append(out, cacheConformance(thorough)...)
}

// evalTranslator counts full evaluations: a request answered from memory is not translated.
type evalTranslator struct{ n int }

func (t *evalTranslator) Translate(domain, method, path, query string) (string, string, error) {
	t.n++
	return method, path, nil
}

// ---- C17 ---------------------------------------------------------------------

func c17(thorough bool) []*Scenario {
	pols := []P{{{"r", "a", "d:x", "ALLOW"}, {"r2", "b", "d:x", "ALLOW"}, {"r", "c", "d:x", "ALLOW"}, {"r2", "c", "d:x", "ALLOW"}, {"r", "d", "d:x", "DENY"}, {"r2", "d", "d:x", "ALLOW"}, {"r", "d", "d:x", "ALLOW"}}}
	bound := Crt{CN: "c", Raw: "bound"}.cert()
	type cred struct {
		name  string
		text  string
		who   string // principal if valid
		roles []string
		cert  bool // needs the bound certificate
	}
	rts := []cred{{"no role token", "", "", nil, false},
		{"role token of r", RT{Domain: "d", Principal: "ru", Roles: []string{"r"}, Expires: day}.String(), "ru", []string{"r"}, false},
		{"role token of r2", RT{Domain: "d", Principal: "ru2", Roles: []string{"r2"}, Expires: day}.String(), "ru2", []string{"r2"}, false},
		{"expired role token", RT{Domain: "d", Principal: "ru", Roles: []string{"r"}, Expires: -day}.String(), "", nil, false},
		{"forged role token", strings.Replace(RT{Domain: "d", Principal: "ru", Roles: []string{"r"}, Expires: day}.String(), "r=r", "r=r2", 1), "", nil, false},
	}
	ats := []cred{{"no access token", "", "", nil, false},
		{"access token of r", octToken(AT{Aud: "d", Sub: "au", Scp: []string{"r"}, Exp: day}), "au", []string{"r"}, false},
		{"access token of r2", octToken(AT{Aud: "d", Sub: "au2", Scp: []string{"r2"}, Exp: day}), "au2", []string{"r2"}, false},
		{"bound access token of r", octToken(AT{Aud: "d", Sub: "ab", Scp: []string{"r"}, Exp: day, Cnf: map[string]any{"x5t#S256": thumb(bound)}}), "ab", []string{"r"}, true},
		{"expired access token", octToken(AT{Aud: "d", Sub: "au", Scp: []string{"r"}, Exp: -day}), "", nil, false},
		{"role token as access token", rts[1].text, "", nil, false},
	}
	rts = append(rts, cred{"access token as role token", ats[1].text, "", nil, false})
	tlss := []struct {
		name string
		st   *tls.ConnectionState
		ok   bool
		any  bool
	}{{"no TLS", nil, false, false}, {"TLS without certificate", &tls.ConnectionState{}, false, false}, {"bound certificate", &tls.ConnectionState{PeerCertificates: []*x509.Certificate{bound}}, true, true},
		{"bound certificate first", &tls.ConnectionState{PeerCertificates: []*x509.Certificate{bound, Crt{CN: "z"}.cert()}}, true, true},
		{"bound certificate second", &tls.ConnectionState{PeerCertificates: []*x509.Certificate{Crt{CN: "z"}.cert(), bound}}, false, true}}
	headers := []string{"Bearer %s", "bearer %s", "BEARER %s", "Basic %s", "%s", "Bearer%s", "Bearer  %s"}
	var out []*Scenario
	out = append(out, &Scenario{Name: "http", Cfg: seqCfg, Body: func(x *vs.Exec) {
		bits := 1 + x.Choose(7)
		on := func(i int) bool { return bits>>i&1 == 1 }
		bind := x.Choose(2) == 1
		polOff := x.Choose(2) == 1
		hdr := []string{"", "X-Role", "Athenz-Role-Auth", "x-lower-ROLE"}[x.Choose(4)]
		opts := []authz.Option{authz.WithAccessTokenParam(authz.NewAccessTokenParam(on(0), bind, "0s", "0s", false, nil))}
		if on(1) {
			opts = append(opts, authz.WithEnableRoleToken())
		} else {
			opts = append(opts, authz.WithDisableRoleToken())
		}
		if on(2) {
			opts = append(opts, authz.WithEnableRoleCert())
		} else {
			opts = append(opts, authz.WithDisableRoleCert())
		}
		if hdr != "" {
			opts = append(opts, authz.WithRoleAuthHeader(hdr))
		} else {
			hdr = "Athenz-Role-Auth"
		}
		if polOff {
			opts = append(opts, authz.WithDisablePolicyd())
		}
		x.Label("configuration", fmt.Sprintf("access %v role %v cert %v binding %v policies off %v header %q", on(0), on(1), on(2), bind, polOff, hdr))
		w := newAuthWorld(x, []Doc{{Domain: "d", Expires: day, Pols: pols}}, opts...)
		w.net.quiet = true
		w.init()
		var as []A
		for _, a := range (Doc{Domain: "d", Pols: pols}).Asserts() {
			as = append(as, a)
		}
		for _, order := range []bool{true, false} {
			x.JumpBy(2 * time.Minute) // nothing is remembered
			for _, rt := range rts {
				for _, at := range ats {
					for _, t := range tlss {
						for _, f := range headers {
							for _, act := range []string{"a", "b", "c", "d", "e", ""} {
								r, _ := http.NewRequest("GET", "http://h/p?access_token="+ats[1].text, nil)
								r.TLS = t.st
								r.Header.Set("Other", rts[1].text)
								if rt.text != "" {
									r.Header.Set(hdr, rt.text)
								}
								if at.text != "" {
									r.Header.Set("Authorization", fmt.Sprintf(f, at.text))
								}
								allowed := func(roles []string) bool {
									if polOff {
										return true
									}
									return act != "" && refDecide(as, "d", roles, act, "x").Kind == "allow"
								}
								who := map[string]bool{}
								bearer := strings.HasPrefix(strings.ToLower(f), "bearer ")
								unspecified := (f == "Bearer  %s" || f == "%s") && at.text != "" // two blanks, no scheme
								if on(0) && at.who != "" && bearer && allowed(at.roles) && (!bind || at.cert && t.ok) {
									who[at.who] = true
								}
								if on(1) && rt.who != "" && allowed(rt.roles) {
									who[rt.who] = true
								}
								what := fmt.Sprintf("%s, %s as %q, %s, action %q", rt.name, at.name, f, t.name, act)
								x.Label("request", what)
								var ev, ea error
								var p authz.Principal
								if order {
									ev = w.a.Verify(r, act, "x")
									p, ea = w.a.Authorize(r, act, "x")
								} else {
									p, ea = w.a.Authorize(r, act, "x")
									ev = w.a.Verify(r, act, "x")
								}
								if (ev == nil) != (ea == nil) {
									x.Failf("%s: verify says %v, authorize says %v", what, ev, ea)
								}
								x.Evals(1)
								if unspecified {
									continue
								}
								if (ea == nil) != (len(who) > 0) {
									x.Failf("%s: got %v, acceptable principals %v", what, ea, who)
								}
								if ea == nil && (p == nil || !who[p.Name()]) {
									x.Failf("%s: accepted as %s, acceptable principals %v", what, princ(p), who)
								}
								for _, e := range []error{ev, ea} {
									if e != nil && !errors.Is(e, authz.ErrInvalidCredentials) {
										x.Failf("%s: error %v", what, e)
									}
								}
							}
						}
					}
				}
			}
		}
		x.Eval(fmt.Sprint(bits, bind, polOff, hdr))
	}})
	out = append(out, &Scenario{Name: "direct", Cfg: seqCfg, Body: func(x *vs.Exec) {
		bind := x.Choose(2) == 1
		polOff := x.Choose(2) == 1
		opts := []authz.Option{authz.WithAccessTokenParam(authz.NewAccessTokenParam(true, bind, "0s", "0s", false, nil))}
		if polOff {
			opts = append(opts, authz.WithDisablePolicyd())
		}
		w := newAuthWorld(x, []Doc{{Domain: "d", Expires: day, Pols: pols}}, opts...)
		w.net.quiet = true
		w.init()
		as := (Doc{Domain: "d", Pols: pols}).Asserts()
		for _, order := range []bool{true, false} {
			x.JumpBy(2 * time.Minute)
			for _, c := range append(append([]cred(nil), rts...), ats...) { // each is presented as both kinds
				if strings.Contains(c.name, "token as ") {
					continue
				}
				for _, act := range []string{"a", "b", "c", "d", "e", ""} {
					for _, res := range []string{"x", "y", ""} {
						for _, t := range tlss[:3] {
							isAT := strings.Count(c.text, ".") == 2 && strings.HasPrefix(c.text, "ey")
							ok := c.who != "" && (polOff || act != "" && res != "" && refDecide(as, "d", c.roles, act, res).Kind == "allow")
							var crt *x509.Certificate
							if t.ok {
								crt = bound
							}
							what := fmt.Sprintf("%s action %q resource %q %s", c.name, act, res, t.name)
							x.Label("request", what)
							for _, role := range []bool{true, false} {
								var ev, ea error
								var p authz.Principal
								v := func() {
									if role {
										ev = w.a.VerifyRoleToken(background(), c.text, act, res)
									} else {
										ev = w.a.VerifyAccessToken(background(), c.text, act, res, crt)
									}
								}
								if order {
									v()
								}
								if role {
									p, ea = w.a.AuthorizeRoleToken(background(), c.text, act, res)
								} else {
									p, ea = w.a.AuthorizeAccessToken(background(), c.text, act, res, crt)
								}
								if !order {
									v()
								}
								want := ok && role != isAT
								if !role && bind {
									want = want && c.cert && t.ok
								}
								if (ev == nil) != want || (ea == nil) != want {
									x.Failf("%s, as role token %v: verify says %v, authorize says %v, want acceptance %v", what, role, ev, ea, want)
								}
								if ea == nil && p.Name() != c.who {
									x.Failf("%s: principal %s", what, princ(p))
								}
								x.Evals(1)
							}
						}
					}
				}
			}
		}
		x.Eval(fmt.Sprint(bind, polOff))
	}})
	return out
}

// ---- C18 ---------------------------------------------------------------------

func c18(thorough bool) []*Scenario {
	cns := []string{"", "d:role.r", "d:role.rs", "dr:role.s", "e:role.r", "x", "d:role.", ":role.r", "d:role.a:role.b", "D:role.r", "d:rolexr", "d:role.r "}
	uris := [][]string{nil, {"athenz://role/d/r"}, {"athenz://role/d/rs"}, {"athenz://role/dr/s"}, {"athenz://role/e/r", "athenz://role/d/s"}, {"spiffe://d/r"}, {"athenz://role/d"}, {"athenz://role/d/r/s"}, {"Athenz://role/d/s"}, {"athenz://role/d/r", "athenz://role/d/rs", "athenz://role/d/r"}, {"athenz://other/d/r"}, {"custom:d/r", "athenz://role//r"}}
	docSets := [][]Doc{
		{{Domain: "d", Expires: day, Pols: []P{{{"r", "a", "d:x", "ALLOW"}, {"rs", "a", "d:x", "DENY"}, {"s", "a", "d:y", "ALLOW"}}}}, {Domain: "e", Expires: day, Pols: []P{{{"r", "a", "e:x", "DENY"}, {"r", "a", "e:y", "ALLOW"}}}}, {Domain: "dr", Expires: day, Pols: []P{{{"s", "a", "dr:x", "ALLOW"}, {"s", "b", "dr:x", "DENY"}}}}},
		{{Domain: "d", Expires: day, Pols: []P{{{"rs", "a", "d:*", "ALLOW"}, {"r", "a", "d:y", "DENY"}, {"d:role.a:role.b", "a", "d:x", "ALLOW"}}, {{"r/s", "*", "d:x", "ALLOW"}}}}, {Domain: "e", Expires: day, Pols: []P{{{"r", "*", "e:*", "ALLOW"}}}}, {Domain: "dr", Expires: day, Pols: []P{{{"s", "a", "dr:x", "DENY"}, {"s", "a", "dr:y", "ALLOW"}}}}},
		{{Domain: "d", Expires: day, Pols: []P{{{"r", "a", "d:x", "ALLOW"}, {"R", "a", "d:x", "DENY"}, {"R", "a", "d:y", "ALLOW"}, {"rs", "b", "d:x", "ALLOW"}}}}, {Domain: "D", Expires: day, Pols: []P{{{"r", "a", "D:x", "DENY"}, {"rs", "a", "D:y", "ALLOW"}}}}},
	}
	reqs := [][2]string{{"a", "x"}, {"a", "y"}, {"b", "x"}, {"A", "X"}}
	type cert struct {
		c    *x509.Certificate
		name string
	}
	var certs []cert
	for _, cn := range cns {
		for _, u := range uris {
			certs = append(certs, cert{Crt{CN: cn, URIs: u}.cert(), fmt.Sprintf("(%q %q)", cn, u)})
		}
	}
	// names differing only in case name different roles and domains, and what else a
	// certificate says does not matter: the server which accepted the connection
	// has verified it
	certs = append(certs, cert{Crt{CN: "d:role.R"}.cert(), "(CN R)"}, cert{Crt{URIs: []string{"athenz://role/d/R"}}.cert(), "(URI R)"}, cert{Crt{CN: "d:role.r", URIs: []string{"athenz://role/d/R"}}.cert(), "(CN r, URI R)"}, cert{Crt{CN: "D:role.r", URIs: []string{"athenz://role/d/r", "athenz://role/D/rs"}}.cert(), "(D, d)"})
	for i, cn := range []string{"d:role.r", "dr:role.s", "d:role.rs"} {
		c := Crt{CN: cn, URIs: []string{"athenz://role/e/r"}[:i%2]}.cert()
		c.IsCA, c.BasicConstraintsValid, c.MaxPathLen, c.KeyUsage = true, true, i, x509.KeyUsageCertSign
		certs = append(certs, cert{c, fmt.Sprintf("(%q CA)", cn)})
		c = Crt{CN: cn}.cert()
		c.NotBefore, c.NotAfter, c.SerialNumber, c.ExtKeyUsage, c.KeyUsage = vs.Base.Add(-2*day), vs.Base.Add(-day), big.NewInt(1), []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, x509.KeyUsageDigitalSignature
		c.Issuer, c.Version = c.Subject, 3
		certs = append(certs, cert{c, fmt.Sprintf("(%q old)", cn)})
	}
	for _, cn := range []string{"", "x", "dr:role.s"} {
		also := []string{"d:role.r", "athenz://role/d/r"}
		certs = append(certs, cert{Crt{CN: cn, Issuer: "d:role.r", Also: also}.cert(), fmt.Sprintf("(%q, elsewhere %q)", cn, also)})
	}
	want := func(docs []Doc, cs []cert, prefix, act, res string) bool {
		m := map[string][]string{}
		for _, c := range cs {
			if d, r, ok := strings.Cut(c.c.Subject.CommonName, ":role."); ok {
				m[d] = append(m[d], r)
			}
			for _, u := range c.c.URIs {
				if s := u.String(); strings.HasPrefix(s, prefix) {
					if d, r, ok := strings.Cut(s[len(prefix):], "/"); ok {
						m[d] = append(m[d], r)
					}
				}
			}
		}
		for d, rs := range m {
			for _, doc := range docs {
				if doc.Domain == d && refDecide(doc.Asserts(), d, rs, act, res).Kind == "allow" {
					return true
				}
			}
		}
		return false
	}
	prefixes := []string{"athenz://role/", "custom:", ""}
	mk := func(x *vs.Exec, docs []Doc, prefix string, opts ...authz.Option) *authWorld {
		opts = append(opts, authz.WithEnableRoleCert())
		if prefix != "" {
			opts = append(opts, authz.WithRoleCertURIPrefix(prefix))
		}
		w := newAuthWorld(x, docs, opts...)
		w.net.quiet = true
		w.init()
		return w
	}
	pfx := func(p string) string {
		if p == "" {
			return "athenz://role/"
		}
		return p
	}
	var out []*Scenario
	body := func(k int) func(x *vs.Exec) {
		return func(x *vs.Exec) {
			docs := docSets[x.Choose(len(docSets))]
			prefix := prefixes[x.Choose(len(prefixes))]
			var pre []cert
			for i := 0; i < k-1; i++ {
				pre = append(pre, certs[x.Choose(len(certs))])
			}
			w := mk(x, docs, prefix)
			for _, last := range certs {
				cs := append(append([]cert(nil), pre...), last)
				var raw []*x509.Certificate
				names := ""
				for _, c := range cs {
					raw = append(raw, c.c)
					names += c.name
				}
				for _, rq := range reqs {
					exp := want(docs, cs, pfx(prefix), rq[0], rq[1])
					x.Label("certificates", names)
					if err := w.a.VerifyRoleCert(background(), raw, rq[0], rq[1]); (err == nil) != exp {
						x.Failf("certificates %s, prefix %q, action %q resource %q: got %v, want acceptance %v", names, prefix, rq[0], rq[1], err, exp)
					}
					x.Evals(1)
				}
				x.Eval(names + prefix)
			}
			if err := w.a.VerifyRoleCert(background(), nil, "a", "x"); err == nil {
				x.Failf("no certificate is accepted")
			}
		}
	}
	out = append(out, c18similar(), &Scenario{Name: "one-certificate", Cfg: seqCfg, Body: body(1)}, &Scenario{Name: "two-certificates", Cfg: seqCfg, Body: body(2)})
	out = append(out, &Scenario{Name: "policies-disabled", Cfg: seqCfg, Body: func(x *vs.Exec) {
		c := certs[x.Choose(len(certs))]
		w := mk(x, docSets[0], "", authz.WithDisablePolicyd())
		for _, l := range [][]*x509.Certificate{nil, {}, {c.c}} {
			if err := w.a.VerifyRoleCert(background(), l, "a", "x"); err != nil {
				x.Failf("policies are disabled but %s is refused: %v", c.name, err)
			}
			if err := w.a.VerifyRoleCert(background(), l, "", ""); err != nil {
				x.Failf("policies are disabled but %s is refused: %v", c.name, err)
			}
		}
		x.Eval(c.name)
	}})
	// the order in which domains are looked at
	few := []cert{}
	for _, n := range [][2]int{{1, 4}, {4, 2}, {3, 1}, {1, 3}, {2, 3}, {4, 9}} {
		few = append(few, cert{Crt{CN: cns[n[0]], URIs: uris[n[1]]}.cert(), fmt.Sprintf("(%q %q)", cns[n[0]], uris[n[1]])})
	}
	ord := seqCfg
	ord.MapOrder = true
	out = append(out, &Scenario{Name: "domain-order", Cfg: ord, D: 6, DT: 8, Body: func(x *vs.Exec) {
		docs := docSets[x.Choose(len(docSets))]
		cs := []cert{few[x.Choose(len(few))], few[x.Choose(len(few))]}
		rq := reqs[x.Choose(2)]
		w := mk(x, docs, "")
		exp := want(docs, cs, "athenz://role/", rq[0], rq[1])
		if err := w.a.VerifyRoleCert(background(), []*x509.Certificate{cs[0].c, cs[1].c}, rq[0], rq[1]); (err == nil) != exp {
			x.Failf("certificates %s %s, action %q resource %q: got %v, want acceptance %v", cs[0].name, cs[1].name, rq[0], rq[1], err, exp)
		}
		x.Eval(fmt.Sprint(cs[0].name, cs[1].name, rq))
	}})
	return out
}
