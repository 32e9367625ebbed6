package main

import (
	"crypto/x509"
	"errors"
	"fmt"
	"strings"
	"time"

	authz "github.com/yahoojapan/athenz-authorizer/v5"

	"vs"
)

func init() {
	register(&Check{
		ID:        "C20",
		Rule:      "every configuration (translator, resource prefix, policies on/off, binding) x every token of the alphabet (domain x role list x times x client) x every action, resource and query, evaluated cold, from memory in the opposite order, and again after the lifetime; complete principal compared with the credential and with the reference decision",
		Scenarios: c20,
	})
}

type errTranslator struct{}

var errTr = errors.New("custom translator refuses")

func (errTranslator) Translate(domain, method, path, query string) (string, string, error) {
	if strings.Contains(path, "bad") {
		return "a", "x", errTr
	}
	return "a", "x", nil
}

// c20tok is one credential with what its acceptance must carry.
type c20tok struct {
	kind    string
	text    string
	dom     string
	roles   []string
	princ   string // without the authorised roles
	client  string
	expires time.Duration
}

func c20toks() []c20tok {
	var out []c20tok
	n := 0
	for _, dom := range []string{"d", "e"} {
		for _, roles := range [][]string{{"r"}, {"r", "s"}, {"s", "r"}, {"s"}, {"u", "r", "n"}, {"r", "r"}, {"r", "deny"}, {"deny"}, {"none"}, {"rr", "r"}, {"r", "n", "s", "u", "rr"}, longRoles} {
			for v := 0; v < 2; v++ {
				n++
				iat := time.Duration(-v) * 90 * time.Second
				exp := day + time.Duration(n)*time.Second
				who := []string{"user.x", "svc.y"}[v]
				cl := []string{"", "client-1"}[v]
				fields := fmt.Sprintf("name=%s domain=%s roles=%q issue=%d expiry=%d", who, dom, roles, vs.Base.Add(iat).Unix(), vs.Base.Add(exp).Unix())
				rt := RT{Domain: dom, Principal: who, Roles: roles, Issued: iat, Expires: exp, Key: "ec4"}
				out = append(out, c20tok{kind: "role", text: rt.unsigned() + ";s=" + c14sign("ec4", rt.unsigned()), dom: dom, roles: roles, princ: fields, expires: exp})
				at := AT{Aud: dom, Sub: who, Scp: roles, Iat: iat, Exp: exp, Client: cl, Cnf: map[string]any{"x5t#S256": thumb(c20cert())}}
				out = append(out, c20tok{kind: "access", text: octToken(at), dom: dom, roles: roles, princ: fields, client: cl, expires: exp})
			}
		}
	}
	return out
}

func c20cert() *x509.Certificate { return Crt{CN: "c", Issuer: "i", NotBefore: -time.Hour}.cert() }

func c20(thorough bool) []*Scenario {
	docs := []Doc{
		{Domain: "d", Expires: 1000 * day, Pols: []P{{{"r", "a", "d:x", "ALLOW"}, {"rr", "*", "d:x*", "ALLOW"}, {"s", "A", "d:*", "ALLOW"}, {"u", "*", "d:p:*", "ALLOW"}, {"deny", "a", "d:*", "DENY"}}, {{"r", "b", "d:p:x?z", "ALLOW"}, {"r", "act", "d:*", "ALLOW"}, {"s", "act", "d:p:y", "DENY"}, {"u", "get", "d:*", "ALLOW"}, {"s", "*", "d:", "ALLOW"}}}},
		{Domain: "e", Expires: 1000 * day, Pols: []P{{{"r", "*", "e:*", "ALLOW"}, {"s", "a", "e:X", "DENY"}, {"rr", "a", "e:x", "ALLOW"}, {"n", "a", "d:x", "ALLOW"}, {"u", "*", "e:p:*", "ALLOW"}}}},
	}
	rules := map[string][]authz.Rule{"d": {
		{Method: "get", Path: "/{p}", Action: "act", Resource: "{p}"},
		{Method: "get", Path: "/{p}?q={v}", Action: "b", Resource: "{p}:{v}"},
		{Method: "a", Path: "/x/{p}", Action: "A", Resource: "{p}"}},
		"other": {{Method: "a", Path: "/x", Action: "b", Resource: "y"}}}
	prefixes := []string{"", "p:", "x"}
	return []*Scenario{{Name: "principals", Cfg: seqCfg, Body: func(x *vs.Exec) {
		tr := []string{"none", "rules", "custom"}[x.Choose(3)]
		prefix := prefixes[x.Choose(len(prefixes))]
		mode := x.Choose(3) // policies on, off, on and tokens bound to the certificate
		kind := []string{"direct", "verify first", "http"}[x.Choose(3)]
		x.Label("configuration", fmt.Sprintf("translator %s prefix %q policies off %v bound %v %s", tr, prefix, mode == 1, mode == 2, kind))
		opts := []authz.Option{authz.WithResourcePrefix(prefix), authz.WithCacheExp(10 * time.Minute)}
		switch tr {
		case "rules":
			m, err := authz.NewMappingRules(rules)
			if err != nil {
				x.Failf("%v", err)
			}
			opts = append(opts, authz.WithTranslator(m))
		case "custom":
			opts = append(opts, authz.WithTranslator(errTranslator{}))
		}
		if mode == 1 {
			opts = append(opts, authz.WithDisablePolicyd())
		}
		opts = append(opts, authz.WithAccessTokenParam(authz.NewAccessTokenParam(true, mode == 2, "1h", "1h", false, nil)))
		w := newAuthWorld(x, docs, opts...)
		w.net.quiet = true
		w.pub["zts"] = cachedBody("c16k", func() []byte { return pubkeyDoc("zts", "ec1", "ec4") })
		w.init()
		as := map[string][]A{"d": docs[0].Asserts(), "e": docs[1].Asserts()}
		toks := c20toks()
		type rec struct {
			p    authz.Principal
			want string
		}
		var given []rec
		acts := []string{"a", "A", "b", "get", ""}
		ress := []string{"x", "/x", "/x/x", "p:x:z", "/", "bad", ""}
		queries := []string{""}
		if kind == "http" {
			queries = []string{"", "q=z", "q=%zz", "q=1&r=2"}
		}
		type req struct {
			t     c20tok
			a, r  string
			query string
		}
		var reqs []req
		for _, t := range toks {
			for _, a := range acts {
				for _, r := range ress {
					for _, q := range queries {
						reqs = append(reqs, req{t, a, r, q})
					}
				}
			}
		}
		one := func(q req, memory string) {
			t := q.t
			what := fmt.Sprintf("%s token of %s, action %q resource %q query %q (%s)", t.kind, t.princ, q.a, q.r, q.query, memory)
			act, res := q.a, q.r
			want, param, free := "", false, false
			auth := []string{}
			var wantErr error
			if mode != 1 {
				if act == "" || res == "" {
					param = true
				} else {
					switch tr {
					case "rules":
						var bad bool
						act, res, bad = refTranslate(rules[t.dom], act, res, q.query)
						free = bad
					case "custom":
						if strings.Contains(res, "bad") {
							wantErr = errTr
						}
						act, res = "a", "x"
					}
					v := refDecide(as[t.dom], t.dom, t.roles, act, prefix+res)
					if v.Kind == "allow" && wantErr == nil {
						auth = strings.Split(v.Roles, "|")
					}
					want = v.Kind
				}
			} else {
				want = "allow"
			}
			if param || wantErr != nil {
				want = "refused"
			}
			if want == "allow" {
				want = t.princ + fmt.Sprintf(" auth=%q", sorted(auth))
				if t.kind == "access" {
					want += " client=" + t.client
				}
			} else {
				want = ""
			}
			var p authz.Principal
			var err error
			var crt *x509.Certificate
			if t.kind == "access" {
				crt = c20cert()
			}
			switch {
			case kind == "http":
				ar := areq{kind: "http", act: q.a, res: q.r, query: q.query, crt: crt}
				if t.kind == "role" {
					ar.role = t.text
				} else {
					ar.tok = t.text
				}
				p, err = ar.do(w.a)
				if err != nil && !errors.Is(err, authz.ErrInvalidCredentials) {
					x.Failf("%s: error %v", what, err)
				}
			default:
				if kind == "verify first" {
					if t.kind == "role" {
						err = w.a.VerifyRoleToken(background(), t.text, q.a, q.r)
					} else {
						err = w.a.VerifyAccessToken(background(), t.text, q.a, q.r, crt)
					}
					if (err == nil) != (want != "") && !free {
						x.Failf("%s: verify says %v, want %q", what, err, want)
					}
				}
				p, err = areq{kind: t.kind, tok: t.text, act: q.a, res: q.r, crt: crt}.do(w.a)
				if param && !errors.Is(err, authz.ErrInvalidParameters) {
					x.Failf("%s: error %v, want invalid parameters", what, err)
				}
				if wantErr != nil && !errors.Is(err, wantErr) {
					x.Failf("%s: error %v, want %v", what, err, wantErr)
				}
			}
			if free && err != nil {
				return
			}
			got := ""
			if err == nil {
				got = princ(p)
				given = append(given, rec{p, got})
			} else if p != nil {
				x.Failf("%s: rejected with a principal", what)
			}
			// a set: authorised roles are compared without repetitions
			if err == nil {
				got = dedupAuth(p, got)
			}
			if got != want {
				x.Failf("%s: got %q (%v), want %q", what, got, err, want)
			}
		}
		for _, q := range reqs {
			one(q, "cold")
		}
		for i := len(reqs) - 1; i >= 0; i-- {
			one(reqs[i], "from memory")
		}
		x.JumpBy(10*time.Minute + time.Second)
		for _, q := range reqs {
			one(q, "after the lifetime")
		}
		for _, g := range given {
			if princ(g.p) != g.want {
				x.Failf("a principal changed after it was returned: %s, now %s", g.want, princ(g.p))
			}
		}
		x.Evals(3 * len(reqs))
		x.Eval(fmt.Sprint(tr, prefix, mode, kind))
	}}, c20similar(), c20texts()}
}

// dedupAuth renders the principal with its authorised roles as a set.
func dedupAuth(p authz.Principal, s string) string {
	m := map[string]bool{}
	for _, r := range p.AuthorizedRoles() {
		m[r] = true
	}
	return strings.Replace(s, fmt.Sprintf("auth=%q", sorted(p.AuthorizedRoles())), fmt.Sprintf("auth=%q", sorted(keys(m))), 1)
}

// longRoles: more roles than any reasonable fixed bound, the useful ones at the end.
var longRoles = func() []string {
	var l []string
	for i := 0; i < 40; i++ {
		l = append(l, fmt.Sprint("n", i))
	}
	return append(l, "r", "n", "rr")
}()
