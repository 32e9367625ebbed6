package main

import (
	"crypto/x509"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"time"

	authz "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/access"

	"vs"
)

// similar is the set of texts one small edit away from s: every position
// dropped, replaced, doubled, exchanged with the next, its case changed or
// encoded, a character put before it; blanks, separators and other characters
// before and after; all of it in another case; its parts in another order.
// Of long texts the positions at and around the powers of two and both ends are
// taken. s itself is not in the set.
func similar(s string) []string {
	seen := map[string]bool{s: true}
	var out []string
	add := func(t string) {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	pos := map[int]bool{}
	for i := range s {
		if len(s) <= 48 || i < 6 || i >= len(s)-6 {
			pos[i] = true
		}
	}
	for p := 8; p < len(s); p *= 2 {
		for d := -1; d <= 1 && p+d < len(s); d++ {
			pos[p+d] = true
		}
	}
	var ps []int
	for i := range pos {
		ps = append(ps, i)
	}
	sort.Ints(ps)
	for _, i := range ps {
		a, c, b := s[:i], s[i:i+1], s[i+1:]
		add(a + b)
		add(a + "x" + b)
		add(a + c + c + b)
		add(a + strings.ToUpper(c) + b)
		add(a + strings.ToLower(c) + b)
		add(a + fmt.Sprintf("%%%02x", c[0]) + b)
		add(a)
		if b != "" {
			add(a + b[:1] + c + b[1:])
			add(b)
		}
		for _, e := range []string{"/", " ", "\x00", "\\", ":"} {
			add(a + e + c + b)
		}
	}
	for _, e := range []string{"/", "//", "/.", "/..", " ", "\t", "\n", "\r\n", "\x00", ".", ",", ";", "?", "#", "&", "=", "%", "%20", "%00", "*", "\\", ":", "\"", "'", "0", "\u00a0", "\u200b", "\ufeff", "é", "[]", "[0]", "()", "{}", "<>", "|", "+", "@", "!", "$", "^", "~", "-", "_"} {
		add(s + e)
		add(e + s)
		add(e + s + e)
	}
	for _, e := range []string{" ", ",", ";", ":", ".", "/", "|", "&", "-"} {
		add(s + e + "x")
		add("x" + e + s)
		add(s + e + s)
	}
	for _, e := range []string{"d:role.", "role.", "d:", "d.", "d/"} {
		add(e + s)
	}
	add("")
	add(s + s)
	add(strings.ToUpper(s))
	add(strings.ToLower(s))
	add(strings.Title(s)) //nolint
	for _, sep := range []string{"&", "/", ".", ",", ";", " ", "-"} {
		p := strings.Split(s, sep)
		if len(p) < 2 {
			continue
		}
		q := append([]string(nil), p...)
		sort.Strings(q)
		add(strings.Join(q, sep))
		for i, j := 0, len(q)-1; i < j; i, j = i+1, j-1 {
			q[i], q[j] = q[j], q[i]
		}
		add(strings.Join(q, sep))
		for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
			p[i], p[j] = p[j], p[i]
		}
		add(strings.Join(p, sep))
		add(strings.Join(p[:1], sep))
		add(strings.ReplaceAll(s, sep, sep+sep))
		add(strings.ReplaceAll(s, sep, ""))
		add(strings.ReplaceAll(s, sep, " "))
	}
	for _, r := range [][2]string{{"k", "\u212a"}, {"s", "ſ"}, {"é", "e\u0301"}, {"i", "ı"}, {"a", "а"}, {"0", "O"}, {"_", "-"}, {"-", "_"}, {"+", " "}, {" ", "+"}, {"/", "\\"}} {
		add(strings.ReplaceAll(s, r[0], r[1]))
		add(strings.Replace(s, r[0], r[1], 1))
	}
	return out
}

func long(n int) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "part%d/", i)
	}
	return b.String()[:n]
}

// queryTranslator takes every different query for a different resource.
type queryTranslator struct{}

func (queryTranslator) Translate(domain, method, path, query string) (string, string, error) {
	return method, path + "|" + query, nil
}

// c15similar: one request is allowed and remembered, then every request which
// differs from it in one small edit of one of its texts is made; whatever is
// accepted must be accepted by a fresh instance as well, with the same principal.
func c15similar() *Scenario {
	texts := []string{"a", "/Abc", "/a/b/", "get a b", "k-_s", "é", long(40), long(300), long(2000), long(9000)}
	return &Scenario{Name: "similar", Cfg: seqCfg, Body: func(x *vs.Exec) {
		kind := []string{"role", "access", "http role", "http access"}[x.Choose(4)]
		field := []string{"action", "resource", "token", "certificate", "query", "all"}[x.Choose(6)]
		tx := texts[x.Choose(len(texts))]
		if field == "certificate" && !strings.HasSuffix(kind, "access") || field == "query" && !strings.HasPrefix(kind, "http") {
			return
		}
		r := areq{kind: strings.Fields(kind)[0], act: "act", res: "res"}
		sub := "u"
		switch field {
		case "action":
			r.act = tx
		case "resource":
			r.res = tx
		case "token":
			sub = tx
		case "query":
			r.query = "p=1&q=b&q=" + strings.ReplaceAll(tx, " ", "+") + "&a=7"
		case "all":
			r.act, r.res, sub = tx, tx, tx
		}
		if field == "token" || field == "all" {
			sub = strings.ReplaceAll(sub, " ", "")
		}
		if strings.HasSuffix(kind, "role") {
			t := RT{Domain: "d", Principal: sub, Roles: []string{"r"}, Expires: day}
			r.tok = t.unsigned() + ";s=" + c14sign("ec1", t.unsigned())
		} else {
			r.tok = octToken(AT{Aud: "d", Sub: sub, Scp: []string{"r"}, Exp: day})
		}
		if kind == "http role" {
			r.tok, r.role = "", r.tok
		}
		crt := func(raw string) *x509.Certificate {
			return Crt{CN: "c", Issuer: "i", Raw: raw, NotBefore: -time.Minute}.cert()
		}
		if field == "certificate" {
			r.crt = crt(tx)
			r.tok = octToken(AT{Aud: "d", Sub: sub, Scp: []string{"r"}, Exp: day, Cnf: map[string]any{"x5t#S256": thumb(r.crt)}})
		}
		var opts []authz.Option
		opts = append(opts, authz.WithCacheExp(time.Hour))
		pol := A{"r", r.act, "d:" + r.res, "ALLOW"}
		if field == "query" {
			opts = append(opts, authz.WithTranslator(queryTranslator{}))
			r.act, r.res = "get", "/a"
			pol = A{"r", "get", "d:/a|" + r.query, "ALLOW"}
		}
		if field == "certificate" {
			opts = append(opts, authz.WithAccessTokenParam(authz.NewAccessTokenParam(true, true, "0s", "0s", false, nil)))
		}
		world := func() *authWorld {
			w := newAuthWorld(x, []Doc{{Domain: "d", Expires: day, Pols: []P{{pol}}}}, opts...)
			w.net.quiet = true
			w.init()
			return w
		}
		w := world()
		x.Label("first", r.String())
		// twice: first evaluated, then from memory
		for i := 0; i < 2; i++ {
			if p, err := r.do(w.a); err != nil || p.Name() != sub {
				x.Failf("%.300s refused: %v", r, err)
			}
		}
		try := func(q areq) {
			x.Label("then", q.String())
			got := outcome(q.do(w.a))
			x.Evals(1)
			if got == "rejected" {
				return
			}
			if want := outcome(q.do(world().a)); got != want {
				x.Failf("%.600s\n  decided afresh: %s\n  after the other one: %s", q, want, got)
			}
		}
		edit := map[string]func(q *areq, s string){
			"action":   func(q *areq, s string) { q.act = s },
			"resource": func(q *areq, s string) { q.res = s },
			"query":    func(q *areq, s string) { q.query = s },
			"token": func(q *areq, s string) {
				if q.kind == "http" && q.role != "" {
					q.role = s
				} else {
					q.tok = s
				}
			},
			"certificate": func(q *areq, s string) { q.crt = crt(s) },
		}
		of := map[string]string{"action": r.act, "resource": r.res, "query": r.query, "token": r.tok + r.role, "certificate": tx}
		switch field {
		case "all": // the texts exchanged and moved into one another
			for _, q := range [][2]string{{r.act + r.res, "res"}, {r.act + ":" + r.res, "res"}, {"act", r.act + ":" + r.res}, {r.res, r.act}, {r.act, r.act}, {r.res, r.res}} {
				n := r
				n.act, n.res = q[0], q[1]
				try(n)
			}
			for _, s := range similar(tx) {
				n := r
				n.act, n.res = s, s
				try(n)
			}
		default:
			for _, s := range similar(of[field]) {
				n := r
				edit[field](&n, s)
				try(n)
			}
			for f, e := range edit { // and texts which have nothing in common with it
				if f == field || f == "query" || f == "certificate" {
					continue
				}
				n := r
				e(&n, "other")
				try(n)
			}
		}
		x.Eval(kind + field + tx)
	}}
}

// similarNames are names to be compared as they are, of several shapes and lengths.
var similarNames = []string{"c1", "Client.one-A_k", "user name", "é", "spiffe://a/b", "spiffe://Athenz/ns/a/sa/b.c?q=1", long(60), long(300)}

// c12similar: the spiffe principals of the token against those of the
// certificate, and client id against common name in the refresh window.
func c12similar() *Scenario {
	return &Scenario{Name: "similar", Cfg: seqCfg, Body: func(x *vs.Exec) {
		kind := x.Choose(3)
		base := similarNames[x.Choose(len(similarNames))]
		if kind == 0 && !strings.HasPrefix(base, "spiffe") {
			base = "spiffe://a/" + strings.ReplaceAll(base, " ", "")
		}
		ap, err := access.New(access.WithJWKProvider(octProvider), access.WithEnableMTLSCertificateBoundAccessToken(true), access.WithClientCertificateGoBackSeconds("0s"), access.WithClientCertificateOffsetSeconds("1h"))
		if err != nil {
			x.Failf("access.New: %v", err)
		}
		c := c12cfg{bind: true, offset: time.Hour}
		mk := func(s string) (AT, *x509.Certificate) {
			t := AT{Aud: "d", Sub: "u", Scp: []string{"r"}, Exp: day, Iat: -2 * time.Minute}
			switch kind {
			case 0:
				t.Cnf = map[string]any{"proxy-principals#spiffe": []any{s}}
				return t, Crt{CN: "c", NotBefore: -time.Minute, URIs: []string{base}}.cert()
			case 1:
				t.Client = s
				t.Cnf = map[string]any{"x5t#S256": "no"}
				return t, Crt{CN: base, NotBefore: -time.Minute}.cert()
			}
			t.Cnf = map[string]any{"x5t#S256": s}
			return t, Crt{CN: base, Raw: base, NotBefore: -time.Minute}.cert()
		}
		b := base
		if kind == 2 {
			b = thumb(Crt{CN: base, Raw: base}.cert())
		}
		for _, s := range append([]string{b}, similar(b)...) {
			t, crt := mk(s)
			x.Label("case", fmt.Sprintf("kind %d: token %q certificate %q", kind, s, base))
			if !jsonSame(s) {
				continue
			}
			_, err := ap.ParseAndValidateOAuth2AccessToken(octToken(t), crt)
			if want := refBind(c, t, crt); (err == nil) != want {
				x.Failf("kind %d: token names %q, the certificate %q: got %v, want acceptance %v", kind, s, b, err, want)
			}
			x.Evals(1)
		}
		x.Eval(fmt.Sprint(kind, base))
	}}
}

// jsonSame says whether a text comes out of a JSON document as it went in.
func jsonSame(s string) bool { return strings.ToValidUTF8(s, "?") == s }

// c13similar: the common name and the client id against the configured ones.
func c13similar() *Scenario {
	return &Scenario{Name: "similar", Cfg: seqCfg, Body: func(x *vs.Exec) {
		kind := x.Choose(4)
		base := similarNames[x.Choose(len(similarNames))]
		cn, id := "cn", "id"
		lists := map[string][]string{}
		set := func() {
			lists = map[string][]string{cn: {"first", id, "last"}, "else": {"nothing"}}
		}
		for _, s := range append([]string{base}, similar(base)...) {
			t := AT{Aud: "d", Sub: "u", Scp: []string{"r"}, Exp: day, Client: "id"}
			crt := Crt{CN: "cn"}.cert()
			if !jsonSame(s) {
				continue
			}
			switch kind {
			case 0: // client id of the token
				id = base
				t.Client = s
			case 1: // common name of the certificate
				cn = base
				crt = Crt{CN: s}.cert()
			case 2: // configured id
				id = s
				t.Client = base
			case 3: // configured name
				cn = s
				crt = Crt{CN: base}.cert()
			}
			set()
			c := c12cfg{client: true, ids: lists}
			x.Label("case", fmt.Sprintf("kind %d: %q for %q", kind, s, base))
			ap, err := access.New(access.WithJWKProvider(octProvider), access.WithEnableVerifyClientID(true), access.WithAuthorizedClientIDs(lists))
			if err != nil {
				x.Failf("access.New: %v", err)
			}
			_, err = ap.ParseAndValidateOAuth2AccessToken(octToken(t), crt)
			if want := refBind(c, t, crt); (err == nil) != want {
				x.Failf("lists %q, common name %q, client id %q: got %v, want acceptance %v", lists, crt.Subject.CommonName, t.Client, err, want)
			}
			x.Evals(1)
		}
		x.Eval(fmt.Sprint(kind, base))
	}}
}

// c01similar: one text of a request against the same text of the document.
func c01similar() *Scenario {
	bases := []string{"r", "admin.Group-1_k", "team one", "é", long(70), long(300)}
	return &Scenario{Name: "similar", Cfg: seqCfg, Body: func(x *vs.Exec) {
		field := x.Choose(4) // role, domain, action, resource
		base := bases[x.Choose(len(bases))]
		swapped := x.Choose(2) == 1 // the document has the edited text
		if field == 1 {
			base = []string{"d", "dom.Sub-1_k", "a.b.c"}[x.Choose(3)]
			if swapped {
				return
			}
		}
		mk := func(doc, req string) (Doc, []query) {
			t := [4]string{"r", "d", "act", "res"}
			p := t
			p[field], t[field] = doc, req
			d := Doc{Domain: p[1], Expires: day, Pols: []P{{{p[0], p[2], p[1] + ":" + p[3], "ALLOW"}, {p[0], "other", p[1] + ":" + p[3], "DENY"}}, {{"keep", p[2], p[1] + ":" + p[3], "DENY"}}}}
			var qs []query
			for _, rs := range [][]string{{t[0]}, {t[0], "none"}, {"none", t[0]}} {
				qs = append(qs, query{t[1], rs, t[2], t[3]})
			}
			return d, append(qs, query{t[1], []string{t[0], "keep"}, t[2], t[3]}, query{p[1], []string{p[0]}, p[2], p[3]})
		}
		if !swapped {
			var doc Doc
			var all []query
			for _, s := range append([]string{base}, similar(base)...) {
				if field == 2 && s == "other" {
					continue
				}
				d, qs := mk(base, s)
				doc = d
				all = append(all, qs...)
			}
			policyCase(x, doc, all)
			return
		}
		for _, s := range similar(base) {
			if !jsonSame(s) || strings.Contains(s, "\x00") {
				continue
			}
			d, qs := mk(s, base)
			policyCase(x, d, qs)
		}
	}}
}

// c11similar: the key id and the key set URL of a token against the configured
// ones, by tokens which are properly signed with the key of the unedited name.
func c11similar() *Scenario {
	return &Scenario{Name: "similar", Cfg: seqCfg, Body: func(x *vs.Exec) {
		kind := x.Choose(3)
		base := []string{"ec3", jku1, athenzJWK}[kind]
		ap, keyOf := c11world(x)
		for _, s := range append([]string{base}, similar(base)...) {
			if !jsonSame(s) {
				continue
			}
			for _, key := range []string{"ec3", "ec2"} {
				t := AT{Aud: "d", Sub: "u", Scp: []string{"r"}, Exp: day, Alg: "ES256", Key: key, Kid: "ec3", Iat: -time.Minute}
				if kind == 0 {
					t.Kid = s
					t.NoKid = s == ""
				} else {
					t.Jku = s
				}
				tok := t.build()
				x.Label("token", fmt.Sprintf("key id %q, URL %q, signed with %s", t.Kid, t.Jku, key))
				_, err := ap.ParseAndValidateOAuth2AccessToken(tok, nil)
				if want := refJWT(tok, keyOf, vs.Now()); want == "accept" && err != nil || want == "reject" && err == nil {
					x.Failf("key id %q, URL %q, signed with %s: got %v, want %s", t.Kid, t.Jku, key, err, want)
				}
				x.Evals(1)
			}
		}
		x.Eval(base)
	}}
}

// c18similar: one text of a role certificate against the documents.
func c18similar() *Scenario {
	return &Scenario{Name: "similar", Cfg: seqCfg, Body: func(x *vs.Exec) {
		prefix := []string{"", "custom://Role.k/"}[x.Choose(2)]
		uri := x.Choose(2) == 1
		pre := prefix
		if pre == "" {
			pre = "athenz://role/"
		}
		var opts []authz.Option
		opts = append(opts, authz.WithEnableRoleCert())
		if prefix != "" {
			opts = append(opts, authz.WithRoleCertURIPrefix(prefix))
		}
		doc := Doc{Domain: "dom.s-k", Expires: day, Pols: []P{{{"Role.k-1", "a", "dom.s-k:x", "ALLOW"}}}}
		w := newAuthWorld(x, []Doc{doc}, opts...)
		w.net.quiet = true
		w.init()
		base := "dom.s-k:role.Role.k-1"
		if uri {
			base = pre + "dom.s-k/Role.k-1"
		}
		for _, s := range append([]string{base}, similar(base)...) {
			var crt *x509.Certificate
			dom, role, ok := "", "", false
			if uri {
				if _, err := url.Parse(s); err != nil {
					continue
				}
				crt = Crt{URIs: []string{s}}.cert()
				if t := crt.URIs[0].String(); strings.HasPrefix(t, pre) {
					dom, role, ok = strings.Cut(t[len(pre):], "/")
				}
			} else {
				crt = Crt{CN: s}.cert()
				dom, role, ok = strings.Cut(s, ":role.")
			}
			want := ok && dom == doc.Domain && refDecide(doc.Asserts(), dom, []string{role}, "a", "x").Kind == "allow"
			x.Label("certificate", s)
			for _, l := range [][]*x509.Certificate{{crt}, {Crt{CN: "x"}.cert(), crt}, {crt, Crt{URIs: []string{"spiffe://x/y"}}.cert()}} {
				if err := w.a.VerifyRoleCert(background(), l, "a", "x"); (err == nil) != want {
					x.Failf("prefix %q, certificate with %q: got %v, want acceptance %v", prefix, s, err, want)
				}
				x.Evals(1)
			}
		}
		x.Eval(fmt.Sprint(prefix, uri))
	}}
}

// c19similar: one text of a request (or of a rule) against the rule.
func c19similar() *Scenario {
	bases := []string{"a", "Path.One-k_1", "é", "with space", long(40), long(300)}
	return &Scenario{Name: "similar", Cfg: seqCfg, Body: func(x *vs.Exec) {
		field := x.Choose(6) // method, domain, segment, query name, query value, what fills a placeholder
		base := bases[x.Choose(len(bases))]
		swapped := x.Choose(2) == 1
		type req struct{ method, dom, seg, name, val, fill string }
		mk := func(s string) req {
			r := req{"get", "d", "seg", "n", "v", "f"}
			f := []*string{&r.method, &r.dom, &r.seg, &r.name, &r.val, &r.fill}[field]
			*f = s
			return r
		}
		esc := func(s string) string { return strings.ReplaceAll(url.QueryEscape(s), "%20", "+") }
		rules := func(r req) map[string][]authz.Rule {
			return map[string][]authz.Rule{r.dom: {
				{Method: r.method, Path: "/p/" + r.seg + "/{x}?" + esc(r.name) + "=" + esc(r.val) + "&m={y}", Action: "act", Resource: "res:{x}:{y}"},
				{Method: r.method, Path: "/p/" + r.seg + "/{x}", Action: "act2", Resource: "{x}"},
			}, "else": {{Method: "get", Path: "/{x}/{y}/{z}", Action: "act3", Resource: "{z}"}}}
		}
		ask := func(mr *authz.MappingRules, rs map[string][]authz.Rule, r req) {
			x.Label("request", fmt.Sprintf("%+v", r))
			for _, q := range []string{esc(r.name) + "=" + esc(r.val) + "&m=" + esc(r.fill), "m=" + esc(r.fill) + "&" + esc(r.name) + "=" + esc(r.val), "", r.name + "=" + r.val + "&m=" + r.fill} {
				for _, p := range []string{"/p/" + r.seg + "/" + r.fill, "/p/" + r.seg} {
					checkTranslate(x, mr, rs, r.dom, r.method, p, q)
					x.Evals(1)
				}
			}
		}
		rs := rules(mk(base))
		ok := true
		build := func() *authz.MappingRules {
			for d, l := range rs {
				for _, r := range l {
					ok = ok && d != "" && refParse(r) != nil
				}
			}
			mr, err := authz.NewMappingRules(rs)
			if (err == nil) != ok {
				x.Failf("rules %v: error %v, valid %v", rs, err, ok)
			}
			return mr
		}
		if !swapped {
			mr := build()
			for _, s := range append([]string{base}, similar(base)...) {
				if field == 0 && !ascii(s) {
					continue // how other letters' cases are told apart is not specified
				}
				ask(mr, rs, mk(s))
			}
			x.Eval(fmt.Sprint(field, base))
			return
		}
		for _, s := range similar(base) {
			if field == 0 && !ascii(s) {
				continue
			}
			rs, ok = rules(mk(s)), true
			if mr := build(); ok {
				ask(mr, rs, mk(base))
				ask(mr, rs, mk(s))
			}
		}
		x.Eval(fmt.Sprint(field, base, swapped))
	}}
}

func ascii(s string) bool {
	for _, c := range s {
		if c > 127 {
			return false
		}
	}
	return true
}

// c20similar: tokens which differ from one whose roles are allowed in one small edit of the role, the domain,
// the name or the client: the principal is exactly the token's, the decision the reference's.
func c20similar() *Scenario {
	return &Scenario{Name: "similar", Cfg: seqCfg, Body: func(x *vs.Exec) {
		kind := []string{"role", "access"}[x.Choose(2)]
		field := x.Choose(4) // role, domain, name, client
		bases := [][]string{{"r", "team.One_2-k", "a b", "é", long(70)}, {"d", "My.dom-Sub_1"}, {"user.Name-1_k", long(70)}, {"client.Name-1_k", "c"}}[field]
		if field == 3 && kind == "role" {
			return
		}
		base := bases[x.Choose(len(bases))]
		prefix := []string{"", "p:"}[x.Choose(2)]
		dom, role := "d", "r"
		switch field {
		case 0:
			role = base
		case 1:
			dom = base
		}
		var docs []Doc
		as := map[string][]A{}
		for _, n := range []string{dom, "e"} {
			d := Doc{Domain: n, Expires: 1000 * day, Pols: []P{{{role, "a", n + ":" + prefix + "x", "ALLOW"}, {"s", "a", n + ":*", "ALLOW"}, {"x", "a", n + ":*", "ALLOW"}, {"a", "*", n + ":*", "ALLOW"}, {"no", "a", n + ":*", "DENY"}}}}
			docs = append(docs, d)
			as[n] = d.Asserts()
		}
		w := newAuthWorld(x, docs, authz.WithAthenzDomains(dom, "e"), authz.WithResourcePrefix(prefix), authz.WithAccessTokenParam(authz.NewAccessTokenParam(true, false, "1h", "1h", false, nil)))
		w.net.quiet = true
		w.pub["zts"] = cachedBody("c16k", func() []byte { return pubkeyDoc("zts", "ec1", "ec4") })
		w.init()
		n := 0
		type rec struct {
			p    authz.Principal
			want string
		}
		var given []rec
		for _, s := range append([]string{base}, similar(base)...) {
			if !jsonSame(s) || kind == "role" && (strings.ContainsAny(s, ";,") || s == "") {
				continue
			}
			for _, list := range [][]string{{role}, {role, "none"}, {"s", role}, {role, "no"}} {
				n++
				tdom, who, cl, roles := dom, "user.x", "client", append([]string(nil), list...)
				switch field {
				case 0:
					for i := range roles {
						if roles[i] == role {
							roles[i] = s
						}
					}
				case 1:
					tdom = s
				case 2:
					who = s
				case 3:
					cl = s
				}
				iat, exp := -time.Duration(n)*time.Second, day+time.Duration(n)*time.Second
				want := fmt.Sprintf("name=%s domain=%s roles=%q issue=%d expiry=%d", who, tdom, roles, vs.Base.Add(iat).Unix(), vs.Base.Add(exp).Unix())
				r := areq{kind: kind, act: "a", res: "x"}
				if kind == "role" {
					t := RT{Domain: tdom, Principal: who, Roles: roles, Issued: iat, Expires: exp, Key: "ec4"}
					r.tok = t.unsigned() + ";s=" + c14sign("ec4", t.unsigned())
				} else {
					r.tok = octToken(AT{Aud: tdom, Sub: who, Scp: roles, Iat: iat, Exp: exp, Client: cl})
				}
				x.Label("token", fmt.Sprintf("%s token of %s, client %q", kind, want, cl))
				d := refDecide(as[tdom], tdom, roles, "a", prefix+"x")
				if d.Kind == "allow" {
					want += fmt.Sprintf(" auth=%q", sorted(strings.Split(d.Roles, "|")))
					if kind == "access" {
						want += " client=" + cl
					}
				} else {
					want = ""
				}
				for i := 0; i < 2; i++ {
					p, err := r.do(w.a)
					got := ""
					if err == nil {
						got = dedupAuth(p, princ(p))
						if i == 0 {
							given = append(given, rec{p, got})
						}
					}
					if got != want {
						x.Failf("time %d: got %q (%v), want %q", i+1, got, err, want)
					}
				}
				x.Evals(2)
			}
		}
		for _, g := range given {
			if got := dedupAuth(g.p, princ(g.p)); got != g.want {
				x.Failf("a principal changed after it was returned: %s, now %s", g.want, got)
			}
		}
		x.Eval(fmt.Sprint(kind, field, base, prefix))
	}}
}
