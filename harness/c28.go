package main

import (
	"errors"
	"fmt"
	"net/http"
	"regexp"
	"strings"
	"time"

	authz "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/jwk"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"

	"vs"
)

func init() {
	register(&Check{
		ID:        "C28",
		Rule:      "every Athenz URL and key set URL of a grammar of schemes, hosts and paths; every duration of a grammar for every duration setting; every sequence of up to 4 of the enable/disable settings; every setting absent, given once and given twice; reference: constructor refusals, URLs seen by the server, times of the requests on the virtual clock, tag headers, decisions",
		Scenarios: c28,
	})
}

// c28dur is a setting which is a duration.
type c28dur struct {
	name   string
	def    time.Duration
	opt    func(string) authz.Option
	period bool // must be positive
}

func c28durs() []c28dur {
	at := func(bind bool, b, o string) authz.Option {
		return authz.WithAccessTokenParam(authz.NewAccessTokenParam(true, bind, b, o, false, nil))
	}
	return []c28dur{
		{"pubkey refresh", 24 * time.Hour, authz.WithPubkeyRefreshPeriod, true},
		{"pubkey retry", time.Minute, authz.WithPubkeyRetryDelay, false},
		{"pubkey etag expiry", 168 * time.Hour, authz.WithPubkeyETagExpiry, false},
		{"pubkey etag purge", 84 * time.Hour, authz.WithPubkeyETagPurgePeriod, true},
		{"policy margin", 3 * time.Hour, authz.WithPolicyExpiryMargin, false},
		{"policy refresh", 30 * time.Minute, authz.WithPolicyRefreshPeriod, true},
		{"policy purge", time.Hour, authz.WithPolicyPurgePeriod, true},
		{"policy retry", time.Minute, authz.WithPolicyRetryDelay, false},
		{"jwk refresh", 24 * time.Hour, authz.WithJwkRefreshPeriod, true},
		{"jwk retry", time.Minute, authz.WithJwkRetryDelay, false},
		{"backdate", time.Hour, func(s string) authz.Option { return at(true, s, "1h") }, false},
		{"offset", time.Hour, func(s string) authz.Option { return at(true, "1h", s) }, false},
	}
}

// c28docs are policies allowing role r action a on x in every domain.
func c28docs(doms ...string) []Doc {
	var out []Doc
	for _, d := range doms {
		out = append(out, Doc{Domain: d, Expires: 1000 * day, Pols: []P{{{"r", "a", d + ":x", "ALLOW"}}}})
	}
	return out
}

// c28role is a role token of domain d.
func c28role() string {
	t := RT{Domain: "d", Principal: "u", Roles: []string{"r"}, Expires: 3 * time.Hour, Key: "ec1"}
	return t.unsigned() + ";s=" + c14sign("ec1", t.unsigned())
}

// c28new constructs an authorizer from exactly these options, besides the HTTP client.
func c28new(x *vs.Exec, doms []string, opts ...authz.Option) (*authWorld, error) {
	w := newAuthServer(x)
	w.net.quiet = true
	for _, d := range c28docs(doms...) {
		w.publish(d)
	}
	a, err := authz.New(append([]authz.Option{authz.WithHTTPClient(w.net.client())}, opts...)...)
	w.a = a
	return w, err
}

// c28urls are the URLs a first loading must request, no more and no less.
func (w *authWorld) c28urls(base, sys string, doms, jwks []string, pk, pol, jw bool) map[string]bool {
	m := map[string]bool{}
	if pk {
		m["https://"+base+"/domain/"+sys+"/service/zts"] = true
		m["https://"+base+"/domain/"+sys+"/service/zms"] = true
	}
	for _, d := range doms {
		if pol {
			m["https://"+base+"/domain/"+d+"/signed_policy_data"] = true
		}
	}
	if jw {
		m["https://"+base+"/oauth2/keys?rfc=true"] = true
		for _, u := range jwks {
			m[u] = true
		}
	}
	return m
}

func (w *authWorld) c28seen(desc string, want map[string]bool) {
	got := map[string]bool{}
	for _, r := range w.net.Reqs {
		got[r.URL] = true
		if !want[r.URL] {
			w.x.Failf("%s: %s is requested", desc, r.URL)
		}
		if r.Method != "GET" {
			w.x.Failf("%s: method %s", desc, r.Method)
		}
	}
	for u := range want {
		if !got[u] {
			w.x.Failf("%s: %s is not requested", desc, u)
		}
	}
}

// c28any answers every JSON web key request with the same set.
func (w *authWorld) c28any() {
	w.answer = func(kind, name string, r *http.Request) *Ans {
		if kind == rqJWK {
			return ok200("jwks", w.jwks[athenzJWK], "")
		}
		return nil
	}
}

func c28(thorough bool) []*Scenario {
	var out []*Scenario

	// ---- the URL of the Athenz server
	out = append(out, &Scenario{Name: "athenz-url", Cfg: seqCfg, Body: func(x *vs.Exec) {
		schemes := []string{"", "http://", "https://", "HTTP://", "Https://", "ftp://", "httpx://", "ws+unix://", "http+unix://", "h2.c-1://", "file://", "https://https://", "https://http://", "http://https://", "http://ftp://"}
		hosts := []string{"h.example", "h.example:4443", "10.0.0.1", "[::1]:8443", "http.example", "https", "httpsh.example"}
		paths := []string{"", "/zts/v1", "/zts/http://v1", "/x/ftp://y", "/a%20b", "/https:/x"}
		s := schemes[x.Choose(len(schemes))]
		h := hosts[x.Choose(len(hosts))]
		x.Label("url", s+h)
		for _, p := range paths {
			u := s + h + p
			for rep := 0; rep < 2; rep++ {
				opts := []authz.Option{authz.WithAthenzURL(u), authz.WithAthenzDomains("d")}
				if rep == 1 { // the last one wins
					opts = append([]authz.Option{authz.WithAthenzURL("http://other.example/zts")}, opts...)
				}
				w, err := c28new(x, []string{"d"}, opts...)
				plain := s == "" || s == "http://" || s == "https://"
				low := strings.ToLower(s)
				web := regexp.MustCompile("^(https?://)*$").MatchString(low)
				if plain && err != nil {
					x.Failf("%q is refused: %v", u, err)
				}
				if !web && err == nil {
					x.Failf("%q is accepted", u)
				}
				if err != nil {
					continue
				}
				w.c28any()
				if err := w.a.Init(background()); err != nil {
					x.Failf("Init with %q: %v (requested %v)", u, err, w.net.Reqs)
				}
				w.c28seen(u, w.c28urls(h+p, "sys.auth", []string{"d"}, nil, true, true, true))
				x.Evals(1)
			}
		}
		x.Eval(s + h)
		// the daemons on their own
		for _, p := range paths {
			u := s + h + p
			_, e1 := pubkey.New(pubkey.WithAthenzURL(u))
			_, e2 := policy.New(policy.WithAthenzURL(u), policy.WithPubKeyProvider(fakeProvider))
			_, e3 := jwk.New(jwk.WithAthenzJwksURL(u))
			_, e0 := authz.New(authz.WithAthenzURL(u))
			for i, e := range []error{e1, e2, e3} {
				if (e == nil) != (e0 == nil) {
					x.Failf("%q: the authorizer says %v, daemon %d says %v", u, e0, i, e)
				}
			}
		}
	}})

	// ---- the URLs of key sets
	out = append(out, &Scenario{Name: "jwk-urls", Cfg: seqCfg, Body: func(x *vs.Exec) {
		type ju struct {
			u  string
			ok bool
		}
		all := []ju{
			{"http://h.example/jwk", true}, {"https://h.example/jwk", true}, {"https://h.example:8080/x/jwk?a=b", true}, {"http://10.0.0.1/jwk", true}, {"http://[::1]/jwk", true},
			{"h.example/jwk", false}, {"/jwk", false}, {"", false}, {"ftp://h.example/jwk", false}, {"httpx://h.example/jwk", false}, {"file:///jwk", false}, {"://h/jwk", false}, {"http", false}, {"jwk", false}, {"//h.example/jwk", false}, {"https//h.example/jwk", false}, {"unix+http://h/jwk", false}, {"http://[::1/jwk", false}, {" http://h/jwk", false},
		}
		i := x.Choose(len(all) + 1)
		for j := -1; j < len(all); j++ {
			for k := -1; k < len(all); k++ {
				if k >= 0 && j < 0 || k >= 0 && !thorough && k%3 != 0 {
					continue
				}
				var l []string
				ok := true
				for _, n := range []int{i, j, k} {
					if n >= 0 && n < len(all) {
						l = append(l, all[n].u)
						ok = ok && all[n].ok
					}
				}
				w, err := c28new(x, nil, authz.WithAthenzURL(athenzURL), authz.WithJwkURLs(l))
				if (err == nil) != ok {
					x.Failf("key set URLs %q: %v", l, err)
				}
				x.Evals(1)
				_, err = jwk.New(jwk.WithAthenzJwksURL(athenzURL), jwk.WithURLs(l))
				if (err == nil) != ok {
					x.Failf("jwk.New with key set URLs %q: %v", l, err)
				}
				if !ok {
					continue
				}
				w.c28any()
				if err := w.a.Init(background()); err != nil {
					x.Failf("Init with key set URLs %q: %v", l, err)
				}
				w.c28seen(fmt.Sprint(l), w.c28urls(athenzURL, "sys.auth", nil, l, true, true, true))
				// replaced by a later setting
				w, err = c28new(x, nil, authz.WithAthenzURL(athenzURL), authz.WithJwkURLs(l), authz.WithJwkURLs([]string{jku1}))
				if err != nil {
					x.Failf("key set URLs %q, replaced: %v", l, err)
				}
				w.c28any()
				if err := w.a.Init(background()); err != nil {
					x.Failf("Init with key set URLs %q, replaced: %v", l, err)
				}
				w.c28seen(fmt.Sprint(l, " replaced"), w.c28urls(athenzURL, "sys.auth", nil, []string{jku1}, true, true, true))
			}
		}
		x.Eval(fmt.Sprint(i))
	}})

	// ---- durations
	out = append(out, &Scenario{Name: "durations", Cfg: seqCfg, Body: func(x *vs.Exec) {
		ds := c28durs()
		d := ds[x.Choose(len(ds))]
		x.Label("setting", d.name)
		var vals []string
		for _, sign := range []string{"", "+", "-", "--", " "} {
			for _, num := range []string{"", "0", "1", "10", "1.5", ".5", "1.", ".", "1,5", "0x1", "1e3", "١"} {
				for _, unit := range []string{"", "ns", "us", "ms", "s", "m", "h", "d", "H", "sec", " s", "h30m", "h-1m", "hm", "m m", "s ", "m10"} {
					vals = append(vals, sign+num+unit)
				}
			}
		}
		vals = append(vals, "", "9223372036854775807ns", "9223372036854775808ns", "2562047h", "2562048h", "99999999999999999999h")
		for _, v := range vals {
			val, perr := time.ParseDuration(v)
			ok := v == "" || perr == nil && (!d.period || val > 0)
			_, err := authz.New(authz.WithAthenzURL(athenzURL), d.opt(v))
			if (err == nil) != ok {
				x.Failf("%s %q: %v", d.name, v, err)
			}
			if _, err = authz.New(authz.WithAthenzURL(athenzURL), d.opt(v), d.opt("1h")); err != nil {
				x.Failf("%s %q replaced by 1h: %v", d.name, v, err)
			}
			if _, err = authz.New(authz.WithAthenzURL(athenzURL), d.opt("1h"), d.opt(v)); (err == nil) != ok {
				x.Failf("%s 1h replaced by %q: %v", d.name, v, err)
			}
			x.Evals(1)
		}
		x.Eval(d.name)
	}})

	// ---- enabled kinds
	out = append(out, &Scenario{Name: "kinds", Cfg: seqCfg, Body: func(x *vs.Exec) {
		atp := func(on bool) authz.Option {
			return authz.WithAccessTokenParam(authz.NewAccessTokenParam(on, false, "", "", false, nil))
		}
		type sw struct {
			name string
			o    authz.Option
			k    int
			on   bool
		}
		sws := []sw{
			{"+role", authz.WithEnableRoleToken(), 0, true}, {"-role", authz.WithDisableRoleToken(), 0, false},
			{"+access", atp(true), 1, true}, {"-access", atp(false), 1, false},
			{"+cert", authz.WithEnableRoleCert(), 2, true}, {"-cert", authz.WithDisableRoleCert(), 2, false},
			{"-access (empty)", authz.WithAccessTokenParam(authz.AccessTokenParam{}), 1, false},
		}
		max := 4
		if thorough {
			max = 5
		}
		n := x.Choose(max + 1)
		var first []int
		for i := 0; i < n && i < 2; i++ {
			first = append(first, x.Choose(len(sws)))
		}
		rest := 1
		for i := len(first); i < n; i++ {
			rest *= len(sws)
		}
		rtok := c28role()
		atok := octToken(AT{Aud: "d", Sub: "u", Scp: []string{"r"}, Exp: 3 * time.Hour, Iat: -time.Hour})
		for r := 0; r < rest; r++ {
			idx := append([]int(nil), first...)
			for q, i := r, len(first); i < n; i++ {
				idx = append(idx, q%len(sws))
				q /= len(sws)
			}
			on := [3]bool{true, true, true}
			access := false // with the default parameters
			desc := ""
			opts := []authz.Option{authz.WithAthenzURL(athenzURL), authz.WithAthenzDomains("d")}
			for _, i := range idx {
				on[sws[i].k] = sws[i].on
				access = access || sws[i].k == 1
				opts = append(opts, sws[i].o)
				desc += " " + sws[i].name
			}
			w, err := c28new(x, []string{"d"}, opts...)
			if (err == nil) != (on[0] || on[1] || on[2]) {
				x.Failf("settings%s: %v", desc, err)
			}
			x.Evals(1)
			if err != nil {
				continue
			}
			if err := w.a.Init(background()); err != nil {
				x.Failf("Init: %v", err)
			}
			for _, q := range []struct {
				r    areq
				want bool
			}{
				{areq{kind: "role", tok: rtok, act: "a", res: "x"}, on[0]},
				{areq{kind: "http", role: rtok, act: "a", res: "x"}, on[0]},
				{areq{kind: "access", tok: atok, act: "a", res: "x"}, on[1] && access},
				{areq{kind: "http", tok: atok, act: "a", res: "x"}, on[1] && access},
				{areq{kind: "http", tok: atok, role: rtok, act: "a", res: "x"}, on[0] || on[1] && access},
				{areq{kind: "http", tok: rtok, role: atok, act: "a", res: "x"}, false},
				{areq{kind: "http", act: "a", res: "x"}, false},
			} {
				if _, err := q.r.do(w.a); (err == nil) != q.want {
					x.Failf("settings%s: %v: %v", desc, q.r, err)
				}
			}
		}
		x.Eval(fmt.Sprint(n, first))
	}})

	// ---- enabled sources
	out = append(out, &Scenario{Name: "sources", Cfg: seqCfg, Body: func(x *vs.Exec) {
		type sw struct {
			name string
			o    authz.Option
			k    int
			on   bool
		}
		sws := []sw{
			{"+pubkey", authz.WithEnablePubkeyd(), 0, true}, {"-pubkey", authz.WithDisablePubkeyd(), 0, false},
			{"+policy", authz.WithEnablePolicyd(), 1, true}, {"-policy", authz.WithDisablePolicyd(), 1, false},
			{"+jwk", authz.WithEnableJwkd(), 2, true}, {"-jwk", authz.WithDisableJwkd(), 2, false},
		}
		n := x.Choose(5)
		on := [3]bool{true, true, true}
		desc := ""
		opts := []authz.Option{authz.WithAthenzURL(athenzURL), authz.WithAthenzDomains("d"), authz.WithJwkURLs([]string{jku1})}
		for i := 0; i < n; i++ {
			s := sws[x.Choose(len(sws))]
			on[s.k] = s.on
			opts = append(opts, s.o)
			desc += " " + s.name
		}
		x.Label("settings", desc)
		w, err := c28new(x, []string{"d"}, opts...)
		if err != nil {
			x.Failf("settings%s: %v", desc, err)
		}
		w.c28any()
		err = w.a.Init(background())
		if (err == nil) != (on[0] || !on[1]) { // policies cannot be verified without keys
			x.Failf("settings%s: Init: %v", desc, err)
		}
		w.c28seen(desc, w.c28urls(athenzURL, "sys.auth", []string{"d"}, []string{jku1}, on[0], on[1], on[2]))
		if err == nil && on[0] {
			for _, res := range []string{"x", "y"} {
				_, err := areq{kind: "role", tok: c28role(), act: "a", res: res}.do(w.a)
				if (err == nil) != (res == "x" || !on[1]) {
					x.Failf("settings%s: check of %s: %v", desc, res, err)
				}
			}
		}
		// the refreshers contact no more
		w.net.Reqs = nil
		ctx, cancel := withCancel()
		ech := w.a.Start(ctx)
		rd := x.Spawn("reader", func() {
			for {
				if _, ok := vs.Recv2(ech); !ok {
					return
				}
			}
		})
		vs.Sleep(25 * time.Hour)
		w.c28seen(desc+" later", w.c28urls(athenzURL, "sys.auth", []string{"d"}, []string{jku1}, on[0], on[1], on[2]))
		cancel()
		rd.Join()
		x.Eval(desc)
	}})

	// ---- texts
	out = append(out, &Scenario{Name: "texts", Cfg: seqCfg, Body: func(x *vs.Exec) {
		pick := func(name string, l [][]string) []string {
			v := l[x.Choose(len(l))]
			x.Label(name, fmt.Sprintf("%q", v))
			return v
		}
		last := func(v []string, def string) string {
			if len(v) == 0 {
				return def
			}
			return v[len(v)-1]
		}
		urls := pick("urls", [][]string{nil, {"https://one.example/v1"}, {"one.example", "http://two.example/v1"}})
		sys := pick("sys", [][]string{nil, {"sys.other"}, {"sys.other", "a.b.c"}})
		doms := pick("domains", [][]string{nil, {"d"}, {"d,e"}, {"d", "e"}, {"d,e", "f"}, {"d,e,f", "e,d"}, {"d", "f,e,d"}})
		hdr := pick("header", [][]string{nil, {"X-Role"}, {"X-Role", "Y-Role"}, {"x-role"}})
		pre := pick("prefix", [][]string{nil, {"p."}, {"q.", "p."}, {"p.", ""}})
		tr := x.Choose(3) // 1: a translator, 2: replaced
		var opts []authz.Option
		for _, u := range urls {
			opts = append(opts, authz.WithAthenzURL(u))
		}
		for _, s := range sys {
			opts = append(opts, authz.WithPubkeySysAuthDomain(s))
		}
		for _, s := range doms {
			opts = append(opts, authz.WithAthenzDomains(strings.Split(s, ",")...))
		}
		for _, s := range hdr {
			opts = append(opts, authz.WithRoleAuthHeader(s))
		}
		for _, s := range pre {
			opts = append(opts, authz.WithResourcePrefix(s))
		}
		if tr >= 1 {
			opts = append(opts, authz.WithTranslator(c28trans([]string{"", "t", "u"}[tr])))
		}
		if tr == 2 {
			opts = append(opts, authz.WithTranslator(c28trans("t")))
		}
		w, err := c28new(x, nil, opts...)
		if err != nil {
			x.Failf("New: %v", err)
		}
		act, res := "a", last(pre, "")+"x"
		if tr >= 1 {
			act, res = "ta", last(pre, "")+"tx"
		}
		for _, d := range []string{"d", "e", "f"} {
			w.publish(Doc{Domain: d, Expires: 1000 * day, Pols: []P{{{"r", act, d + ":" + res, "ALLOW"}}}})
		}
		w.c28any()
		if err := w.a.Init(background()); err != nil {
			x.Failf("Init: %v", err)
		}
		var ds []string
		if len(doms) > 0 {
			ds = strings.Split(last(doms, ""), ",")
		}
		base := strings.TrimPrefix(strings.TrimPrefix(last(urls, "athenz.io/zts/v1"), "https://"), "http://")
		w.c28seen("settings", w.c28urls(base, last(sys, "sys.auth"), ds, nil, true, true, true))
		has := strings.Contains(","+strings.Join(ds, ",")+",", ",d,")
		for _, h := range []string{"Athenz-Role-Auth", "X-Role", "Y-Role"} {
			q, _ := http.NewRequest("GET", "http://h/", nil)
			q.Header.Set(h, c28role())
			for _, rs := range []string{"x", "p.x", "q.x", "y"} {
				_, err := w.a.Authorize(q, "a", rs)
				want := has && rs == "x" && strings.EqualFold(h, last(hdr, "Athenz-Role-Auth"))
				if (err == nil) != want {
					x.Failf("role token in %s for %s: %v, want acceptance %v", h, rs, err, want)
				}
			}
		}
		x.Eval(fmt.Sprint(urls, sys, doms, hdr, pre, tr))
	}})

	// ---- the effect of the numbers
	out = append(out, c28numbers(thorough)...)

	// ---- the default client
	out = append(out, &Scenario{Name: "client", Cfg: seqCfg, Body: func(x *vs.Exec) {
		type rec struct {
			n        int
			deadline time.Duration
			none     bool
		}
		def, c1, c2 := &rec{}, &rec{}, &rec{}
		rt := func(c *rec) http.RoundTripper {
			return c28rt(func(r *http.Request) (*http.Response, error) {
				c.n++
				if t, ok := r.Context().Deadline(); ok {
					c.deadline = time.Until(t)
				} else {
					c.none = true
				}
				return nil, errors.New("unreachable")
			})
		}
		saved := http.DefaultTransport
		http.DefaultTransport = rt(def)
		defer func() { http.DefaultTransport = saved }()
		cl := map[string]*http.Client{"default": nil, "one": {Transport: rt(c1)}, "two": {Transport: rt(c2)}}
		seqs := [][]string{nil, {"default"}, {"one"}, {"one", "two"}, {"two", "one"}, {"one", "default"}, {"default", "two"}}
		s := seqs[x.Choose(len(seqs))]
		src := x.Choose(3)
		opts := []authz.Option{authz.WithAthenzURL(athenzURL), authz.WithAthenzDomains("d")}
		for i, o := range []authz.Option{authz.WithDisablePubkeyd(), authz.WithDisablePolicyd(), authz.WithDisableJwkd()} {
			if i != src {
				opts = append(opts, o)
			}
		}
		for _, n := range s {
			opts = append(opts, authz.WithHTTPClient(cl[n]))
		}
		opts = append(opts, authz.WithPolicyRetryDelay("1s"))
		a, err := authz.New(opts...)
		if err != nil {
			x.Failf("New: %v", err)
		}
		if a.Init(background()) == nil {
			x.Failf("Init succeeds without a server")
		}
		used := "default"
		if len(s) > 0 {
			used = s[len(s)-1]
		}
		for n, c := range map[string]*rec{"default": def, "one": c1, "two": c2} {
			if (c.n > 0) != (n == used) {
				x.Failf("clients %v: %s used %d times", s, n, c.n)
			}
		}
		if used == "default" && (def.none || def.deadline > 30*time.Second || def.deadline < 20*time.Second) {
			x.Failf("clients %v: the default client gives up after %v (none: %v)", s, def.deadline, def.none)
		}
		x.Eval(fmt.Sprint(s, src))
	}})
	return out
}

type c28rt func(*http.Request) (*http.Response, error)

func (f c28rt) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

// c28numbers: settings whose effect is seen on the virtual clock.
func c28numbers(thorough bool) []*Scenario {
	near := func(a, b time.Duration) bool { return a-b < 3*time.Second && b-a < 3*time.Second }
	var out []*Scenario
	out = append(out, &Scenario{Name: "numbers", Cfg: seqCfg, Body: func(x *vs.Exec) {
		ds := c28durs()
		i := x.Choose(len(ds) + 2) // attempts, cache expiry
		name := []string{"attempts", "cache"}[max(0, i-len(ds))]
		var def time.Duration
		if i < len(ds) {
			name, def = ds[i].name, ds[i].def
		}
		seqs := [][]string{nil, {""}, {"20m"}, {"5h"}, {"45s"}, {"10m", "2h"}, {"2h", "10m"}, {"500ms", "7m30s"}}
		if thorough {
			seqs = append(seqs, []string{"100h"}, []string{"7h", ""}, []string{"90m", "11s"}, []string{"3s"}, []string{"300h", "1h", "77m"})
		}
		seq := seqs[x.Choose(len(seqs))]
		x.Label("case", fmt.Sprintf("%s %q", name, seq))
		want := def
		var opts []authz.Option
		for _, v := range seq {
			d, _ := time.ParseDuration(v)
			switch name {
			case "attempts":
				if v == "" {
					continue
				}
				d = d%7 + 1
				opts = append(opts, authz.WithPolicyRetryAttempts(int(d)))
			case "cache":
				if v == "" {
					continue
				}
				opts = append(opts, authz.WithCacheExp(d))
			default:
				opts = append(opts, ds[i].opt(v))
				if v == "" && name != "backdate" && name != "offset" {
					d = def // given there, an empty one is zero
				}
			}
			want = d
		}
		if want == 0 && name == "attempts" {
			want = 2
		}
		if want == 0 && name == "cache" {
			want = time.Minute
		}
		all := append([]authz.Option{authz.WithAthenzURL(athenzURL), authz.WithAthenzDomains("d")}, opts...)
		start := func(w *authWorld) (stop func()) {
			if err := w.a.Init(background()); err != nil {
				x.Failf("Init: %v", err)
			}
			x.Settle()
			w.net.Reqs = nil
			ctx, cancel := withCancel()
			ech := w.a.Start(ctx)
			rd := x.Spawn("reader", func() {
				for {
					if _, ok := vs.Recv2(ech); !ok {
						return
					}
				}
			})
			return func() { cancel(); rd.Join() }
		}
		nw := func(more ...authz.Option) *authWorld {
			w, err := c28new(x, []string{"d"}, append(all, more...)...)
			if err != nil {
				x.Failf("New: %v", err)
			}
			return w
		}
		kinds := map[string]string{"pubkey": rqPubkey, "policy": rqPolicy, "jwk": rqJWK}
		srcOf, _, _ := strings.Cut(name, " ")
		// times of the requests of a kind to one URL
		times := func(w *authWorld, kind string) []time.Duration {
			var out []time.Duration
			for _, r := range w.net.Reqs {
				u, _ := http.NewRequest("GET", r.URL, nil)
				if k, n := classify(u); k == kind && n != "zms" {
					out = append(out, r.At)
				}
			}
			return out
		}
		switch name {
		case "pubkey refresh", "policy refresh", "jwk refresh":
			w := nw()
			stop := start(w)
			t0 := x.Elapsed()
			vs.Sleep(4*max(want, 24*time.Hour) + time.Minute)
			if want < time.Minute {
				stop()
				stop = func() {}
			}
			for _, d := range ds {
				if !strings.HasSuffix(d.name, "refresh") {
					continue
				}
				p := d.def
				if d.name == name {
					p = want
				}
				k, _, _ := strings.Cut(d.name, " ")
				ts := times(w, kinds[k])
				last := t0
				for n, t := range ts {
					if !near(t-last, p) {
						x.Failf("%s: request %d comes %v after the one before, the period is %v", d.name, n, t-last, p)
					}
					last = t
				}
				if len(ts) == 0 || x.Elapsed()-last > p+time.Minute {
					x.Failf("%s: %d requests, the last at %v, the period is %v", d.name, len(ts), last-t0, p)
				}
			}
			stop()
		case "pubkey retry", "policy retry", "jwk retry", "attempts":
			k := kinds[srcOf]
			if name == "attempts" {
				k = rqPolicy
			}
			// every request fails for a while
			far := 30*time.Hour + 10*want
			w := nw(authz.WithPubkeyRefreshPeriod(far.String()), authz.WithPolicyRefreshPeriod(far.String()), authz.WithJwkRefreshPeriod(far.String()))
			stop := start(w)
			w.answer = func(kind, n string, r *http.Request) *Ans {
				if kind == k {
					return status(500)
				}
				return nil
			}
			vs.Sleep(far + 10*want + time.Minute*10)
			ts := times(w, k)
			gap, count := want, -1
			if name == "attempts" {
				gap, count = time.Minute, int(want)+1
			} else if k == rqPolicy {
				count = 3
			}
			if count < 0 && len(ts) < 5 || count >= 0 && len(ts) != count {
				x.Failf("%s: %d requests to the failing server, delay %v", name, len(ts), gap)
			}
			for n := 1; n < len(ts); n++ {
				if n == 1 && count < 0 && ts[n]-ts[n-1] < gap {
					continue // the first attempt after a failed refresh may come at once
				}
				if !near(ts[n]-ts[n-1], gap) {
					x.Failf("%s: request %d to the failing server comes %v after the one before, the delay is %v", name, n, ts[n]-ts[n-1], gap)
				}
			}
			stop()
		case "pubkey etag expiry", "pubkey etag purge":
			exp := want
			if name == "pubkey etag purge" {
				exp = 168 * time.Hour
			}
			period := max(exp/7, time.Second) // between ticks the expiry falls on none
			period += period / 11
			w := nw(authz.WithDisablePolicyd(), authz.WithDisableJwkd(), authz.WithPubkeyRefreshPeriod(period.String()))
			w.pubTag["zts"], w.pubTag["zms"] = "z1", "m1"
			stop := start(w)
			fetched := x.Elapsed()
			vs.Sleep(period * 20)
			for n, r := range w.net.Reqs {
				if strings.HasSuffix(r.URL, "zms") {
					continue
				}
				age := r.At - fetched
				if near(age, exp) && exp > 3*time.Second {
					continue
				}
				if (r.INM != "") != (age < exp) {
					x.Failf("%s: request %d, %v after the keys were fetched, tag %q, the tag lasts %v", name, n, age, r.INM, exp)
				}
				if r.INM == "" {
					fetched = r.At
				}
			}
			if len(w.net.Reqs) < 30 {
				x.Failf("%s: only %d requests", name, len(w.net.Reqs))
			}
			stop()
		case "policy margin":
			w := nw(authz.WithPolicyRefreshPeriod("7m"), authz.WithPolicyPurgePeriod("1000h"), authz.WithDisableJwkd())
			exp := want + 3*time.Hour
			d := Doc{Domain: "d", Expires: x.Elapsed() + exp, Pols: []P{{{"r", "a", "d:x", "ALLOW"}}}}
			t0 := x.Elapsed()
			w.publish(d)
			w.docs["d"].etag = "p1"
			stop := start(w)
			vs.Sleep(exp - time.Minute - (x.Elapsed() - t0))
			n := 0
			for _, r := range w.net.Reqs {
				if !strings.HasSuffix(r.URL, "signed_policy_data") {
					continue
				}
				left := t0 + exp - r.At
				if near(left, want) {
					continue
				}
				n++
				if (r.INM != "") != (left > want) {
					x.Failf("policies requested %v before their expiry with tag %q, the margin is %v", left, r.INM, want)
				}
			}
			if n < 20 {
				x.Failf("only %d requests", n)
			}
			stop()
		case "policy purge":
			ref := 10 * time.Hour
			w := nw(authz.WithPolicyRefreshPeriod(ref.String()), authz.WithPolicyExpiryMargin("1s"))
			t0 := x.Elapsed()
			life := ref + want/2
			w.publish(Doc{Domain: "d", Expires: t0 + life, Pols: []P{{{"r", "a", "d:x", "ALLOW"}}}})
			stop := start(w)
			s0 := x.Elapsed()
			var next []time.Duration
			vs.Sleep(ref + want/4)
			w.answer = func(kind, n string, r *http.Request) *Ans {
				if kind == rqPolicy {
					next = append(next, x.Elapsed())
					return ok200("next", Doc{Domain: "d", Expires: 1000 * day}.cached(), "")
				}
				return nil
			}
			vs.Sleep(min(want, ref-time.Minute))
			at := s0 + ref + want
			if want < ref-time.Minute && (len(next) == 0 || next[0]-at > 3*time.Second || next[0] <= t0+life) {
				x.Failf("expired policies are replaced at %v, they expire at %v, the purge is due at %v", next, t0+life, at)
			}
			if len(next) > 0 && next[0]-at < -3*time.Second {
				x.Failf("expired policies are replaced at %v, the purge is due at %v", next, at)
			}
			stop()
		case "backdate", "offset":
			w := nw(authz.WithDisablePolicyd())
			if err := w.a.Init(background()); err != nil {
				x.Failf("Init: %v", err)
			}
			c := c12cfg{bind: true, back: time.Hour, offset: time.Hour}
			if name == "backdate" {
				c.back = want
			} else {
				c.offset = want
			}
			c.back, c.offset = c.back.Truncate(time.Second), c.offset.Truncate(time.Second)
			iat := -200 * time.Hour
			for _, crtCN := range []string{"client", "other"} {
				for _, cnf := range []map[string]any{nil, {"x5t#S256": "other"}, {"x5t#S256": "its own"}} {
					for _, at := range []time.Duration{-c.back - time.Second, -c.back, -c.back + c.offset, -c.back + c.offset + time.Second, -time.Hour, 0, -c.back + time.Hour, -time.Hour - time.Second, c.offset - time.Hour} {
						crt := Crt{CN: crtCN, Raw: fmt.Sprint("raw", at), NotBefore: iat + at}.cert()
						if cnf != nil && cnf["x5t#S256"] != "other" {
							cnf = map[string]any{"x5t#S256": thumb(crt)}
						}
						tk := AT{Aud: "d", Sub: "u", Scp: []string{"r"}, Exp: 10 * time.Hour, Iat: iat, Client: "client", Cnf: cnf}
						_, err := w.a.AuthorizeAccessToken(background(), octToken(tk), "a", "x", crt)
						if want := refBind(c, tk, crt); (err == nil) != want {
							x.Failf("%s: certificate of %s not before %v, token issued %v, confirmation %v: %v, want acceptance %v", name, crtCN, iat+at, iat, cnf, err, want)
						}
						x.Evals(1)
					}
				}
			}
			if _, err := w.a.AuthorizeAccessToken(background(), octToken(AT{Aud: "d", Sub: "u", Scp: []string{"r"}, Exp: 10 * time.Hour, Iat: iat, Client: "client"}), "a", "x", nil); err == nil {
				x.Failf("a token which is bound to no certificate is accepted by default")
			}
		case "cache":
			w := nw(authz.WithAccessTokenParam(authz.NewAccessTokenParam(true, false, "", "", false, nil)))
			if err := w.a.Init(background()); err != nil {
				x.Failf("Init: %v", err)
			}
			for _, kind := range []string{"role", "access"} {
				life := x.Elapsed() + 3*want + time.Hour
				rt := RT{Domain: "d", Principal: "u", Roles: []string{"r"}, Expires: life, Key: "ec1"}
				q := areq{kind: kind, tok: rt.unsigned() + ";s=" + c14sign("ec1", rt.unsigned()), act: "a", res: "x"}
				if kind == "access" {
					q.tok = octToken(AT{Aud: "d", Sub: "u", Scp: []string{"r"}, Exp: life, Iat: -time.Hour})
				}
				w.publish(c28docs("d")[0])
				if err := w.a.Init(background()); err != nil {
					x.Failf("Init: %v", err)
				}
				if _, err := q.do(w.a); err != nil {
					x.Failf("%s token: %v", kind, err)
				}
				t := x.Elapsed()
				w.publish(Doc{Domain: "d", Expires: 1000 * day})
				if err := w.a.Init(background()); err != nil {
					x.Failf("Init: %v", err)
				}
				for _, at := range []time.Duration{want / 2, want - want/8, want + want/8, 2 * want} {
					vs.Sleep(t + at - x.Elapsed())
					_, err := q.do(w.a)
					if (err == nil) != (at < want) {
						x.Failf("%s token %v after it was accepted, withdrawn since: %v, acceptances are remembered for %v", kind, at, err, want)
					}
				}
			}
		}
		x.Eval(fmt.Sprintf("%s %q", name, seq))
	}})
	// ---- the daemons constructed on their own: URLs requested, repeated settings
	out = append(out, &Scenario{Name: "daemon-urls", Cfg: seqCfg, Body: func(x *vs.Exec) {
		scheme := []string{"", "http://", "https://"}[x.Choose(3)]
		for _, h := range []string{"h.example", "h.example:4443", "h.example:80", "localhost", "localhost:4443", "127.0.0.1:8080", "[::1]:80", "http.example", "h"} {
			for _, p := range []string{"", "/zts/v1", "/http://x"} {
				for rep := 0; rep < 2; rep++ {
					u, base := scheme+h+p, h+p
					w := newAuthServer(x)
					w.net.quiet = true
					w.c28any()
					w.publish(c28docs("d")[0])
					var po []policy.Option
					var ko []pubkey.Option
					var jo []jwk.Option
					if rep == 1 {
						po, ko, jo = append(po, policy.WithAthenzURL("http://first.example")), append(ko, pubkey.WithAthenzURL("http://first.example")), append(jo, jwk.WithAthenzJwksURL("http://first.example"))
					}
					pd, err1 := policy.New(append(po, policy.WithAthenzURL(u), policy.WithAthenzDomains("x"), policy.WithAthenzDomains("d"), policy.WithPubKeyProvider(realProvider), policy.WithHTTPClient(w.net.client()))...)
					kd, err2 := pubkey.New(append(ko, pubkey.WithAthenzURL(u), pubkey.WithHTTPClient(w.net.client()))...)
					jd, err3 := jwk.New(append(jo, jwk.WithAthenzJwksURL(u), jwk.WithHTTPClient(w.net.client()))...)
					if err1 != nil || err2 != nil || err3 != nil {
						x.Failf("%q: %v %v %v", u, err1, err2, err3)
					}
					for n, f := range map[string]func() error{"policies": func() error { return pd.Update(background()) }, "public keys": func() error { return kd.Update(background()) }, "JSON web keys": func() error { return jd.Update(background()) }} {
						w.net.Reqs = nil
						if err := f(); err != nil {
							x.Failf("%q: update of the %s: %v", u, n, err)
						}
						w.c28seen(u+" "+n, w.c28urls(base, "sys.auth", []string{"d"}, nil, n == "public keys", n == "policies", n == "JSON web keys"))
					}
					x.Evals(1)
				}
			}
		}
		x.Eval("daemon urls " + scheme)
	}})
	out = append(out, &Scenario{Name: "daemon-settings", Cfg: seqCfg, Body: func(x *vs.Exec) {
		kind := x.Choose(3)
		vals := []string{"absent", "", "3s", "20s", "2m"}
		given := func() []string {
			var l []string
			for i := 0; i < 2; i++ {
				if v := vals[x.Choose(len(vals))]; v != "absent" {
					l = append(l, v)
				}
			}
			return l
		}
		last := func(l []string, def time.Duration) time.Duration {
			for _, v := range l {
				if v != "" {
					def, _ = time.ParseDuration(v)
				}
			}
			return def
		}
		periods, delays := given(), given()
		desc := fmt.Sprintf("daemon %d, periods %q, delays %q", kind, periods, delays)
		x.Label("settings", desc)
		attempts := [][]int{nil, {1}, {3, 1}, {1, 4}}
		if kind != 0 {
			attempts = attempts[:1]
		}
		for _, at := range attempts {
			var times []time.Duration
			w := newAuthServer(x)
			w.net.quiet = true
			w.answer = func(k, name string, r *http.Request) *Ans {
				if kind != 1 || name == "zts" {
					times = append(times, x.Elapsed())
				}
				return status(500)
			}
			period, delay, retries := time.Duration(0), time.Minute, 0
			ctx, cancel := withCancel()
			var err error
			var ech <-chan error
			t0 := x.Elapsed()
			switch kind {
			case 0:
				period, retries = 30*time.Minute, 2
				o := []policy.Option{policy.WithAthenzURL(athenzURL), policy.WithAthenzDomains("d"), policy.WithPubKeyProvider(fakeProvider), policy.WithHTTPClient(w.net.client())}
				for _, v := range periods {
					o = append(o, policy.WithRefreshPeriod(v))
				}
				for _, v := range delays {
					o = append(o, policy.WithRetryDelay(v))
				}
				for _, v := range at {
					o = append(o, policy.WithRetryAttempts(v))
					retries = v
				}
				var d policy.Daemon
				if d, err = policy.New(o...); err == nil {
					ech = d.Start(ctx)
				}
			case 1:
				period = 24 * time.Hour
				o := []pubkey.Option{pubkey.WithAthenzURL(athenzURL), pubkey.WithHTTPClient(w.net.client())}
				for _, v := range periods {
					o = append(o, pubkey.WithRefreshPeriod(v))
				}
				for _, v := range delays {
					o = append(o, pubkey.WithRetryDelay(v))
				}
				var d pubkey.Daemon
				if d, err = pubkey.New(o...); err == nil {
					ech = d.Start(ctx)
				}
			case 2:
				period = 24 * time.Hour
				o := []jwk.Option{jwk.WithAthenzJwksURL(athenzURL), jwk.WithHTTPClient(w.net.client())}
				for _, v := range periods {
					o = append(o, jwk.WithRefreshPeriod(v))
				}
				for _, v := range delays {
					o = append(o, jwk.WithRetryDelay(v))
				}
				var d jwk.Daemon
				if d, err = jwk.New(o...); err == nil {
					ech = d.Start(ctx)
				}
			}
			if err != nil {
				x.Failf("%s: %v", desc, err)
			}
			period, delay = last(periods, period), last(delays, delay)
			rd := x.Spawn("reader", func() {
				for {
					if _, ok := vs.Recv2(ech); !ok {
						return
					}
				}
			})
			vs.Sleep(period + 20*delay)
			cancel()
			rd.Join()
			if len(times) < 6 {
				x.Failf("%s %v: requests at %v", desc, at, times)
			}
			if times[0]-t0 != period {
				x.Failf("%s %v: the first refresh begins after %v, period %v", desc, at, times[0]-t0, period)
			}
			// gaps between the requests: the delay, but for the first retry of the refresh and the periods in between
			atOnce, other := 0, 0
			for i := 1; i < 6; i++ {
				switch g := times[i] - times[i-1]; {
				case g == delay:
				case kind == 0 && i%(retries+1) == 0 && g <= 2*delay: // the next refresh
				case g == 0:
					atOnce++
				default:
					other++
				}
			}
			if atOnce > 1 && period > 6*delay || other > 0 {
				x.Failf("%s %v: requests at %v, delay %v", desc, at, times, delay)
			}
			if kind == 0 {
				// requests of one refresh
				n := len(times)
				p, _ := policy.New(policy.WithAthenzURL(athenzURL), policy.WithAthenzDomains("d"), policy.WithPubKeyProvider(fakeProvider), policy.WithHTTPClient(w.net.client()), policy.WithRetryDelay("1s"), func() policy.Option {
					if len(at) == 2 {
						return policy.WithRetryAttempts(at[0])
					}
					return policy.WithRetryAttempts(retries)
				}(), policy.WithRetryAttempts(retries))
				p.Update(background())
				if len(times)-n != retries+1 {
					x.Failf("%s %v: %d requests in one refresh, %d retries set", desc, at, len(times)-n, retries)
				}
			}
			x.Evals(1)
		}
		x.Eval(desc)
	}})
	out = append(out, c28attempts())
	out = append(out, &Scenario{Name: "daemon-tags", Cfg: seqCfg, Body: func(x *vs.Exec) {
		vals := []string{"absent", "", "1h", "5h", "12h"}
		kind := x.Choose(2)
		var l []string
		for i := 0; i < 3; i++ {
			if v := vals[x.Choose(len(vals))]; v != "absent" {
				l = append(l, v)
			}
		}
		x.Label("settings", fmt.Sprint(kind, l))
		def := 3 * time.Hour
		if kind == 1 {
			def = 168 * time.Hour
		}
		for _, v := range l {
			if v != "" {
				def, _ = time.ParseDuration(v)
			}
		}
		const life = 13 * time.Hour
		for _, probe := range []time.Duration{30 * time.Minute, 2 * time.Hour, 7*time.Hour + time.Minute, 9 * time.Hour, 12*time.Hour + 30*time.Minute} {
			w := newAuthServer(x)
			w.net.quiet = true
			t0 := x.Elapsed()
			exp := (t0 + life).Truncate(time.Millisecond)
			seen := ""
			w.answer = func(k, name string, r *http.Request) *Ans {
				seen = r.Header.Get("If-None-Match")
				if k == rqPolicy {
					return ok200("doc", verDoc("d", 1, exp).Raw(), "tag")
				}
				return ok200("keys", w.pub["zts"], "tag")
			}
			var upd func() error
			want := true
			if kind == 0 {
				o := []policy.Option{policy.WithAthenzURL(athenzURL), policy.WithAthenzDomains("d"), policy.WithPubKeyProvider(fakeProvider), policy.WithHTTPClient(w.net.client())}
				for _, v := range l {
					o = append(o, policy.WithExpiryMargin(v))
				}
				d, err := policy.New(o...)
				if err != nil {
					x.Failf("policy.New %v: %v", l, err)
				}
				upd = func() error { ctx, cancel := withCancel(); defer x.Settle(); defer cancel(); return d.Update(ctx) }
				want = t0+probe < exp-def
			} else {
				o := []pubkey.Option{pubkey.WithAthenzURL(athenzURL), pubkey.WithHTTPClient(w.net.client())}
				for _, v := range l {
					o = append(o, pubkey.WithETagExpiry(v))
				}
				d, err := pubkey.New(o...)
				if err != nil {
					x.Failf("pubkey.New %v: %v", l, err)
				}
				upd = func() error { return d.Update(background()) }
				want = probe < def
			}
			if err := upd(); err != nil {
				x.Failf("%v: %v", l, err)
			}
			vs.Sleep(probe)
			if err := upd(); err != nil {
				x.Failf("%v after %v: %v", l, probe, err)
			}
			if (seen == "tag") != want {
				x.Failf("kind %d, settings %v: %v later the request carries %q, want tag=%v", kind, l, probe, seen, want)
			}
			x.Evals(1)
		}
		x.Eval(fmt.Sprint(kind, l))
	}})
	return out
}

// c28trans is a translator prefixing both texts.
type c28trans string

func (t c28trans) Translate(domain, method, path, query string) (string, string, error) {
	return string(t) + method, string(t) + path, nil
}
