package main

import (
	"fmt"
	"net/http"
	"reflect"
	"strings"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/yahoojapan/athenz-authorizer/v5/jwk"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
	"github.com/yahoojapan/athenz-authorizer/v5/role"

	"vs"
)

func init() {
	register(&Check{
		ID:        "C08",
		Rule:      "every sequence (up to the depth bound) of server states (key sets, undecodable sets, with and without entity tag) x answer modes for one service, combined with every behaviour class of the other service, and clock advances beyond the tag lifetime; every interleaving of two refreshes during a key rotation; reference: key table",
		Scenarios: c08,
	})
	register(&Check{
		ID:        "C09",
		Rule:      "every interleaving (bounded preemptions) of key refreshes (rotation, removal, failure) with lookups and signature verifications; distinct by the lookup results observed",
		Scenarios: c09,
	})
	register(&Check{
		ID:        "C10",
		Rule:      "every sequence of per-URL answers over three key-set URLs up to the depth bound, every (key id, URL) lookup after every refresh; every interleaving of refreshes with lookups; reference: table of the last good set per URL",
		Scenarios: c10,
	})
}

var refVers = map[string]authcore.Verifier{}

// verName tells which of the real keys a verifier uses ("" none).
func verName(v authcore.Verifier) string {
	if v == nil {
		return ""
	}
	names := []string{"ec1", "ec2", "ec3", "ec4", "rsa1", "rsa2"}
	for _, n := range names {
		if keyPEM[n] == "" {
			continue
		}
		r := refVers[n]
		if r == nil {
			var err error
			if r, err = authcore.NewVerifier(getKey(n).pubPEM); err != nil {
				panic(err)
			}
			refVers[n] = r
		}
		if reflect.DeepEqual(r, v) {
			return n
		}
	}
	for _, n := range names {
		if keyPEM[n] != "" && v.Verify("probe", realSign(n, "probe")) == nil {
			return n
		}
	}
	return "unknown key"
}

// ---- C08 ---------------------------------------------------------------------

// keySet is a published set: id=key entries; bad sets contain an undecodable entry.
type keySet struct {
	ids []string
	bad string // "", "first", "last": where the undecodable entry is
}

func (k keySet) body(svc string) []byte {
	return cachedBody("ks "+svc+fmt.Sprint(k), func() []byte {
		b := string(pubkeyDoc(svc, k.ids...))
		const junk = `{"id":"junk","key":"LS0tLS1CRUdJTi--"}`
		switch {
		case k.bad == "first" && len(k.ids) > 0:
			b = strings.Replace(b, `"publicKeys":[`, `"publicKeys":[`+junk+`,`, 1)
		case k.bad == "last" && len(k.ids) > 0:
			b = strings.Replace(b, `}]`, `},`+junk+`]`, 1)
		}
		return []byte(b)
	})
}

func (k keySet) table() string {
	m := map[string]string{}
	for _, e := range k.ids {
		id, key, f := strings.Cut(e, "=")
		if !f {
			key = id
		}
		m[id] = key
	}
	s := ""
	for _, id := range c08ids {
		s += id + "=" + m[id] + " "
	}
	return s
}

var c08ids = []string{"", "a", "b", "ec1", "junk"}

func lookAll(p pubkey.Provider, e pubkey.AthenzEnv) string {
	s := ""
	for _, id := range c08ids {
		s += id + "=" + verName(p(e, id)) + " "
	}
	return s
}

// keySrv is the state of one service at the server.
type keySrv struct {
	set   keySet
	tag   string
	mode  string
	unsol bool // the last answer was a 304 nobody asked for
}

var c08modes = []string{"ok", "500", "neterr", "garbage", "truncated", "304"}

func (s *keySrv) answer(svc string, r *http.Request) *Ans {
	switch s.mode {
	case "500":
		a := ok200("500", s.set.body(svc), s.tag)
		a.Status = 500
		return a
	case "neterr":
		return netErr()
	case "garbage":
		return ok200("garbage", []byte(`{"publicKeys":[`), s.tag)
	case "truncated":
		a := ok200("truncated", s.set.body(svc), s.tag)
		a.Body = a.Body[:len(a.Body)-2]
		a.BodyErr = errNet
		return a
	case "304":
		if r.Header.Get("If-None-Match") == "" {
			s.unsol = true
			return status(304) // nobody asked for it
		}
	}
	if s.tag != "" && r.Header.Get("If-None-Match") == s.tag {
		return status(304)
	}
	return ok200("keys", s.set.body(svc), s.tag)
}

func c08(thorough bool) []*Scenario {
	sets := []keySet{{ids: []string{"a=ec1"}}, {ids: []string{"a=ec3", "b=rsa1"}}, {ids: []string{"a=ec2", "b=ec1"}, bad: "first"}, {ids: []string{"b=ec2"}, bad: "last"}, {}}
	other := []keySet{{ids: []string{"a=ec2"}}, {ids: []string{"b=ec2", "ec1=rsa2"}}}
	depth := 3
	if thorough {
		depth = 4
	}
	type ev struct {
		set int
		tag bool
		md  string
	}
	var evs []ev
	for i := range sets {
		evs = append(evs, ev{i, true, "ok"}, ev{i, false, "ok"})
	}
	for _, m := range c08modes[1:] {
		evs = append(evs, ev{1, true, m}, ev{-1, true, m})
	}
	seq := func(main, oth string) *Scenario {
		return &Scenario{Name: "sequences-" + main, Cfg: seqCfg, Body: func(x *vs.Exec) {
			prefix := make([]int, depth-2)
			no := 4 // behaviours of the other service: unchanged, changed, failing, undecodable
			for i := range prefix {
				n := len(evs) * no
				if i > 0 {
					n *= 2
				}
				prefix[i] = x.Choose(n)
			}
			// the last two steps are enumerated here
			run := func(steps []int) {
				srv := map[string]*keySrv{main: {set: sets[0], tag: "m-init", mode: "ok"}, oth: {set: other[0], tag: "o-init", mode: "ok"}}
				w := newAuthServer(x)
				w.net.quiet = true
				w.answer = func(kind, name string, r *http.Request) *Ans {
					s := srv[name]
					if kind != rqPubkey || s == nil {
						x.Failf("unexpected request %s", r.URL)
					}
					return s.answer(name, r)
				}
				d, err := pubkey.New(pubkey.WithAthenzURL(athenzURL), pubkey.WithHTTPClient(w.net.client()), pubkey.WithETagExpiry("1h"))
				if err != nil {
					x.Failf("pubkey.New: %v", err)
				}
				p := d.GetProvider()
				env := map[string]pubkey.AthenzEnv{"zts": pubkey.EnvZTS, "zms": pubkey.EnvZMS}
				have := map[string]string{main: keySet{}.table(), oth: keySet{}.table()}
				story := ""
				for n, st := range steps {
					e := evs[st%len(evs)]
					o := st / len(evs) % no
					if st/len(evs)/no == 1 {
						x.JumpBy(2 * time.Hour)
						story += " +2h"
					}
					m, q := srv[main], srv[oth]
					if e.set >= 0 {
						m.set = sets[e.set]
						m.tag = ""
						if e.tag {
							m.tag = fmt.Sprintf("m%d", e.set)
						}
					}
					m.mode, m.unsol = e.md, false
					q.mode = "ok"
					switch o {
					case 1:
						q.set, q.tag = other[1], "o1"
					case 2:
						q.mode = "500"
					case 3:
						q.set, q.tag = keySet{ids: []string{"a=rsa2", "b=ec2"}, bad: "last"}, "o3"
					}
					story += fmt.Sprintf(" | %s: set %d tag %q mode %s; %s: %d", main, e.set, m.tag, m.mode, oth, o)
					x.Label("story", story)
					err := d.Update(background())
					good := true
					for _, svc := range []string{main, oth} {
						s := srv[svc]
						got := lookAll(p, env[svc])
						want := s.set.table()
						fine := (s.mode == "ok" || s.mode == "304" && !s.unsol) && s.set.bad == ""
						if fine {
							if got != want {
								x.Failf("step %d: %s answered properly but its keys are %s, published %s", n+1, svc, got, want)
							}
							have[svc] = want
							continue
						}
						good = false
						if got != have[svc] {
							x.Failf("step %d: the refresh of %s fails but its keys changed from %s to %s", n+1, svc, have[svc], got)
						}
					}
					if good != (err == nil) {
						x.Failf("step %d: refresh reports %v; data good: %v", n+1, err, good)
					}
				}
				x.Eval(story)
			}
			all := len(evs) * no * 2
			for i := 0; i < all; i++ {
				// advancing the clock and disturbing the other service are independent of each other: not both in the last steps
				if i/len(evs)/no == 1 && i/len(evs)%no != 0 {
					continue
				}
				for j := 0; j < all; j++ {
					if !thorough && j/len(evs)%no != 0 || j/len(evs)/no == 1 && j/len(evs)%no != 0 {
						continue
					}
					run(append(append([]int(nil), prefix...), i, j))
				}
			}
		}}
	}
	out := []*Scenario{seq("zts", "zms"), seq("zms", "zts"), c08names(), c08kinds(), c08tags(), c08sizes(thorough)}

	out = append(out, &Scenario{Name: "two-refreshes", Cfg: concCfg, P: 1, PT: 2, S: 1, ST: 2, Body: func(x *vs.Exec) {
		v1, v2 := keySet{ids: []string{"a=ec1"}}, keySet{ids: []string{"a=ec3", "b=ec1"}}
		n := 0
		w := newAuthServer(x)
		w.answer = func(kind, name string, r *http.Request) *Ans {
			if name != "zts" {
				return nil
			}
			n++
			s := &keySrv{set: v1, tag: "t1", mode: "ok"}
			if n > 1 {
				s = &keySrv{set: v2, tag: "t2", mode: "ok"}
			}
			return s.answer("zts", r)
		}
		d, err := pubkey.New(pubkey.WithAthenzURL(athenzURL), pubkey.WithHTTPClient(w.net.client()))
		if err != nil {
			x.Failf("pubkey.New: %v", err)
		}
		up := func() {
			if err := d.Update(background()); err != nil {
				x.Failf("refresh: %v", err)
			}
		}
		a, b := x.Spawn("refresh1", up), x.Spawn("refresh2", up)
		a.Join()
		b.Join()
		x.Quiet(func() {
			p := d.GetProvider()
			x.Outcome(lookAll(p, pubkey.EnvZTS))
			if got := lookAll(p, pubkey.EnvZTS); got != v2.table() {
				x.Failf("after two refreshes the keys are %s, most recently published %s", got, v2.table())
			}
			up()
			if got := lookAll(p, pubkey.EnvZTS); got != v2.table() {
				x.Failf("a third refresh reports success, the keys are %s, published %s", got, v2.table())
			}
		})
	}})
	return out
}

// c08sizes: key sets of many keys following one another: any subset of the entries is replaced, the others stay, go or come.
func c08sizes(thorough bool) *Scenario {
	sizes := []int{2, 3, 4, 5, 8, 9, 16, 17, 33}
	if thorough {
		sizes = append(sizes, 64, 65, 100, 129, 257)
	}
	return &Scenario{Name: "sizes", Cfg: seqCfg, Body: func(x *vs.Exec) {
		svc := []string{"zts", "zms"}[x.Choose(2)]
		n := sizes[x.Choose(len(sizes))]
		tags := x.Choose(3) // none, one each, the same
		keys := []string{"ec1", "ec3", "rsa1"}
		env := map[string]pubkey.AthenzEnv{"zts": pubkey.EnvZTS, "zms": pubkey.EnvZMS}[svc]
		change := func(mode, i int) []string { // the set after a change at position i
			var l []string
			for k := 0; k < n; k++ {
				key := keys[k%3]
				switch {
				case mode == 1 && k == i || mode == 2 && k%2 == i%2 || mode == 3:
					key = keys[(k+1)%3]
				case mode == 4 && k == i:
					continue
				case mode == 5 && k >= i && i > 0 || mode == 6 && k < i:
					continue
				}
				l = append(l, fmt.Sprintf("id%d=%s", k, key))
			}
			if mode == 7 {
				l = append(l, "more="+keys[i%3])
			}
			return l
		}
		for mode := 1; mode <= 7; mode++ {
			for i := 0; i < n; i++ {
				if n > 9 && i > 2 && i < n-3 && i%8 > 1 {
					continue
				}
				var set []string
				tag := ""
				w := newAuthServer(x)
				w.net.quiet = true
				w.answer = func(kind, name string, r *http.Request) *Ans {
					if name != svc {
						return nil
					}
					if tag != "" && tag != "t" && r.Header.Get("If-None-Match") == tag {
						return status(304)
					}
					return ok200("keys", pubkeyDoc(svc, set...), tag)
				}
				d, err := pubkey.New(pubkey.WithAthenzURL(athenzURL), pubkey.WithHTTPClient(w.net.client()), pubkey.WithETagExpiry("1h"))
				if err != nil {
					x.Failf("pubkey.New: %v", err)
				}
				p := d.GetProvider()
				for step, l := range [][]string{change(0, 0), change(mode, i), change(mode, i), change(0, 0)} {
					set = l
					switch tags {
					case 1:
						tag = fmt.Sprint("t", step-step/2)
					case 2:
						tag = "t"
					}
					if err := d.Update(background()); err != nil {
						x.Failf("refresh: %v", err)
					}
					want := map[string]string{}
					for _, e := range l {
						id, key, _ := strings.Cut(e, "=")
						want[id] = key
					}
					for k := -1; k <= n; k++ {
						id := fmt.Sprintf("id%d", k)
						if k < 0 {
							id = "more"
						}
						if got := verName(p(env, id)); got != want[id] {
							x.Failf("%s with %d keys, change %d at %d, step %d: %s is %q, published %q", svc, n, mode, i, step, id, got, want[id])
						}
					}
					x.Evals(n + 2)
				}
				x.Eval(fmt.Sprint(svc, n, tags, mode, i))
			}
		}
	}}
}

// ---- C09 ---------------------------------------------------------------------

func c09(thorough bool) []*Scenario {
	var out []*Scenario
	type phase struct {
		set keySet
		ok  bool
	}
	mk := func(name string, p, pt, sw, swt int, tokens bool, phases ...phase) {
		out = append(out, &Scenario{Name: name, Cfg: concCfg, P: p, PT: pt, D: 1, DT: 1, S: sw, ST: swt, Body: func(x *vs.Exec) {
			w := newAuthServer(x)
			w.net.quiet = true
			cur := 0
			w.answer = func(kind, svc string, r *http.Request) *Ans {
				if svc != "zts" {
					return status(304)
				}
				return ok200("keys", phases[cur].set.body("zts"), fmt.Sprintf("t%d", cur))
			}
			d, err := pubkey.New(pubkey.WithAthenzURL(athenzURL), pubkey.WithHTTPClient(w.net.client()))
			if err != nil {
				x.Failf("pubkey.New: %v", err)
			}
			x.Quiet(func() { d.Update(background()); x.Settle() })
			prov := d.GetProvider()
			rp, err := role.New(role.WithPubkeyProvider(prov))
			if err != nil {
				x.Failf("role.New: %v", err)
			}
			key := func(i int, id string) string {
				if !phases[i].ok { // keeps the previous ones
					i--
				}
				for _, e := range phases[i].set.ids {
					if strings.HasPrefix(e, id+"=") {
						return e[len(id)+1:]
					}
				}
				return ""
			}
			lo, hi := 0, 0 // phases that may be in force
			u := x.Spawn("refresh", func() {
				for i := 1; i < len(phases); i++ {
					cur = i
					hi = i
					d.Update(background())
					lo = i
				}
			})
			tok := RT{Domain: "d", Principal: "u", Roles: []string{"r"}, Expires: day, Key: "ec1"}.String()
			l := x.Spawn("lookup", func() {
				res := ""
				if tokens {
					for i := 0; i < 2; i++ {
						if _, err := rp.ParseAndValidateRoleToken(tok); err != nil {
							x.Failf("a token signed by a key published before and after is refused: %v", err)
						}
					}
					return
				}
				for _, id := range []string{"ec1", "a", "b", "ec1"} {
					from := lo
					got := verName(prov(pubkey.EnvZTS, id))
					ok := false
					for i := from; i <= hi; i++ {
						ok = ok || got == key(i, id)
					}
					if !ok {
						x.Failf("looking up %s during refresh %d..%d gives key %q", id, from, hi, got)
					}
					res += id + "=" + got + " "
				}
				x.Outcome(res)
			})
			u.Join()
			l.Join()
			x.Quiet(func() {
				for _, id := range []string{"ec1", "a", "b"} {
					if got, want := verName(prov(pubkey.EnvZTS, id)), key(len(phases)-1, id); got != want {
						x.Failf("after the refresh %s is key %q, want %q", id, got, want)
					}
				}
			})
		}})
	}
	s1 := phase{keySet{ids: []string{"ec1=ec1", "a=ec2"}}, true}
	s2 := phase{keySet{ids: []string{"ec1=ec1", "a=ec3"}}, true}
	s3 := phase{keySet{ids: []string{"b=rsa1", "ec1=ec1"}}, true}
	bad := phase{keySet{ids: []string{"a=ec3", "b=rsa1"}, bad: "last"}, false}
	mk("rotation", 2, 3, 1, 2, false, s1, s2)
	mk("replacement", 2, 3, 1, 2, false, s1, s3)
	mk("removal-back", 1, 2, 1, 2, false, s3, s1, s3)
	mk("failure", 2, 3, 1, 2, false, s1, bad)
	mk("failure-then-rotation", 1, 2, 1, 2, false, s1, bad, s2)
	mk("tokens", 2, 3, 1, 2, true, s1, s3, s2)
	return out
}

// ---- C10 ---------------------------------------------------------------------

const (
	jku1 = "https://one.example/jwk"
	jku2 = "http://two.example:8080/a/jwk?x=1"
)

type jwkSrv struct{ mode map[string]string }

var c10sets = map[string][]string{
	"v1": {"k1=ec3", "k2=rsa2"},
	"v2": {"k1=ec1"},
	"v3": {"k2=ec2", "k3=ec3"},
	"e":  {},
}

// c10set differs per URL: the same id names different keys at different URLs.
func c10set(url, mode string) map[string]string {
	rot := map[string]map[string]string{
		athenzJWK: {"ec1": "ec1", "ec2": "ec2", "ec3": "ec3", "rsa2": "rsa2"},
		jku1:      {"ec1": "ec2", "ec2": "ec3", "ec3": "rsa1", "rsa2": "ec1"},
		jku2:      {"ec1": "rsa1", "ec2": "rsa2", "ec3": "ec2", "rsa2": "ec3"},
	}[url]
	out := map[string]string{}
	for _, e := range c10sets[mode] {
		id, k, _ := strings.Cut(e, "=")
		out[id] = rot[k]
	}
	return out
}

func c10body(url, mode string) *Ans {
	switch mode {
	case "500":
		a := ok200("500", c10body(url, "v3").Body, "")
		a.Status = 500
		return a
	case "neterr":
		return netErr()
	case "garbage":
		return ok200("garbage", []byte(`{"keys":[`), "")
	case "html":
		return ok200("html", []byte(`<html>`), "")
	case "trunc":
		a := ok200("trunc", c10body(url, "v3").Body, "")
		a.Body, a.BodyErr = a.Body[:len(a.Body)-1], errNet
		return a
	case "badkey":
		return ok200("badkey", []byte(`{"keys":[{"kty":"RSA","kid":"k1"}]}`), "")
	}
	return ok200(mode, cachedBody("c10"+url+mode, func() []byte {
		var ids []string
		for _, e := range c10sets[mode] {
			id, _, _ := strings.Cut(e, "=")
			ids = append(ids, id+"="+c10set(url, mode)[id])
		}
		return jwksDoc(ids...)
	}), "")
}

func rawName(k any) string {
	if k == nil {
		return ""
	}
	type eq interface{ Equal(x any) bool }
	for _, n := range []string{"ec1", "ec2", "ec3", "ec4", "rsa1", "rsa2"} {
		if keyPEM[n] == "" {
			continue
		}
		if reflect.DeepEqual(k, getKey(n).pub) {
			return n
		}
	}
	return fmt.Sprintf("unknown %T", k)
}

func newJwk(x *vs.Exec, urls []string, h func(url string, r *http.Request) *Ans) jwk.Daemon {
	n := newNet(x, func(r *http.Request) *Ans { return h(r.URL.String(), r) })
	n.quiet = true
	d, err := jwk.New(jwk.WithAthenzJwksURL(athenzURL), jwk.WithURLs(urls), jwk.WithHTTPClient(n.client()))
	if err != nil {
		x.Failf("jwk.New: %v", err)
	}
	return d
}

func c10(thorough bool) []*Scenario {
	fails := map[string]bool{"500": true, "neterr": true, "garbage": true, "html": true, "trunc": true, "badkey": true}
	urlSets := [][]string{{}, {jku1}, {jku1, jku2}, {jku2, jku1, athenzJWK}, {athenzJWK}}
	kids := []string{"", "k1", "k2", "k3", "nope"}
	look := func(p jwk.Provider, url string) string {
		s := ""
		for _, k := range kids {
			s += k + "=" + rawName(p(k, url)) + " "
		}
		return s
	}
	table := func(url, mode string) string {
		s := ""
		m := map[string]string{}
		if mode != "" {
			m = c10set(url, mode)
		}
		for _, k := range kids {
			s += k + "=" + m[k] + " "
		}
		return s
	}
	seq := func(name string, modes []string, depth int) *Scenario {
		return &Scenario{Name: name, Cfg: seqCfg, Body: func(x *vs.Exec) {
			urls := urlSets[x.Choose(len(urlSets))]
			all := []string{athenzJWK}
			for _, u := range urls {
				if u != athenzJWK {
					all = append(all, u)
				}
			}
			comb := 1
			for range all {
				comb *= len(modes)
			}
			var pre []int
			for i := 0; i < depth-1; i++ {
				pre = append(pre, x.Choose(comb))
			}
			for last := 0; last < comb; last++ {
				mode := map[string]string{}
				d := newJwk(x, urls, func(u string, r *http.Request) *Ans {
					if mode[u] == "" {
						x.Failf("unexpected request to %s", u)
					}
					return c10body(u, mode[u])
				})
				p := d.GetProvider()
				good := map[string]string{}
				story := fmt.Sprintf("urls %v", urls)
				for _, s := range append(append([]int(nil), pre...), last) {
					var bad, fine []string
					for i, u := range all {
						_ = i
						mode[u] = modes[s%len(modes)]
						s /= len(modes)
						if fails[mode[u]] {
							bad = append(bad, u)
						} else {
							fine = append(fine, u)
							good[u] = mode[u]
						}
					}
					story += fmt.Sprint(" | ", mode)
					x.Label("story", story)
					err := d.Update(background())
					if (err != nil) != (len(bad) > 0) {
						x.Failf("refresh reports %v, failing URLs %v", err, bad)
					}
					if err != nil {
						for _, u := range bad {
							if !strings.Contains(err.Error(), u) {
								x.Failf("the error does not name %s: %v", u, err)
							}
						}
						for _, u := range fine {
							if strings.Contains(err.Error(), u) {
								x.Failf("the error names %s, which was fetched: %v", u, err)
							}
						}
					}
					for _, u := range all {
						if got, want := look(p, u), table(u, good[u]); got != want {
							x.Failf("keys of %s: %s, want %s", u, got, want)
						}
					}
					if got, want := look(p, ""), table(athenzJWK, good[athenzJWK]); got != want {
						x.Failf("keys without a URL: %s, want %s", got, want)
					}
					for _, u := range []string{"https://evil.example/jwk", jku1 + "/", strings.ToUpper(jku1), " ", "one.example/jwk", "https://" + athenzURL + "/oauth2/keys", "http://two.example:8080/a/jwk"} {
						if got := look(p, u); got != table("", "") {
							x.Failf("unconfigured URL %q yields keys %s", u, got)
						}
					}
					for _, u := range []string{jku1, jku2} {
						if good[u] == "" && look(p, u) != table("", "") {
							x.Failf("URL %q without a good fetch yields keys", u)
						}
					}
				}
				x.Eval(story)
			}
		}}
	}
	d2, d3 := 2, 3
	if thorough {
		d3 = 4
	}
	out := []*Scenario{seq("answers", []string{"v1", "v2", "e", "500", "neterr", "garbage", "trunc", "badkey"}, d2), seq("sequences", []string{"v1", "v3", "500"}, d3), c10names(), c10many(thorough), c10sizes(), c10kinds(), c10shapes(thorough)}

	conc := func(name string, p, pt, sw, swt int, fail bool) {
		out = append(out, &Scenario{Name: name, Cfg: concCfg, P: p, PT: pt, S: sw, ST: swt, Body: func(x *vs.Exec) {
			ver := "v1"
			d := newJwk(x, []string{jku1}, func(u string, r *http.Request) *Ans {
				if fail && ver == "v3" && u == athenzJWK {
					return c10body(u, "500")
				}
				return c10body(u, ver)
			})
			x.Quiet(func() {
				if err := d.Update(background()); err != nil {
					x.Failf("initial: %v", err)
				}
				x.Settle()
			})
			pr := d.GetProvider()
			ver = "v3"
			done := false
			u := x.Spawn("refresh", func() {
				if err := d.Update(background()); (err != nil) != fail {
					x.Failf("refresh: %v", err)
				}
				done = true
			})
			l := x.Spawn("lookup", func() {
				res := ""
				for _, url := range []string{jku1, "", jku1} {
					fin := done
					got := rawName(pr("k2", url))
					ru := url
					if ru == "" {
						ru = athenzJWK
					}
					o, n := c10set(ru, "v1")["k2"], c10set(ru, "v3")["k2"]
					if fail && url == "" {
						n = o
					}
					if got != n && (got != o || fin) {
						x.Failf("lookup of k2 at %q during a refresh: %q, before %q, after %q, finished %v", url, got, o, n, fin)
					}
					res += got + " "
				}
				x.Outcome(res)
			})
			u.Join()
			l.Join()
		}})
	}
	conc("refresh-lookup", 2, 4, 1, 2, false)
	conc("failing-refresh-lookup", 2, 4, 1, 2, true)

	out = append(out, &Scenario{Name: "two-refreshes", Cfg: concCfg, P: 2, PT: 3, S: 1, ST: 2, Body: func(x *vs.Exec) {
		n := map[string]int{}
		d := newJwk(x, []string{jku1}, func(u string, r *http.Request) *Ans {
			n[u]++
			if n[u] == 1 {
				return c10body(u, "v1")
			}
			return c10body(u, "v3")
		})
		up := func() {
			if err := d.Update(background()); err != nil {
				x.Failf("refresh: %v", err)
			}
		}
		a, b := x.Spawn("refresh1", up), x.Spawn("refresh2", up)
		a.Join()
		b.Join()
		x.Quiet(func() {
			for _, u := range []string{jku1, athenzJWK} {
				if got := look(d.GetProvider(), u); got != table(u, "v3") {
					x.Failf("after two refreshes %s has keys %s, fetched last %s", u, got, table(u, "v3"))
				}
			}
		})
	}})
	return out
}
