package main

import (
	"fmt"
	"net/http"
	"net/url"
	"strings"

	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"

	"vs"
)

// Identifiers that a lookup must tell apart: case, blanks, separators, prefixes, encodings, lengths.
var nearIDs = []string{"0", "00", "0.0", "1", "a", "A", "aa", " a", "a ", "a.b", "a/b", "a,b", "a:b", "%61", "é", "e\u0301", "ſ", "s", "a\x00", strings.Repeat("k", 300), strings.Repeat("k", 301)}

// c08names: every pair of similar key ids published together (with different keys), by both services, in
// both orders, and exchanged by a second refresh.
func c08names() *Scenario {
	return &Scenario{Name: "key-ids", Cfg: seqCfg, Body: func(x *vs.Exec) {
		a := nearIDs[x.Choose(len(nearIDs))]
		for _, b := range nearIDs {
			for _, c := range []string{"", nearIDs[5], nearIDs[len(nearIDs)-1]} {
				if b == a || c == a || c == b {
					continue
				}
				sets := map[string][][2]string{"zts": {{a, "ec1"}, {b, "ec2"}}, "zms": {{b, "ec3"}, {a, "rsa1"}}}
				if c != "" {
					sets["zts"] = append(sets["zts"], [2]string{c, "rsa2"})
				}
				w := newAuthServer(x)
				w.net.quiet = true
				w.answer = func(kind, name string, r *http.Request) *Ans {
					if kind != rqPubkey {
						return nil
					}
					var ids []string
					for _, e := range sets[name] {
						ids = append(ids, e[0]+"="+e[1])
					}
					return ok200("keys", cachedBody("ids "+name+fmt.Sprintf("%q", ids), func() []byte { return pubkeyDoc(name, ids...) }), "")
				}
				d, err := pubkey.New(pubkey.WithAthenzURL(athenzURL), pubkey.WithHTTPClient(w.net.client()))
				if err != nil {
					x.Failf("pubkey.New: %v", err)
				}
				p := d.GetProvider()
				for round := 0; round < 3; round++ {
					x.Label("case", fmt.Sprintf("ids %q %q %q, refresh %d", a, b, c, round+1))
					if err := d.Update(background()); err != nil {
						x.Failf("refresh: %v", err)
					}
					for svc, env := range map[string]pubkey.AthenzEnv{"zts": pubkey.EnvZTS, "zms": pubkey.EnvZMS} {
						for _, id := range append([]string{"", "b", "k"}, nearIDs...) {
							want := ""
							for _, e := range sets[svc] {
								if e[0] == id {
									want = e[1]
								}
							}
							if got := verName(p(env, id)); got != want {
								x.Failf("%s publishes %q: looking up %q yields key %q, want %q", svc, sets[svc], id, got, want)
							}
						}
					}
					// the next refresh: keys exchanged, then one id gone
					if round == 0 {
						sets["zts"] = [][2]string{{b, "ec1"}, {a, "ec2"}}
						sets["zms"] = [][2]string{{a, "ec3"}}
					} else {
						sets["zts"] = [][2]string{{b, "ec1"}}
						sets["zms"] = [][2]string{{b, "ec3"}}
					}
				}
				x.Eval(fmt.Sprintf("%q %q %q", a, b, c))
			}
		}
	}}
}

// Key-set URLs that a lookup must tell apart.
var nearURLs = []string{"https://one.example/jwk", "https://one.example/jwk/", "http://one.example/jwk", "https://one.example/jwk?", "https://one.example/jwk?x=1", "https://one.example/jwk?x=2",
	"https://one.example/JWK", "https://one.example:443/jwk", "https://one.example:444/jwk", "https://one.example/jw", "https://one.example/jwks", "https://one.example/", "https://one.example", "https://one.example//jwk",
	"https://one.example/a/../jwk", "https://one.example/%6awk", "https://user@one.example/jwk", "https://one.example./jwk", "https://one.example/jwk#f", athenzJWK, athenzJWK + "?", strings.Replace(athenzJWK, "https:", "http:", 1), athenzJWK + "/"}

// c10names: every pair of similar URLs configured, every similar URL asked for, with similar key ids.
func c10names() *Scenario {
	return &Scenario{Name: "urls-and-key-ids", Cfg: seqCfg, Body: func(x *vs.Exec) {
		a := nearURLs[x.Choose(len(nearURLs))]
		for bi, b := range nearURLs {
			i1, i2 := nearIDs[bi%len(nearIDs)], nearIDs[(bi*7+3)%len(nearIDs)]
			if i1 == i2 {
				i2 = "other"
			}
			conf := []string{a, b}
			keysOf := map[string][]string{}
			norm := map[string]string{}
			clash := false
			for n, u := range []string{athenzJWK, a, b} {
				if keysOf[u] != nil {
					continue
				}
				pu, err := url.Parse(u)
				if err != nil {
					x.Failf("%v", err)
				}
				if norm[pu.String()] != "" {
					clash = true
				}
				norm[pu.String()] = u
				keysOf[u] = []string{i1 + "=" + []string{"ec1", "ec2", "ec3"}[n], i2 + "=" + []string{"rsa1", "ec1", "rsa2"}[n]}
			}
			if clash {
				continue
			}
			d := newJwk(x, conf, func(u string, r *http.Request) *Ans {
				c, ok := norm[u]
				if !ok {
					x.Failf("request to %s, configured %q", u, conf)
				}
				return ok200("keys", cachedBody("urls"+fmt.Sprintf("%q", keysOf[c]), func() []byte { return jwksDoc(keysOf[c]...) }), "")
			})
			x.Label("case", fmt.Sprintf("urls %q %q ids %q %q", a, b, i1, i2))
			p := d.GetProvider()
			look := func(stage string) {
				for _, u := range append([]string{"", " ", "one.example", strings.ToUpper(a), " " + a, a + " ", b + "#x"}, nearURLs...) {
					ks := keysOf[u]
					if u == "" {
						ks = keysOf[athenzJWK]
					}
					for _, id := range append([]string{"", "other"}, nearIDs...) {
						want := ""
						for _, e := range ks {
							if k, n, _ := strings.Cut(e, "="); k == id {
								want = n
							}
						}
						if stage == "before" {
							want = ""
						}
						if got := rawName(p(id, u)); got != want {
							x.Failf("%s the refresh, configured %q: key %q at %q is %q, want %q", stage, conf, id, u, got, want)
						}
					}
				}
			}
			look("before")
			if err := d.Update(background()); err != nil {
				x.Failf("refresh: %v", err)
			}
			look("after")
			x.Eval(fmt.Sprintf("%s %s", a, b))
		}
	}}
}
