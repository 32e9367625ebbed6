package main

import (
	"fmt"
	"net/http"
	"strings"

	"vs"
)

// c10many refreshes a longer list of key-set URLs twice, every subset of them
// failing in the first refresh and every subset, the same, the complementary
// one or one single URL failing in the second.
func c10many(thorough bool) *Scenario {
	keys := []string{"ec1", "ec2", "ec3", "rsa1", "rsa2", "ec1", "ec2"}
	lens := []int{3, 5, 6}
	return &Scenario{Name: "many-urls", Cfg: seqCfg, Body: func(x *vs.Exec) {
		n := lens[x.Choose(len(lens))]
		kind := []string{"500", "neterr"}[x.Choose(2)]
		urls := []string{}
		for i := 0; i < n; i++ {
			urls = append(urls, fmt.Sprintf("https://host%d.example/jwk", i))
		}
		if x.Choose(2) == 1 {
			urls[n-1] = athenzJWK
		} else {
			urls = append(urls[:n-1], "https://last.example/jwk")
		}
		all := append([]string(nil), urls...)
		if all[n-1] != athenzJWK {
			all = append(all, athenzJWK)
		}
		m := len(all)
		top := 1 << uint(m)
		body := func(round, i int) []byte {
			return cachedBody(fmt.Sprint("c10many", round, i), func() []byte {
				return jwksDoc("k="+keys[(i+round)%len(keys)], fmt.Sprintf("only%d=%s", i, keys[i%len(keys)]))
			})
		}
		run := func(fail [2]int) {
			round := 0
			d := newJwk(x, urls, func(u string, r *http.Request) *Ans {
				for i, v := range all {
					if v != u {
						continue
					}
					if fail[round]>>uint(i)&1 == 0 {
						return ok200("ok", body(round, i), "")
					}
					if kind == "neterr" {
						return netErr()
					}
					a := ok200("500", body(round, i), "")
					a.Status = 500
					return a
				}
				x.Failf("unexpected request to %s", u)
				return nil
			})
			p := d.GetProvider()
			have := make([]string, m)
			for ; round < 2; round++ {
				x.Label("failing", fmt.Sprintf("%d URLs, failing sets %b, refresh %d", m, fail, round))
				err := d.Update(background())
				if (err != nil) != (fail[round] != 0) {
					x.Failf("%d URLs of which %b fail: refresh reports %v", m, fail[round], err)
				}
				for i, u := range all {
					if fail[round]>>uint(i)&1 == 0 {
						have[i] = keys[(i+round)%len(keys)]
						if err != nil && strings.Contains(err.Error(), u) {
							x.Failf("the error names %s, which was fetched: %v", u, err)
						}
					} else if !strings.Contains(err.Error(), u) {
						x.Failf("the error does not name %s: %v", u, err)
					}
				}
				for i, u := range all {
					if got := rawName(p("k", u)); got != have[i] {
						x.Failf("%d URLs, failing %b: key of %s is %q, want %q", m, fail[:round+1], u, got, have[i])
					}
					for j := range all {
						want := ""
						if j == i && have[i] != "" {
							want = keys[i%len(keys)]
						}
						if (j == i || j == (i+1)%m) && rawName(p(fmt.Sprintf("only%d", j), u)) != want {
							x.Failf("key only%d of %s is %q, want %q", j, u, rawName(p(fmt.Sprintf("only%d", j), u)), want)
						}
					}
				}
			}
			round = 1
			x.Evals(1)
		}
		for a := 0; a < top; a++ {
			seen := map[int]bool{}
			second := []int{0, a, top - 1 - a, top - 1}
			for i := 0; i < m; i++ {
				second = append(second, 1<<uint(i))
			}
			if thorough {
				second = nil
				for b := 0; b < top; b++ {
					second = append(second, b)
				}
			}
			for _, b := range second {
				if !seen[b] {
					seen[b] = true
					run([2]int{a, b})
				}
			}
		}
	}}
}

// c10sizes serves key sets of 0..n keys and looks every one of them up.
func c10sizes() *Scenario {
	names := []string{"ec1", "ec2", "ec3", "rsa1", "rsa2"}
	return &Scenario{Name: "sizes", Cfg: seqCfg, Body: func(x *vs.Exec) {
		a := x.Choose(41)
		for _, b := range []int{0, 1, a, a + 1, 40 - a} {
			cur := a
			d := newJwk(x, []string{jku1}, func(u string, r *http.Request) *Ans {
				return ok200("ok", cachedBody(fmt.Sprint("c10sizes", cur, u), func() []byte {
					var ids []string
					for i := 0; i < cur; i++ {
						o := 0
						if u == jku1 {
							o = 1
						}
						ids = append(ids, fmt.Sprintf("%d=%s", i, names[(i+cur+o)%len(names)]))
					}
					return jwksDoc(ids...)
				}), "")
			})
			p := d.GetProvider()
			for _, n := range []int{a, b} {
				cur = n
				if err := d.Update(background()); err != nil {
					x.Failf("key sets of %d keys: %v", n, err)
				}
				for i := 0; i < 43; i++ {
					for o, u := range []string{athenzJWK, jku1} {
						want := ""
						if i < n {
							want = names[(i+n+o)%len(names)]
						}
						if got := rawName(p(fmt.Sprint(i), u)); got != want {
							x.Failf("key %d of the %d at %s is %q, want %q", i, n, u, got, want)
						}
					}
				}
			}
			x.Evals(1)
		}
	}}
}
