package main

import (
	"bytes"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"log"
	"net/url"
	"strings"
	"time"

	"github.com/kpango/glg"
	authz "github.com/yahoojapan/athenz-authorizer/v5"

	"vs"
)

func init() {
	register(&Check{
		ID:        "C27",
		Rule:      "every ordered pair (thorough: triple) of requests over an alphabet of accepted, remembered, rejected and malformed tokens of both kinds in every position, x configurations, with everything logged captured at the most verbose level; the log must contain neither a signature presented, in any of several encodings, nor all pieces of one",
		Scenarios: c27,
	})
}

// c27req is a request together with the signatures it presents.
type c27req struct {
	areq
	name string
	sigs []string
	cert *x509.Certificate
}

// leaked tells how the text gives the signature away.
func leaked(text, sig string) string {
	if len(sig) < 8 {
		return ""
	}
	forms := map[string]string{
		"itself": sig, "escaped": url.QueryEscape(sig), "in base64": strings.TrimRight(base64.StdEncoding.EncodeToString([]byte(sig)), "="), "in hex": hex.EncodeToString([]byte(sig)),
		"quoted": strings.Trim(fmt.Sprintf("%q", sig), `"`), "as bytes": strings.Trim(fmt.Sprint([]byte(sig)), "[]"),
	}
	for how, f := range forms {
		if strings.Contains(text, f) {
			return how
		}
	}
	// all of it but a few characters, which can be tried
	if n := len(sig); n >= 16 && (strings.Contains(text, sig[:n-4]) || strings.Contains(text, sig[4:])) {
		return "nearly"
	}
	// every piece of it is there
	const n = 8
	for i := 0; i < len(sig); i += n {
		j := min(i+n, len(sig))
		if j-i < n {
			i = j - n
		}
		if !strings.Contains(text, sig[i:j]) {
			return ""
		}
		if j == len(sig) {
			break
		}
	}
	return "in pieces"
}

func c27reqs() []c27req {
	rt := RT{Domain: "d", Principal: "u.s", Roles: []string{"r"}, Expires: 1000 * time.Hour}
	var out []c27req
	role := func(name, tok string, sigs ...string) {
		out = append(out, c27req{areq: areq{kind: "role", tok: tok, act: "a", res: "x"}, name: "role token " + name, sigs: sigs})
	}
	sign := func(u string) string { return c14sign("ec1", u) }
	u := rt.unsigned()
	s := sign(u)
	role("good", u+";s="+s, s)
	flip := []byte(s)
	flip[10] ^= 1
	role("tampered", u+";s="+string(flip), string(flip))
	role("of another content", strings.Replace(u, "u.s", "v.s", 1)+";s="+s, s)
	o := rt
	o.Roles = []string{"r", "den"}
	role("denied", o.unsigned()+";s="+sign(o.unsigned()), sign(o.unsigned()))
	o.Roles = []string{"nothing"}
	role("without a match", o.unsigned()+";s="+sign(o.unsigned()), sign(o.unsigned()))
	o = rt
	o.Expires = -time.Minute
	role("expired", o.unsigned()+";s="+sign(o.unsigned()), sign(o.unsigned()))
	uk := strings.Replace(u, "k=ec1", "k=unknown", 1)
	role("of an unknown key", uk+";s="+sign(uk), sign(uk))
	bad := strings.Replace(u, ";t=", ";t=x", 1)
	role("with a malformed time", bad+";s="+sign(bad), sign(bad))
	bad = strings.Replace(u, ";t=", ";noequals;t=", 1)
	role("with a malformed pair", bad+";s="+sign(bad), sign(bad))
	role("with the signature twice", u+";s="+s+";s="+s, s)
	role("with the signature first", "s="+s+";"+u, s)
	role("with the signature in the middle", strings.Replace(u, ";r=", ";s="+s+";r=", 1), s)
	role("with a colon", u+";h=a:b;s="+sign(u+";h=a:b"), sign(u+";h=a:b"))
	role("with a backslash", u+`;h=a\b;s=`+sign(u+`;h=a\b`), sign(u+`;h=a\b`))
	role("with a percent", u+`;h=%d;s=`+sign(u+`;h=%d`), sign(u+`;h=%d`))
	role("with blanks around", " "+u+";s="+s+" ", s)
	role("without the separator", u+"s="+s, s)
	role("in upper case", strings.Replace(u, ";", ";", 1)+";S="+s, s)
	role("empty signature", u+";s=", "")

	acc := func(name, tok string, sigs ...string) {
		out = append(out, c27req{areq: areq{kind: "access", tok: tok, act: "a", res: "x"}, name: "access token " + name, sigs: sigs})
	}
	last := func(t string) string { return t[strings.LastIndex(t, ".")+1:] }
	at := AT{Aud: "d", Sub: "u", Client: "c", Scp: []string{"r"}, Exp: 1000 * time.Hour}
	t := octToken(at)
	acc("good", t, last(t))
	ec := AT{Aud: "d", Sub: "u", Client: "c", Scp: []string{"r"}, Exp: 1000 * time.Hour, Key: "ec3"}.String()
	acc("good with ECDSA", ec, last(ec))
	fb := []byte(t)
	fb[len(fb)-8] ^= 1
	acc("tampered", string(fb), last(string(fb)))
	a2 := at
	a2.Scp = []string{"r", "den"}
	acc("denied", octToken(a2), last(octToken(a2)))
	a2.Scp = []string{"nothing"}
	acc("without a match", octToken(a2), last(octToken(a2)))
	a2 = at
	a2.Exp = -time.Minute
	acc("expired", octToken(a2), last(octToken(a2)))
	hc := func(name string, h, c map[string]any) {
		hd := map[string]any{"typ": "JWT", "alg": "HS256", "kid": "oct"}
		for k, v := range h {
			hd[k] = v
		}
		cl := map[string]any{"aud": "d", "sub": "u", "scp": []string{"r"}, "exp": vs.Base.Add(1000 * time.Hour).Unix(), "iat": vs.Base.Unix(), "client_id": "c"}
		for k, v := range c {
			cl[k] = v
		}
		tok := signJWT(hd, cl, "HS256", "hmac:"+octSecret)
		acc(name, tok, last(tok))
	}
	hc("of an unknown key", map[string]any{"kid": "unknown"}, nil)
	hc("with a key id which is no text", map[string]any{"kid": 5}, nil)
	hc("with a key set URL", map[string]any{"jku": "https://elsewhere/"}, nil)
	hc("with a key set URL which is no text", map[string]any{"jku": []int{1}}, nil)
	hc("with a malformed expiry", nil, map[string]any{"exp": "soon"})
	hc("with a malformed audience", nil, map[string]any{"aud": []string{"d", "e"}})
	hc("with a binding", nil, map[string]any{"cnf": map[string]any{"x5t#S256": "thumb"}})
	parts := strings.Split(t, ".")
	acc("of two parts", parts[0]+"."+parts[2], parts[2])
	acc("of four parts", t+"."+parts[2], parts[2])
	acc("with the parts in another order", parts[2]+"."+parts[0]+"."+parts[1], parts[2])
	acc("of one part", parts[2], parts[2])
	acc("with a bearer prefix", "Bearer "+t, parts[2])
	acc("with blanks around", " "+t+" ", parts[2])
	acc("with padding", t+"==", parts[2])
	acc("with a dot at the end", t+".", parts[2])
	none := signJWT(map[string]any{"typ": "JWT", "alg": "none", "kid": "oct"}, map[string]any{"aud": "d"}, "none", "")
	acc("without signature", none, "")
	var http []c27req
	for _, r := range out {
		h := r
		h.kind = "http"
		h.name = "HTTP request with " + r.name
		if r.kind == "role" {
			h.tok, h.role = "", r.tok
		}
		h.query = "q=1"
		http = append(http, h)
	}
	var swapped []c27req
	for _, r := range out {
		h := r
		if r.kind == "role" {
			h.kind = "access"
		} else {
			h.kind = "role"
		}
		h.name = r.name + " as the other kind"
		swapped = append(swapped, h)
	}
	both := c27req{areq: areq{kind: "http", tok: t, role: u + ";s=" + s, act: "a", res: "x"}, name: "HTTP request with both tokens", sigs: []string{s, last(t)}}
	out = append(out, http...)
	out = append(out, swapped...)
	return append(out, both)
}

var c27cache []c27req

func c27(thorough bool) []*Scenario {
	confs := []struct {
		name string
		opts func() []authz.Option
	}{
		{"default", func() []authz.Option { return nil }},
		{"nothing remembered", func() []authz.Option { return []authz.Option{authz.WithCacheExp(0)} }},
		{"policies disabled", func() []authz.Option { return []authz.Option{authz.WithDisablePolicyd()} }},
		{"translator", func() []authz.Option {
			m, err := authz.NewMappingRules(map[string][]authz.Rule{"d": {{Method: "a", Path: "/{p}", Action: "a", Resource: "{p}"}, {Method: "a", Path: "/{p}?q=1", Action: "a", Resource: "{p}"}}})
			if err != nil {
				panic(err)
			}
			return []authz.Option{authz.WithTranslator(m)}
		}},
		{"bound", func() []authz.Option {
			return []authz.Option{authz.WithAccessTokenParam(authz.NewAccessTokenParam(true, true, "1h", "1h", true, map[string][]string{"cn": {"c"}}))}
		}},
	}
	depth := 2
	if thorough {
		depth = 3
	}
	var out []*Scenario
	out = append(out, c27lengths())
	for _, cf := range confs {
		cf := cf
		out = append(out, &Scenario{Name: "histories " + cf.name, Cfg: seqCfg, Body: func(x *vs.Exec) {
			if c27cache == nil {
				c27cache = c27reqs()
			}
			reqs := c27cache
			var buf bytes.Buffer
			glg.Get().SetMode(glg.WRITER).SetWriter(&buf).SetLevel(glg.DEBG)
			log.SetOutput(&buf)
			defer glg.Get().SetMode(glg.NONE)
			doc := Doc{Domain: "d", Expires: 1000 * day, Pols: []P{{{"r", "a", "d:x", "ALLOW"}, {"r", "b", "d:x", "ALLOW"}, {"den", "a", "d:x", "DENY"}}}}
			first := x.Choose(len(reqs))
			n := len(reqs)
			rest := 1
			for i := 1; i < depth; i++ {
				rest *= n
			}
			split := 1
			if depth > 2 {
				split = n
			}
			part := x.Choose(split)
			w := newAuthWorld(x, []Doc{doc}, cf.opts()...)
			w.net.quiet = true
			w.init()
			if buf.Len() == 0 {
				x.Failf("nothing is logged")
			}
			cert := Crt{CN: "cn", Issuer: "ca"}.cert()
			present := func(r c27req) {
				if cf.name == "bound" {
					r.crt = cert
				}
				if cf.name == "translator" {
					r.res = "/x"
				}
				_, err := r.do(w.a)
				if strings.HasSuffix(r.name, "token good") && err != nil && !(cf.name == "bound" && r.kind == "access") && !(r.kind == "http" && cf.name == "bound" && r.tok != "") {
					x.Failf("%s is rejected: %v", r.name, err)
				}
			}
			for k := part * rest / split; k < (part+1)*rest/split; k++ {
				buf.Reset()
				seq := []int{first}
				for i, v := 1, k; i < depth; i++ {
					seq = append(seq, v%n)
					v /= n
				}
				name := ""
				for _, i := range seq {
					present(reqs[i])
					present(reqs[i]) // once more, remembered
					name += reqs[i].name + "; "
				}
				text := buf.String()
				for _, i := range seq {
					for _, s := range reqs[i].sigs {
						if how := leaked(text, s); how != "" {
							p := strings.Index(text, s)
							ctx := ""
							if p >= 0 {
								ctx = text[max(0, p-150):min(len(text), p+len(s)+20)]
							}
							x.Failf("%s: the log contains the signature %s %s: %s", name, s, how, ctx)
						}
					}
				}
				x.Eval(name)
				vs.Sleep(3 * time.Minute) // remembered results end
			}
		}})
	}
	return out
}

// c27lengths: tokens and signatures of every length around the powers of two, in every position and outcome.
func c27lengths() *Scenario {
	return &Scenario{Name: "lengths", Cfg: seqCfg, Body: func(x *vs.Exec) {
		var buf bytes.Buffer
		glg.Get().SetMode(glg.WRITER).SetWriter(&buf).SetLevel(glg.DEBG)
		log.SetOutput(&buf)
		defer glg.Get().SetMode(glg.NONE)
		how := x.Choose(5)
		size := 64 << x.Choose(9)
		mode := x.Choose(4) // good, denied, tampered, in the other header
		for _, off := range []int{-700, -350, -120, -60, -50, -44, -43, -42, -20, -8, -2, -1, 0, 1, 2, 8, 43, 50, 120, 350} {
			n := size + off
			if n < 0 {
				continue
			}
			w := newAuthWorld(x, []Doc{{Domain: "d", Expires: 1000 * day, Pols: []P{{{"r", "a", "d:x", "ALLOW"}, {"den", "a", "d:x", "DENY"}}}}})
			w.net.quiet = true
			w.init()
			buf.Reset()
			roles := []string{"r"}
			if mode == 1 {
				roles = append(roles, "den")
			}
			var tok, sig string
			if how < 2 {
				t := RT{Domain: "d", Principal: "u", Roles: roles, Expires: day, Key: []string{"ec1", "rsa1"}[how], Extra: ";h="}
				u := t.unsigned()
				if len(u) < n {
					u += strings.Repeat("a", n-len(u))
				}
				sig = c14sign(t.Key, u)
				tok = u + ";s=" + sig
			} else {
				cl := map[string]any{"aud": "d", "sub": "u", "scp": roles, "exp": vs.Base.Add(day).Unix(), "pad": ""}
				alg := []string{"HS256", "HS512", "RS256"}[how-2]
				h := map[string]any{"alg": alg, "kid": "oct"}
				key := "hmac:" + octSecret
				if alg == "RS256" {
					h["kid"], key = "rsa2", "rsa2"
				}
				if have := len(b64(h)) + 1 + len(b64(cl)); have < n {
					cl["pad"] = strings.Repeat("a", (n-have)*3/4)
				}
				tok = signJWT(h, cl, alg, key)
				sig = tok[strings.LastIndex(tok, ".")+1:]
			}
			if mode == 2 {
				b := []byte(tok)
				b[len(b)-10] ^= 1
				tok = string(b)
				sig = sig[:len(sig)-10] + tok[len(tok)-10:]
			}
			rq := areq{kind: "access", tok: tok, act: "a", res: "x"}
			if (how < 2) != (mode == 3) {
				rq.kind = "role"
			}
			hq := areq{kind: "http", tok: tok, act: "a", res: "x"}
			if rq.kind == "role" {
				hq.tok, hq.role = "", tok
			}
			for i := 0; i < 2; i++ {
				if _, err := rq.do(w.a); (err == nil) != (mode == 0) {
					x.Failf("length %d: %v", len(tok), err)
				}
				hq.do(w.a)
			}
			if how := leaked(buf.String(), sig); how != "" {
				x.Failf("token of length %d with a signature of length %d: the log contains the signature %s", len(tok), len(sig), how)
			}
			x.Evals(1)
		}
		x.Eval(fmt.Sprint(how, size, mode))
	}}
}
