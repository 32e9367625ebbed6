package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/client"

	"vs"
)

func init() {
	register(&Check{
		ID:        "C24",
		Rule:      "every sequence of per-attempt outcomes (each retryable and other status class, temporary and permanent errors, fast and slow) up to the attempt bound x attempt bounds x time limits x back-off factors, on the virtual clock; reference: explicit retry automaton; every returned and every discarded body tracked; the same through http.Client",
		Scenarios: c24,
	})
}

type tempErr struct{ temp bool }

func (e *tempErr) Error() string   { return fmt.Sprint("error, temporary ", e.temp) }
func (e *tempErr) Temporary() bool { return e.temp }

var errPlain = errors.New("plain error")

type c24out struct {
	name   string
	status int
	err    error
	delay  time.Duration
	empty  bool // no content, and headers telling to come back later
}

func (o c24out) temporary() bool {
	t, ok := o.err.(interface{ Temporary() bool })
	return ok && t.Temporary()
}

func (o c24out) retryable() bool {
	return o.status == 429 || o.status == 500 || o.status == 503 || o.status == 504
}

type c24rt struct {
	x      *vs.Exec
	seq    []c24out
	at     []time.Duration
	ended  time.Duration
	resps  []*http.Response
	bodies []*Body
	reqs   []*http.Request
}

func (t *c24rt) RoundTrip(r *http.Request) (*http.Response, error) {
	i := len(t.at)
	t.at = append(t.at, t.x.Elapsed())
	t.reqs = append(t.reqs, r)
	o := c24out{status: 200}
	if i < len(t.seq) {
		o = t.seq[i]
	}
	if o.delay > 0 {
		vs.Sleep(o.delay)
	}
	t.ended = t.x.Elapsed()
	if o.err != nil {
		t.resps = append(t.resps, nil)
		t.bodies = append(t.bodies, nil)
		return nil, o.err
	}
	b := &Body{r: bytes.NewReader([]byte(fmt.Sprintf("body %d", i)))}
	resp := &http.Response{StatusCode: o.status, Status: fmt.Sprint(o.status), Header: http.Header{"N": {fmt.Sprint(i)}}, Body: b, ContentLength: -1, Request: r, ProtoMajor: 1, ProtoMinor: 1}
	if o.empty {
		b.r = bytes.NewReader(nil)
		resp.ContentLength = 0
		resp.Close = true
		resp.Header.Set("Retry-After", "86400")
		resp.Header.Set("Connection", "close")
		resp.Header.Set("Content-Type", "text/html")
	}
	t.resps = append(t.resps, resp)
	t.bodies = append(t.bodies, b)
	return resp, nil
}

func c24(thorough bool) []*Scenario {
	temp, perm := &tempErr{true}, &tempErr{false}
	outs := []c24out{
		{"200", 200, nil, 0, false}, {"500", 500, nil, 0, false}, {"503 slow", 503, nil, 3 * time.Second, false}, {"temporary", 0, temp, 0, false}, {"temporary slow", 0, temp, 3 * time.Second, false},
		{"404", 404, nil, 0, false}, {"429", 429, nil, 0, false}, {"504", 504, nil, 0, false}, {"502", 502, nil, 0, false}, {"304", 304, nil, 0, false}, {"501", 501, nil, 0, false}, {"permanent", 0, perm, 0, false}, {"plain error", 0, errPlain, 0, false}, {"200 slow", 200, nil, 3 * time.Second, false},
		{"500 empty", 500, nil, 0, true}, {"503 empty", 503, nil, 0, true}, {"200 empty", 200, nil, 0, true}, {"400 empty", 400, nil, 0, true},
	}
	depth := 5
	if thorough {
		depth = 6
	}
	counts := []int{1, 2, 3, depth, -1, 0}
	limits := []time.Duration{0, time.Second, 4 * time.Second, 10 * time.Second, time.Hour, -time.Second}
	factors := []float64{1, 0.5, 2, 5}
	var out []*Scenario
	for _, viaClient := range []bool{false, true} {
		viaClient := viaClient
		name := "transport"
		if viaClient {
			name = "http-client"
		}
		out = append(out, &Scenario{Name: name, Cfg: seqCfg, Body: func(x *vs.Exec) {
			cnt := counts[x.Choose(len(counts))]
			limit := limits[x.Choose(len(limits))]
			if viaClient && cnt <= 0 {
				return
			}
			fs := factors
			if viaClient {
				fs = factors[:1]
			}
			first := x.Choose(len(outs))
			n := cnt
			if n < 1 {
				n = 1
			}
			idx := make([]int, n)
			idx[0] = first
			for _, f := range fs {
				for {
					c24one(x, cnt, limit, f, idx, outs, viaClient)
					// next sequence; what follows a final outcome does not matter
					i := n - 1
					for j := 0; j < n-1; j++ {
						o := outs[idx[j]]
						if !o.temporary() && !o.retryable() {
							i = j
							for k := j + 1; k < n; k++ {
								idx[k] = 0
							}
							break
						}
					}
					for ; i > 0; i-- {
						if idx[i]++; idx[i] < len(outs) {
							break
						}
						idx[i] = 0
					}
					if i <= 0 {
						break
					}
				}
			}
		}})
	}
	return append(out, c24requests())
}

func c24one(x *vs.Exec, cnt int, limit time.Duration, factor float64, idx []int, outs []c24out, viaClient bool) {
	c24method(x, "GET", cnt, limit, factor, idx, outs, viaClient)
}

func c24method(x *vs.Exec, method string, cnt int, limit time.Duration, factor float64, idx []int, outs []c24out, viaClient bool) {
	t := &c24rt{x: x}
	desc := fmt.Sprintf("%s count %d limit %v factor %v:", method, cnt, limit, factor)
	for _, i := range idx {
		t.seq = append(t.seq, outs[i])
		desc += " " + outs[i].name
	}
	rt, err := client.NewExponentialRoundTripper(t, factor, cnt, limit)
	if err != nil {
		x.Failf("%s: constructor: %v", desc, err)
	}
	req, _ := http.NewRequest(method, "https://host/p", nil)
	t0 := x.Elapsed()
	var resp *http.Response
	if viaClient {
		resp, err = (&http.Client{Transport: rt}).Do(req)
	} else {
		resp, err = rt.RoundTrip(req)
	}
	// reference
	n := 0
	now := t0
	var last c24out
	var at []time.Duration
	for n < cnt {
		last = t.seq[min(n, len(t.seq)-1)]
		at = append(at, now)
		now += last.delay
		n++
		if last.err != nil {
			wait := time.Duration(float64(2*n-1) * float64(time.Second) / (factor * factor))
			if !last.temporary() || now+wait >= t0+limit {
				break
			}
			now += wait
			continue
		}
		if !last.retryable() {
			break
		}
	}
	if len(t.at) != n {
		x.Failf("%s: %d attempts, want %d", desc, len(t.at), n)
	}
	for i := range at {
		if d := t.at[i] - at[i]; d > time.Millisecond || d < -time.Millisecond {
			x.Failf("%s: attempt %d after %v, want %v", desc, i, t.at[i]-t0, at[i]-t0)
		}
		if t.reqs[i].Method != method || t.reqs[i].URL.String() != "https://host/p" {
			x.Failf("%s: attempt %d requests %s", desc, i, t.reqs[i].URL)
		}
	}
	if n == 0 {
		if resp != nil {
			x.Failf("%s: a response without any attempt", desc)
		}
		x.Eval(desc)
		return
	}
	if last.err != nil {
		if resp != nil || !errors.Is(err, last.err) {
			x.Failf("%s: got %v, %v, want error %v", desc, resp, err, last.err)
		}
	} else {
		if err != nil || resp == nil || resp.StatusCode != last.status || resp.Header.Get("N") != fmt.Sprint(n-1) {
			x.Failf("%s: got %v, %v, want the response of attempt %d (%d)", desc, resp, err, n-1, last.status)
		}
		b := t.bodies[n-1]
		if b.Closed || b.ReadN > 0 {
			x.Failf("%s: the body of the returned response is closed %v, %d bytes read", desc, b.Closed, b.ReadN)
		}
		got, rerr := io.ReadAll(resp.Body)
		text := fmt.Sprintf("body %d", n-1)
		if last.empty {
			text = ""
		}
		if rerr != nil || string(got) != text {
			x.Failf("%s: the caller reads %q, %v", desc, got, rerr)
		}
		resp.Body.Close()
		if !b.Closed {
			x.Failf("%s: closing the returned body does not close the response", desc)
		}
	}
	for i := 0; i < n-1; i++ {
		if t.bodies[i] != nil && !t.bodies[i].Closed {
			x.Failf("%s: the body of discarded response %d stays open", desc, i)
		}
	}
	x.Eval(desc)
}
