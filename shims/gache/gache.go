// Package gache reproduces github.com/kpango/gache v1.2.8 on the controlled scheduler: same API,
// same semantics per operation, but one shard, so that the number of scheduling points stays small.
// The conformance check replays operation sequences against the real package.
package gache

import (
	"encoding/gob"
	"io"
	"time"

	"vs"
	"vs/context"
	"vs/sync"
	vt "vs/time"
)

type (
	// Gache is base interface type
	Gache interface {
		Clear()
		Delete(string) (interface{}, bool)
		DeleteExpired(context.Context) uint64
		DisableExpiredHook() Gache
		EnableExpiredHook() Gache
		Foreach(context.Context, func(string, interface{}, int64) bool) Gache
		Get(string) (interface{}, bool)
		GetWithExpire(string) (interface{}, int64, bool)
		Read(io.Reader) error
		Set(string, interface{})
		SetDefaultExpire(time.Duration) Gache
		SetExpiredHook(f func(context.Context, string)) Gache
		SetWithExpire(string, interface{}, time.Duration)
		StartExpired(context.Context, time.Duration) Gache
		Len() int
		ToMap(context.Context) *sync.Map
		ToRawMap(context.Context) map[string]interface{}
		Write(context.Context, io.Writer) error
		Stop()
	}

	gache struct {
		expFuncEnabled bool
		expire         int64
		l              uint64
		cancel         context.CancelFunc
		inflight       map[string]*call
		expChan        chan string
		expFunc        func(context.Context, string)
		m              map[string]value
		keys           []string
	}

	call struct{ done bool }

	value struct {
		expire int64
		val    interface{}
	}

	// Option is a constructor option.
	Option func(g *gache) error
)

const slen = 512

var instance *gache

func init() { vs.AddReset(func() { instance = newGache() }); instance = newGache() }

// New returns Gache (*gache) instance
func New(opts ...Option) Gache { return newGache(opts...) }

func newGache(opts ...Option) *gache {
	g := &gache{expire: int64(30 * time.Second), m: map[string]value{}, inflight: map[string]*call{}}
	for _, o := range opts {
		o(g)
	}
	g.expChan = make(chan string, slen*10)
	return g
}

// GetGache returns the package instance.
func GetGache() Gache { return instance }

func WithDefaultExpirationString(t string) Option {
	return func(g *gache) error {
		if len(t) != 0 {
			dur, err := time.ParseDuration(t)
			if err != nil {
				return err
			}
			return WithDefaultExpiration(dur)(g)
		}
		return nil
	}
}

func WithDefaultExpiration(dur time.Duration) Option {
	return func(g *gache) error {
		if dur > 0 {
			g.expire = dur.Nanoseconds()
		}
		return nil
	}
}

func WithExpiredHookFunc(f func(ctx context.Context, key string)) Option {
	return func(g *gache) error {
		if f != nil {
			g.expFunc = f
			g.expFuncEnabled = true
		}
		return nil
	}
}

func (v *value) isValid() bool { return v.expire <= 0 || vs.Now().UnixNano() <= v.expire }

func (g *gache) SetDefaultExpire(ex time.Duration) Gache {
	vs.Point("gache.cfg")
	g.expire = int64(ex)
	return g
}
func (g *gache) EnableExpiredHook() Gache  { vs.Point("gache.cfg"); g.expFuncEnabled = true; return g }
func (g *gache) DisableExpiredHook() Gache { vs.Point("gache.cfg"); g.expFuncEnabled = false; return g }
func (g *gache) SetExpiredHook(f func(context.Context, string)) Gache {
	vs.Point("gache.cfg")
	g.expFunc = f
	return g
}

func (g *gache) StartExpired(ctx context.Context, dur time.Duration) Gache {
	vs.GoNamed("gache.StartExpired", func() {
		tick := vt.NewTicker(dur)
		ctx, cancel := context.WithCancel(ctx)
		vs.Point("gache.storecancel")
		g.cancel = cancel
		for {
			c0, c1, c2 := vs.RecvCase(ctx.Done()), vs.RecvCase(tick.C), vs.RecvCase(g.expChan)
			switch vs.Select(false, c0, c1, c2) {
			case 0:
				tick.Stop()
				return
			case 1:
				g.DeleteExpired(ctx)
				vs.Yield()
			case 2:
				key := c2.V
				f := g.expFunc
				vs.GoNamed("gache.hook", func() { f(ctx, key) })
			}
		}
	})
	return g
}

func (g *gache) ToMap(ctx context.Context) *sync.Map {
	m := new(sync.Map)
	g.Foreach(ctx, func(key string, val interface{}, exp int64) bool {
		m.Store(key, val)
		return true
	})
	return m
}

func (g *gache) ToRawMap(ctx context.Context) map[string]interface{} {
	m := make(map[string]interface{}, 8)
	g.Foreach(ctx, func(key string, val interface{}, exp int64) bool {
		m[key] = val
		return true
	})
	return m
}

func (g *gache) get(key string) (interface{}, int64, bool) {
	vs.Point("gache.get")
	v, ok := g.m[key]
	if !ok {
		return nil, 0, false
	}
	if v.isValid() {
		return v.val, v.expire, true
	}
	g.expiration(key)
	return nil, 0, false
}

func (g *gache) Get(key string) (interface{}, bool) {
	v, _, ok := g.get(key)
	return v, ok
}

func (g *gache) GetWithExpire(key string) (interface{}, int64, bool) { return g.get(key) }

func (g *gache) set(key string, val interface{}, expire int64) {
	if expire > 0 {
		expire = vs.Now().UnixNano() + expire
	}
	vs.Point("gache.set")
	g.l++
	if _, ok := g.m[key]; !ok {
		g.keys = append(g.keys, key)
	}
	g.m[key] = value{expire: expire, val: val}
}

func (g *gache) SetWithExpire(key string, val interface{}, expire time.Duration) {
	g.set(key, val, int64(expire))
}
func (g *gache) Set(key string, val interface{}) { g.set(key, val, g.expire) }

func (g *gache) Delete(key string) (val interface{}, loaded bool) {
	vs.Point("gache.delete")
	g.l--
	v, loaded := g.m[key]
	g.del(key)
	if loaded && v.isValid() {
		return v.val, true
	}
	return nil, false
}

func (g *gache) del(key string) {
	if _, ok := g.m[key]; ok {
		delete(g.m, key)
		for i, k := range g.keys {
			if k == key {
				g.keys = append(g.keys[:i:i], g.keys[i+1:]...)
				return
			}
		}
	}
}

// expiration is singleflight over Delete and the hook notification.
func (g *gache) expiration(key string) {
	vs.Point("gache.expiration")
	if c := g.inflight[key]; c != nil {
		vs.Block("gache.singleflight", key, func() bool { return c.done })
		return
	}
	c := &call{}
	g.inflight[key] = c
	defer func() {
		c.done = true
		delete(g.inflight, key)
	}()
	g.Delete(key)
	if g.expFuncEnabled {
		vs.SendTo(g.expChan)(key)
	}
}

func (g *gache) DeleteExpired(ctx context.Context) uint64 {
	var rows uint64
	g.each(func(k string, v value) bool {
		if ctx.Err() != nil {
			return false
		}
		if !v.isValid() {
			g.expiration(k)
			rows++
		}
		return true
	})
	return rows
}

func (g *gache) each(f func(string, value) bool) {
	vs.Point("gache.range")
	ks := append([]string(nil), g.keys...)
	for first := true; len(ks) > 0; first = false {
		i := vs.Order(len(ks))
		k := ks[i]
		ks = append(ks[:i:i], ks[i+1:]...)
		if !first {
			vs.Point("gache.next")
		}
		if v, ok := g.m[k]; ok && !f(k, v) {
			return
		}
	}
}

func (g *gache) Foreach(ctx context.Context, f func(string, interface{}, int64) bool) Gache {
	g.each(func(k string, v value) bool {
		if ctx.Err() != nil {
			return false
		}
		if v.isValid() {
			return f(k, v.val, v.expire)
		}
		vs.Yield()
		g.expiration(k)
		return true
	})
	return g
}

func (g *gache) Len() int { vs.Point("gache.len"); return int(g.l) }

func (g *gache) Write(ctx context.Context, w io.Writer) error {
	m := map[string]interface{}{}
	g.Foreach(ctx, func(key string, val interface{}, exp int64) bool {
		gob.Register(val)
		m[key] = val
		return true
	})
	gob.Register(map[string]interface{}{})
	return gob.NewEncoder(w).Encode(&m)
}

func (g *gache) Read(r io.Reader) error {
	var m map[string]interface{}
	gob.Register(map[string]interface{}{})
	if err := gob.NewDecoder(r).Decode(&m); err != nil {
		return err
	}
	for k, v := range m {
		g.Set(k, v)
	}
	return nil
}

func (g *gache) Stop() {
	vs.Point("gache.stop")
	if g.cancel != nil {
		g.cancel()
	}
}

func (g *gache) Clear() {
	vs.Point("gache.clear")
	g.m, g.keys = map[string]value{}, nil
}

func SetDefaultExpire(ex time.Duration) Gache                  { return instance.SetDefaultExpire(ex) }
func EnableExpiredHook() Gache                                 { return instance.EnableExpiredHook() }
func DisableExpiredHook() Gache                                { return instance.DisableExpiredHook() }
func SetExpiredHook(f func(context.Context, string)) Gache     { return instance.SetExpiredHook(f) }
func ToMap(ctx context.Context) *sync.Map                      { return instance.ToMap(ctx) }
func ToRawMap(ctx context.Context) map[string]interface{}      { return instance.ToRawMap(ctx) }
func Get(key string) (interface{}, bool)                       { return instance.Get(key) }
func GetWithExpire(key string) (interface{}, int64, bool)      { return instance.get(key) }
func SetWithExpire(key string, v interface{}, e time.Duration) { instance.SetWithExpire(key, v, e) }
func Set(key string, v interface{})                            { instance.Set(key, v) }
func Delete(key string) (interface{}, bool)                    { return instance.Delete(key) }
func DeleteExpired(ctx context.Context) uint64                 { return instance.DeleteExpired(ctx) }
func Foreach(ctx context.Context, f func(string, interface{}, int64) bool) Gache {
	return instance.Foreach(ctx, f)
}
func Len() int                                     { return instance.Len() }
func Write(ctx context.Context, w io.Writer) error { return instance.Write(ctx, w) }
func Read(r io.Reader) error                       { return instance.Read(r) }
func Stop()                                        { instance.Stop() }
func Clear()                                       { instance.Clear() }
