// Package fastime is the fastime API on the virtual clock of vs.
package fastime

import (
	"context"
	"time"

	"vs"
)

type Fastime interface {
	IsDaemonRunning() bool
	GetFormat() string
	SetFormat(format string) Fastime
	GetLocation() *time.Location
	SetLocation(location *time.Location) Fastime
	Now() time.Time
	Stop()
	UnixNow() int64
	UnixUNow() uint32
	UnixNanoNow() int64
	UnixUNanoNow() uint32
	FormattedNow() []byte
	StartTimerD(ctx context.Context, dur time.Duration) Fastime
}

type ft struct {
	format string
	loc    *time.Location
}

var instance = New()

// New returns Fastime
func New() Fastime { return &ft{format: time.RFC3339, loc: time.Local} }

func (f *ft) IsDaemonRunning() bool                              { return true }
func (f *ft) GetFormat() string                                  { return f.format }
func (f *ft) SetFormat(format string) Fastime                    { f.format = format; return f }
func (f *ft) GetLocation() *time.Location                        { return f.loc }
func (f *ft) SetLocation(l *time.Location) Fastime               { f.loc = l; return f }
func (f *ft) Now() time.Time                                     { return vs.Now().In(f.loc) }
func (f *ft) Stop()                                              {}
func (f *ft) UnixNow() int64                                     { return vs.Now().Unix() }
func (f *ft) UnixUNow() uint32                                   { return uint32(vs.Now().Unix()) }
func (f *ft) UnixNanoNow() int64                                 { return vs.Now().UnixNano() }
func (f *ft) UnixUNanoNow() uint32                               { return uint32(vs.Now().UnixNano()) }
func (f *ft) FormattedNow() []byte                               { return []byte(f.Now().Format(f.format)) }
func (f *ft) StartTimerD(context.Context, time.Duration) Fastime { return f }

func IsDaemonRunning() bool                                    { return instance.IsDaemonRunning() }
func GetLocation() *time.Location                              { return instance.GetLocation() }
func GetFormat() string                                        { return instance.GetFormat() }
func SetLocation(l *time.Location) Fastime                     { return instance.SetLocation(l) }
func SetFormat(f string) Fastime                               { return instance.SetFormat(f) }
func Now() time.Time                                           { return instance.Now() }
func Stop()                                                    {}
func UnixNow() int64                                           { return instance.UnixNow() }
func UnixUNow() uint32                                         { return instance.UnixUNow() }
func UnixNanoNow() int64                                       { return instance.UnixNanoNow() }
func UnixUNanoNow() uint32                                     { return instance.UnixUNanoNow() }
func FormattedNow() []byte                                     { return instance.FormattedNow() }
func StartTimerD(ctx context.Context, d time.Duration) Fastime { return instance }
