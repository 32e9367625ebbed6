package vs

import "time"

type vtimer struct {
	when   int64
	seq    int
	period int64
	fire   func()
	on     bool
}

// Now is the virtual clock.
func Now() time.Time {
	if cx == nil {
		return Base
	}
	return Base.Add(time.Duration(cx.now))
}

func (x *Exec) addTimer(t *vtimer) {
	t.seq = x.timerSeq
	x.timerSeq++
	t.on = true
	x.timers = append(x.timers, t)
}

func (x *Exec) removeTimer(t *vtimer) bool {
	for i, u := range x.timers {
		if u == t {
			x.timers = append(x.timers[:i:i], x.timers[i+1:]...)
			t.on = false
			return true
		}
	}
	return false
}

// Timer is a virtual timer.
type Timer struct {
	v *vtimer
	x *Exec
}

// StartTimer calls fire (in the scheduler, must not block) after d, then every period if period > 0.
func StartTimer(d, period time.Duration, fire func()) *Timer {
	if cx == nil {
		panic("vs: timer outside the scheduler")
	}
	if d < 0 {
		d = 0
	}
	v := &vtimer{when: cx.now + int64(d), period: int64(period), fire: fire}
	cx.addTimer(v)
	return &Timer{v, cx}
}

// Stop stops the timer and reports whether it was running.
func (t *Timer) Stop() bool {
	if t.x != cx || cx == nil {
		return false
	}
	return cx.removeTimer(t.v)
}

// Reset restarts the timer.
func (t *Timer) Reset(d, period time.Duration) bool {
	if t.x != cx || cx == nil {
		return false
	}
	was := cx.removeTimer(t.v)
	t.v.when = cx.now + int64(d)
	t.v.period = int64(period)
	cx.addTimer(t.v)
	return was
}

// SpawnFromTimer starts a thread from a timer callback.
func SpawnFromTimer(name string, f func()) { cx.newThread(name, f) }

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	if !Active() {
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	x := cx
	until := x.now + int64(d)
	if until < x.now {
		until = 1<<63 - 1
	}
	v := &vtimer{when: until}
	x.addTimer(v)
	point(&op{kind: "sleep", en: func() bool { return x.now >= until }})
}

// Elapsed is the virtual time since the start of the execution.
func (x *Exec) Elapsed() time.Duration { return time.Duration(x.now) }

// JumpBy moves the clock forward at once (models a slow step); due timers fire.
func (x *Exec) JumpBy(d time.Duration) {
	x.now += int64(d)
	x.fireDue()
}
