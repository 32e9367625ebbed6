package vs

import (
	"runtime"
	"unsafe"
	"weak"
)

// Collect runs the garbage collector, forgets what was recorded about channels which nothing refers to any more,
// and returns the bytes in use on the heap and the threads that have not ended.
func (x *Exec) Collect() (heap uint64, threads int) {
	refs := map[uintptr]weak.Pointer[byte]{}
	for id, s := range x.chans {
		if s.ref == nil || len(s.stash) > 0 || s.ns > 0 || s.nr > 0 {
			continue
		}
		// a channel is a pointer, which is what the data word of the interface holds
		refs[id] = weak.Make((*byte)((*[2]unsafe.Pointer)(unsafe.Pointer(&s.ref))[1]))
		s.ref = nil
	}
	runtime.GC()
	runtime.GC()
	for id, w := range refs {
		if p := w.Value(); p != nil {
			x.chans[id].restore(unsafe.Pointer(p))
		} else {
			delete(x.chans, id)
		}
	}
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc, len(x.threads)
}

func (s *chanState) restore(p unsafe.Pointer) { s.ref = p }
