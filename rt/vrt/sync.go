package vrt

import "unsafe"

func (e *execution) svc(a uintptr) *[maxT]uint32 {
	s := e.syncs[a]
	if s == nil {
		s = &[maxT]uint32{}
		e.syncs[a] = s
	}
	return s
}

// AtomicPoint schedules an atomic operation on p; returns false when no
// controlled execution is running. write: it stores; read: it loads.
func AtomicPoint(p unsafe.Pointer, name string, read, write bool) bool {
	if cur == nil {
		return false
	}
	if never {
		sink = p
	}
	a := uintptr(p)
	k := kRead
	if write {
		k = kWrite
	}
	o := mkop(name, a, k)
	point(o)
	t, s := cur, ex.svc(a)
	if write {
		checkWrite(a, true)
	}
	if read {
		joinV(&t.vc, s)
	}
	if write {
		if read {
			joinV(s, &t.vc)
		} else {
			*s = t.vc
		}
		tick(t)
	}
	return true
}

// SyncPoint is a scheduling point on a synchronization object.
func SyncPoint(p unsafe.Pointer, name string) bool {
	if cur == nil {
		return false
	}
	if never {
		sink = p
	}
	o := mkop(name, uintptr(p), kWrite)
	point(o)
	return true
}

// Acquire and Release are the happens-before edges of p.
func Acquire(p unsafe.Pointer) { joinV(&cur.vc, ex.svc(uintptr(p))) }
func Release(p unsafe.Pointer) {
	joinV(ex.svc(uintptr(p)), &cur.vc)
	tick(cur)
}

// Parked is a blocked thread.
type Parked struct{ t *thread }

// Park blocks the current thread after adding it to q.
func Park(q *[]Parked, why string) {
	*q = append(*q, Parked{cur})
	block(why)
}

// WakeAll readies all threads in q.
func WakeAll(q *[]Parked) {
	for _, p := range *q {
		ex.wakeup(p.t)
	}
	*q = nil
}

// WakeOne readies the first thread in q.
func WakeOne(q *[]Parked) {
	if len(*q) > 0 {
		p := (*q)[0]
		*q = (*q)[1:]
		ex.wakeup(p.t)
	}
}
