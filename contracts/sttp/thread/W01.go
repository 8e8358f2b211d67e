package thread

import (
	"sync"
	"time"
)

// W01: a started thread runs once, and joining it waits until it has ended.
// The goroutine may run at any moment, at the latest when something waits for
// it; the mutex is held or not.

var vpHeld bool

// A lock that is held is waited for; the only thing to wait for is the
// goroutine.
func sum_lock(m *sync.Mutex) {
	if vpHeld {
		vpSched()
		vpEnsures("waiting ends", !vpHeld)
	}
	vpHeld = true
}

func sum_tryLock(m *sync.Mutex) bool {
	if vpHeld {
		return false
	}
	vpHeld = true
	return true
}

func sum_unlock(m *sync.Mutex) {
	vpEnsures("only a held lock is released", vpHeld)
	vpHeld = false
}

// Starting and joining, with the goroutine running before, while or after
// something waits for it. An early one runs before the join.
//
//verif:lazygo
//verif:use (*sync.Mutex).Lock=sum_lock
//verif:use (*sync.Mutex).TryLock=sum_tryLock
//verif:use (*sync.Mutex).Unlock=sum_unlock
func contract_W01_join(early, try, again bool) {
	vpHeld = false
	n := 0
	th := NewThread(func() { n++ })
	vpEnsures("not running before its start", !th.IsRunning())
	th.Join()
	vpEnsures("joining does not start it", n == 0)
	ok := true
	if try {
		ok = th.TryStart()
	} else {
		th.Start()
	}
	vpEnsures("started", ok)
	if early {
		vpSched()
	}
	th.Join()
	vpEnsures("ended when joined", n == 1)
	vpSettle(func() bool { return !th.IsRunning() })
	vpEnsures("no longer running", !th.IsRunning())
	if again {
		vpEnsures("starts again", th.TryStart())
		th.Join()
		vpEnsures("ended again when joined", n == 2)
	}
}

// A thread is running from its start to its end and cannot be started again
// meanwhile.
//
//verif:lazygo
//verif:use (*sync.Mutex).Lock=sum_lock
//verif:use (*sync.Mutex).TryLock=sum_tryLock
//verif:use (*sync.Mutex).Unlock=sum_unlock
func contract_W01_twice(try, nothing bool) {
	vpHeld = false
	n := 0
	inside := false
	hold := make(chan bool)
	var th *Thread
	th = NewThread(func() {
		n++
		if vpConcrete() {
			<-hold
		}
		inside = th.IsRunning()
	})
	if nothing {
		th = NewThread(nil)
		vpEnsures("nothing to start", !th.TryStart() && vpPanics(th.Start))
		return
	}
	th.Start()
	if vpConcrete() {
		// a wrong start must not wait for ever
		go func() {
			time.Sleep(5 * time.Millisecond)
			close(hold)
		}()
	}
	vpEnsures("running once started", th.IsRunning())
	if try {
		vpEnsures("not started again", !th.TryStart())
	} else {
		vpEnsures("starting again panics", vpPanics(th.Start))
	}
	th.Join()
	vpEnsures("ran once", n == 1)
	vpEnsures("running while it runs", inside)
}
