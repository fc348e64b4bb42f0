package bento

import (
	"context"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/sync/errgroup"
)

// Programs for the self test of the engine's search for data races
// (tools/race.sh), in the package so that their accesses are watched.

type pair struct{ a, b int }

// VerifOrdered shares variables between goroutines in the given way, without
// a race.
func VerifOrdered(way int) int {
	x := &pair{}
	m := map[int]int{}
	touch := func() { x.a++; y := *x; m[y.a] = y.b; x.b = len(m) }
	switch way {
	case 0:
		c := make(chan int)
		go func() { touch(); c <- 1; <-c; touch(); close(c) }()
		<-c
		touch()
		c <- 1
		<-c
		touch()
	case 1:
		c := make(chan int, 1)
		go func() { touch(); c <- 1 }()
		<-c
		touch()
	case 2:
		var mu sync.Mutex
		done := make(chan struct{})
		go func() { mu.Lock(); touch(); mu.Unlock(); close(done) }()
		mu.Lock()
		touch()
		mu.Unlock()
		<-done
		touch()
	case 3:
		var mu sync.RWMutex
		var wg sync.WaitGroup
		wg.Add(2)
		for i := 0; i < 2; i++ {
			go func() { defer wg.Done(); mu.RLock(); _ = x.a + len(m); mu.RUnlock() }()
		}
		mu.Lock()
		touch()
		mu.Unlock()
		wg.Wait()
		touch()
	case 4:
		var once sync.Once
		done := make(chan struct{})
		go func() { once.Do(touch); _ = x.a; close(done) }()
		once.Do(touch)
		_ = x.a
		<-done
		touch()
	case 5:
		var ready atomic.Bool
		go func() { touch(); ready.Store(true) }()
		if ready.Load() {
			touch()
		}
	case 6:
		ctx, cancel := context.WithCancel(context.Background())
		go func() { touch(); cancel() }()
		<-ctx.Done()
		touch()
	case 7:
		var g errgroup.Group
		touch()
		g.Go(func() error { touch(); return nil })
		_ = g.Wait()
		touch()
	case 8:
		c := make(chan int)
		time.AfterFunc(time.Millisecond, func() { touch(); c <- 1 })
		<-c
		touch()
	case 9:
		var mu sync.Mutex
		cond := sync.NewCond(&mu)
		ok := false
		go func() { touch(); mu.Lock(); ok = true; mu.Unlock(); cond.Signal() }()
		mu.Lock()
		for !ok {
			cond.Wait()
		}
		mu.Unlock()
		touch()
	case 10:
		var sm sync.Map
		go func() { touch(); sm.Store(1, x) }()
		if _, ok := sm.Load(1); ok {
			touch()
		}
	case 11:
		touch()
		c := make(chan int)
		go func() { _, _ = *x, m[1]; close(c) }()
		_, _ = *x, m[1]
		<-c
		touch()
	case 12:
		sem := make(chan struct{}, 1)
		done := make(chan struct{})
		go func() { sem <- struct{}{}; touch(); <-sem; close(done) }()
		sem <- struct{}{}
		touch()
		<-sem
		<-done
		touch()
	case 13:
		c, stop := make(chan int), make(chan struct{})
		go func() {
			touch()
			select {
			case c <- 1:
			case <-stop:
			}
		}()
		select {
		case <-c:
			touch()
		case <-time.After(time.Second):
		}
		close(stop)
	case 14:
		get := sync.OnceValue(func() int { touch(); return x.a })
		done := make(chan struct{})
		go func() { _ = get() + x.a; close(done) }()
		_ = get() + x.a
		<-done
		touch()
	case 15:
		var mu atomic.Int32
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			if mu.CompareAndSwap(0, 1) {
				touch()
				mu.Store(0)
			}
		}()
		if mu.CompareAndSwap(0, 1) {
			touch()
			mu.Store(0)
		}
		wg.Wait()
		touch()
	case 16:
		g, ctx := errgroup.WithContext(context.Background())
		g.Go(func() error { touch(); return context.Canceled })
		<-ctx.Done()
		touch()
		_ = g.Wait()
		touch()
	case 17:
		ctx, cancel := context.WithCancel(context.Background())
		c := make(chan int)
		context.AfterFunc(ctx, func() { touch(); close(c) })
		touch()
		cancel()
		<-c
		touch()
	case 18:
		var p atomic.Pointer[pair]
		go func() { y := &pair{}; y.a = 1; p.Store(y) }()
		if y := p.Load(); y != nil {
			y.b = y.a
		}
	case 19:
		pool := sync.Pool{New: func() any { return &pair{} }}
		done := make(chan struct{})
		use := func() { y := pool.Get().(*pair); y.a++; pool.Put(y) }
		go func() { use(); close(done) }()
		use()
		<-done
		use()
	case 20:
		c := make(chan int, 2)
		go func() {
			defer close(c)
			for i := 0; i < 2; i++ {
				touch()
				c <- i
			}
		}()
		for range c {
		}
		touch()
	case 21:
		t := time.NewTicker(time.Millisecond)
		var mu sync.Mutex
		stop := make(chan struct{})
		go func() { mu.Lock(); touch(); mu.Unlock(); close(stop) }()
		for ticked := false; !ticked; {
			select {
			case <-t.C:
				if mu.TryLock() {
					touch()
					mu.Unlock()
				}
			case <-stop:
				touch()
				ticked = true
			}
		}
		t.Stop()
	default:
		return way
	}
	return -1
}

var verifTotal int

// VerifUnordered has a race of the given kind.
func VerifUnordered(kind int) int {
	x, m, s := &pair{}, map[int]int{}, make([]int, 2, 4)
	done := make(chan int)
	var mu sync.Mutex
	var before, after, other func()
	switch kind {
	case 0: // two writes
		other, before = func() { x.a = 1 }, func() { x.a = 2 }
	case 1: // a part and the whole
		other, before = func() { x.b = 1 }, func() { _ = *x }
	case 2:
		other, before = func() { m[1] = 1 }, func() { _ = m[2] }
	case 3:
		other, before = func() { s[1] = 1 }, func() { _ = append([]int(nil), s...) }
	case 4:
		other, before = func() { _ = append(s, 1) }, func() { _ = append(s, 2) }
	case 5:
		other, before = func() { verifTotal++ }, func() { verifTotal++ }
	case 6: // locked on one side
		other, before = func() { x.a++ }, func() { mu.Lock(); x.a++; mu.Unlock() }
	case 7:
		other, before = func() { copy(s, []int{1}) }, func() { s[0]++ }
	case 8:
		other, before = func() { delete(m, 1) }, func() {
			for range m {
			}
		}
	case 9: // before the lock
		other, before = func() { x.a++; mu.Lock(); mu.Unlock() }, func() { x.a++; mu.Lock(); mu.Unlock() }
	case 10: // after the signal
		other, before = func() { done <- 1; x.a++ }, func() { <-done; x.a++ }
	default:
		return kind
	}
	go func() { other(); done <- 1 }()
	before()
	<-done
	_ = after
	return -1
}
