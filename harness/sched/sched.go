// Package sched holds small concurrent programs that compare the exploration
// of schedules with and without partial order reduction (tools/por.sh).
package sched

import (
	"context"
	"sync"
	"sync/atomic"

	"github.com/metafates/bento/internal/zzsym"
)

type objects struct {
	c, d chan int
	b    chan int
	mu   sync.Mutex
	n    atomic.Int32
	wg   sync.WaitGroup
	ctx  context.Context
	stop context.CancelFunc
}

func (o *objects) do(kind int) {
	switch kind {
	case 0:
		o.c <- 1
	case 1:
		<-o.c
	case 2:
		select {
		case <-o.c:
		case <-o.ctx.Done():
		}
	case 3:
		select {
		case o.c <- 2:
		case <-o.d:
		}
	case 4:
		o.stop()
	case 5:
		select {
		case o.b <- 1:
		case o.d <- 1:
		default:
		}
	case 6:
		o.mu.Lock()
		o.n.Add(1)
		o.mu.Unlock()
	case 7:
		o.n.Load()
	case 8:
		<-o.b
	case 9:
		select {
		case <-o.c:
			o.n.Load()
		case o.b <- 3:
		case <-o.ctx.Done():
			o.mu.Lock()
			defer o.mu.Unlock()
		}
	}
}

func run(threads, ops int, kinds ...int) {
	o := &objects{c: make(chan int), d: make(chan int), b: make(chan int, 1)}
	o.ctx, o.stop = context.WithCancel(context.Background())
	o.ctx.Done() // see harness/inpkg/app.go
	for i := 0; i < threads; i++ {
		var ks []int
		for j := 0; j < ops; j++ {
			ks = append(ks, kinds[zzsym.Choice("op", len(kinds))])
		}
		go func() {
			for _, k := range ks {
				o.do(k)
			}
		}()
	}
	zzsym.WaitIdle()
}

func P1_Three()   { run(3, 2, 0, 1, 2, 3, 4, 9) }
func P1_Buffers() { run(3, 2, 5, 8, 0, 1, 9) }
func P1_Locks()   { run(3, 2, 6, 7, 4, 2, 0) }
func P1_Four()    { run(4, 2, 0, 2, 3) }
func P1_Long()    { run(2, 4, 0, 1, 3, 5) }
func P1_Main() {
	o := &objects{c: make(chan int), d: make(chan int), b: make(chan int, 1)}
	o.ctx, o.stop = context.WithCancel(context.Background())
	o.ctx.Done() // see harness/inpkg/app.go
	kinds := []int{0, 2, 9}
	for i := 0; i < 3; i++ {
		a, b := kinds[zzsym.Choice("op", 3)], kinds[zzsym.Choice("op", 3)]
		go func() { o.do(a); o.do(b) }()
	}
	o.do(9)
	o.do(4)
	o.do(9)
}
