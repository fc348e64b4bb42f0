// Package zzsym is the harness interface. The symbolic engine replaces every
// function of this package; the bodies below are their native meaning, used
// when a vector found by the solver is replayed against the compiled code.
package zzsym

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

type Draw struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Int  int64  `json:"int"`
}

type job struct {
	Fn     string         `json:"fn"`
	Vector []Draw         `json:"vector"`
	Tier   string         `json:"tier"`
	Bounds map[string]int `json:"bounds"`
	Reps   int            `json:"reps"`
	// Fill seeds the values that the vector doesn't give, if not 0.
	Fill    uint64             `json:"fill"`
	Domains map[string][]int64 `json:"domains"`
}

type result struct {
	Status  string            `json:"status"`
	Msg     string            `json:"msg"`
	Observe map[string]string `json:"observe"`
	Missing []string          `json:"missing,omitempty"`
	Filled  []Draw            `json:"filled,omitempty"`
}

var (
	mu   sync.Mutex
	cur  job
	vec  map[string]int64
	used map[string]int
	res  result
	done chan struct{}
	once *sync.Once
)

func fresh(name string) string {
	k := used[name]
	used[name] = k + 1
	if k == 0 {
		return name
	}
	return name + "#" + strconv.Itoa(k)
}

func get(name string, def int64, fill func() int64) int64 {
	mu.Lock()
	defer mu.Unlock()
	nm := fresh(name)
	v, ok := vec[nm]
	if !ok {
		if cur.Fill != 0 {
			v = fill()
			res.Filled = append(res.Filled, Draw{Name: nm, Kind: "int", Int: v})
			return v
		}
		res.Missing = append(res.Missing, nm)
		return def
	}
	return v
}

// random is a number below n.
func random(n uint64) uint64 {
	cur.Fill ^= cur.Fill << 13
	cur.Fill ^= cur.Fill >> 7
	cur.Fill ^= cur.Fill << 17
	return cur.Fill * 0x2545f4914f6cdd1d >> 11 % n
}

func between(lo, hi int64) func() int64 {
	return func() int64 {
		switch n := uint64(hi-lo) + 1; {
		case n == 0:
			return int64(random(1<<52) << 12)
		case n > 16 && random(2) == 0:
			return lo + int64(random(8))
		case n > 16 && random(4) == 0:
			return hi - int64(random(8))
		default:
			return lo + int64(random(n))
		}
	}
}

func of(domain string) func() int64 {
	return func() int64 {
		d := cur.Domains[domain]
		if len(d) == 0 {
			return 'x'
		}
		i := int(random(uint64(len(d)/2))) * 2
		return between(d[i], d[i+1])()
	}
}

func finish(status, msg string) {
	once.Do(func() {
		mu.Lock()
		res.Status, res.Msg = status, msg
		mu.Unlock()
		close(done)
	})
}

func stop(status, msg string) {
	finish(status, msg)
	runtime.Goexit()
}

// Main runs the jobs given on standard input.
func Main(table map[string]func()) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)
	dec := json.NewDecoder(in)
	for {
		var j job
		if err := dec.Decode(&j); err != nil {
			return
		}
		reps := j.Reps
		if reps < 1 {
			reps = 1
		}
		f := table[j.Fn]
		for r := 0; r < reps; r++ {
			cur = j
			vec = map[string]int64{}
			for _, d := range j.Vector {
				vec[d.Name] = d.Int
			}
			used = map[string]int{}
			res = result{Observe: map[string]string{}}
			done = make(chan struct{})
			once = &sync.Once{}
			if f == nil {
				res.Status, res.Msg = "error", "no harness "+j.Fn
				break
			}
			go func() {
				defer func() {
					if x := recover(); x != nil {
						finish("panic", fmt.Sprint(x)+"\n"+trim(string(debug.Stack())))
					} else {
						finish("ok", "")
					}
				}()
				f()
			}()
			<-done
			if res.Status != "ok" {
				break
			}
		}
		mu.Lock()
		out.Encode(res)
		mu.Unlock()
	}
}

func trim(s string) string {
	if i := strings.Index(s, "panic.go"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

// Symbolic reports whether the symbolic engine is running.
func Symbolic() bool { return false }

// Int is any integer in [lo, hi].
func Int(name string, lo, hi int) int {
	return int(get(name, int64(lo), between(int64(lo), int64(hi))))
}

// Byte is any byte.
func Byte(name string) byte { return byte(get(name, 0, between(0, 255))) }

// Bool is any boolean.
func Bool(name string) bool { return get(name, 0, between(0, 1)) != 0 }

// Rune is any rune of the domain.
func Rune(name, domain string) rune { return rune(get(name, 'x', of(domain))) }

// Str is any string of n runes of the domain.
func Str(name string, n int, domain string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(rune(get(name, 'x', of(domain))))
	}
	return b.String()
}

// Bytes is any slice of n bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(get(name, 0, between(0, 255)))
	}
	return b
}

// Float is any float64.
func Float(name string) float64 {
	return math.Float64frombits(uint64(get(name, 0, func() int64 { return int64(math.Float64bits(float64(random(1<<20)) / 64)) })))
}

// Choice is any of 0..n-1, each explored on a path of its own.
func Choice(name string, n int) int {
	if n <= 0 {
		stop("assume", "empty choice")
	}
	return int(get("!"+name, 0, func() int64 { return int64(random(uint64(n))) }))
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		stop("assume", "")
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		stop("assert", msg)
	}
}

// Fail is a failed assertion.
func Fail(msg string) { stop("assert", msg) }

// Cover is a reachability witness: the engine reports which were reached.
func Cover(name string) {}

func observe(name, v string) {
	mu.Lock()
	defer mu.Unlock()
	res.Observe[fresh("obs:" + name)[4:]] = v
}

// ObserveInt and friends record values compared between engine and native runs.
func ObserveInt(name string, v int)    { observe(name, strconv.Itoa(v)) }
func ObserveBool(name string, v bool)  { observe(name, strconv.FormatBool(v)) }
func ObserveStr(name string, v string) { observe(name, fmt.Sprintf("%q", v)) }

// Bound is a bound of the exploration, by tier.
func Bound(name string, quick, thorough int) int {
	if v, ok := cur.Bounds[name]; ok {
		return v
	}
	if cur.Tier == "thorough" {
		return thorough
	}
	return quick
}

// MapOrder selects the engine's map iteration order.
func MapOrder(k int) {}

// Steps bounds the rest of the path, to tell hangs.
func Steps(n int) {}

// Preempt bounds the preemptions explored on the path.
func Preempt(n int) {}

// Yield is a scheduling point.
func Yield() { runtime.Gosched() }

// Concrete forks over the values of an integer.
func Concrete(v int) int { return v }

// WaitIdle lets the other goroutines run until each is finished or blocked.
func WaitIdle() { time.Sleep(30 * time.Millisecond) }

// Winch tells the process that the size of its terminal changed.
func Winch() { syscall.Kill(syscall.Getpid(), syscall.SIGWINCH) }

// SetField sets the field of *ptr that has v's type.
func SetField(ptr, v any) bool {
	s := reflect.ValueOf(ptr).Elem()
	for i := 0; i < s.NumField(); i++ {
		if f := s.Field(i); f.Type() == reflect.TypeOf(v) {
			reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(v))
			return true
		}
	}
	return false
}

// Quiesced is the number of other live goroutines (engine only).
func Quiesced() int { return 0 }
