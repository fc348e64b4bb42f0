// Package selftest runs pieces of the standard library under the engine; the
// observations of the engine and of the compiled code are compared.
package selftest

import (
	"bufio"
	"bytes"
	"cmp"
	"container/heap"
	"container/list"
	"container/ring"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"maps"
	"math"
	"math/bits"
	"os"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/metafates/bento/widget/textwidget"
)

func str(v any)  { zzsym.ObserveStr("v", fmt.Sprint(v)) }
func num(v int)  { zzsym.ObserveInt("n", v) }
func yes(b bool) { zzsym.ObserveBool("b", b) }

func C99_SyncMap() {
	var m sync.Map
	n := zzsym.Int("n", 0, 3)
	m.Store(n, "a")
	m.Store("k", 2)
	_, ok := m.Load(1)
	yes(ok)
	v, loaded := m.LoadOrStore(2, "b")
	str(v)
	yes(loaded)
	m.Delete("k")
	_, ok = m.Load("k")
	yes(ok)
	v, loaded = m.LoadAndDelete(2)
	str(v)
	yes(loaded)
	k := 0
	m.Range(func(key, value any) bool { k++; return true })
	num(k)
	type key struct {
		r Rect
		s string
	}
	m.Store(key{NewRect(n, 1), "x"}, 3)
	_, ok = m.Load(key{NewRect(2, 1), "x"})
	yes(ok)
	m.Clear()
	_, ok = m.Load(key{NewRect(2, 1), "x"})
	yes(ok)
	v, loaded = m.Swap(1, 2)
	yes(loaded)
	yes(m.CompareAndSwap(1, 2, 3))
}

var cache sync.Map
var cached = map[Rect]int{}
var mu sync.RWMutex
var slots = make(chan int, 2)

func C99_Global() {
	for i := 0; i < 2; i++ {
		select {
		case slots <- i:
			yes(true)
		default:
			yes(false)
		}
	}
	go func() { slots <- 7 }()
	num(<-slots)
	n := zzsym.Int("n", 0, 3)
	for i := 0; i < 2; i++ {
		v, ok := cache.Load(n)
		yes(ok)
		_ = v
		cache.Store(n, i)
		mu.RLock()
		_, ok = cached[NewRect(n, 2)]
		mu.RUnlock()
		yes(ok)
		mu.Lock()
		cached[NewRect(n, 2)] = i
		mu.Unlock()
	}
}

type named struct {
	A int
	B string
	c []int
	d *int
	e Constraint
}

func C99_Reflect() {
	n := zzsym.Int("n", 0, 3)
	a, b := named{A: n, B: "x", c: []int{1, n}}, named{A: 2, B: "x", c: []int{1, 2}}
	yes(reflect.DeepEqual(a, b))
	yes(reflect.DeepEqual(map[string]int{"a": n}, map[string]int{"a": 1}))
	yes(reflect.DeepEqual([]Constraint{ConstraintLen(n)}, []Constraint{ConstraintLen(1)}))
	yes(reflect.DeepEqual([]int(nil), []int{}))
	yes(reflect.DeepEqual(nil, n))
	yes(reflect.TypeOf(a).Comparable())
	yes(reflect.TypeOf(&a).Comparable())
	yes(reflect.TypeOf(a) == reflect.TypeOf(b))
	yes(reflect.TypeOf(a) == reflect.TypeOf(&b))
	str(reflect.TypeOf(a).String())
	str(reflect.TypeOf(a).Name())
	yes(reflect.TypeOf(a).Kind() == reflect.Struct)
}

func C99_Fmt() {
	n := zzsym.Int("n", 0, 3)
	a := named{A: n, B: "x", c: []int{1, n}, e: ConstraintLen(n)}
	str(fmt.Sprintf("%v|%+v|%#v", a.c, a, a.c))
	str(fmt.Sprintf("%#v", []Constraint{ConstraintLen(n), ConstraintRatio{1, n}}))
	str(fmt.Sprintf("%v", []Constraint{ConstraintLen(n), ConstraintRatio{1, n}}))
	str(fmt.Sprintf("%+v", NewPadding(n)))
	str(fmt.Sprintf("%v %v", &a.c, map[string]int{"b": n, "a": 1}))
	str(fmt.Sprintf("%5d|%-5d|%05d|%x|%X|%c|%q|%t|%8.3f|%g", n, n, n, n+10, n+10, 'a'+n, "q\n", n > 1, float64(n)/4, float64(n)))
	str(fmt.Sprintf("%s|%10s|%-10s|%.2s|%*d|%v", "abc", "abc", "abc", "abc", 5, n, errors.New("x")))
	str(fmt.Sprintf("%v %v %d %s", NewStyle(), textwidget.NewSpan("x"), []int{n}, []string{"a", "b"}))
	str(fmt.Sprint(n, "a", 2, 3))
	str(fmt.Sprintf("%v %v", []byte("ab"), [2]bool{true, n > 1}))
	str(fmt.Sprintf("%T %v", a, struct{}{}))
	str(strconv.Quote("a\x1b"))
	str(fmt.Sprintf("%[1]d %[1]v", n))
}

func C99_Strings() {
	n := zzsym.Int("n", 0, 3)
	s := "Hello, 世界 " + strconv.Itoa(n)
	str(strings.ToUpper(s) + strings.ToLower(s) + strings.Title("ab cd"))
	str(strings.Fields(" a  b c "))
	str(strings.FieldsFunc(s, unicode.IsSpace))
	str(strings.TrimFunc(s, unicode.IsLetter) + strings.TrimLeft(s, "He") + strings.TrimRight(s, "0123 ") + strings.Trim(s, "H"))
	str(strings.Replace(s, "l", "L", 1) + strings.ReplaceAll(s, "l", "LL"))
	str(strings.Map(func(r rune) rune { return r + 1 }, "abc"))
	num(strings.LastIndex(s, "l") + strings.IndexByte(s, 'l') + strings.IndexRune(s, '世') + strings.IndexAny(s, "xyo") + strings.Count(s, "l") + strings.IndexFunc(s, unicode.IsSpace))
	yes(strings.EqualFold("Ab", "aB"))
	a, b, ok := strings.Cut(s, ", ")
	str(a + b)
	yes(ok)
	a, ok = strings.CutPrefix(s, "Hel")
	str(a)
	a, ok = strings.CutSuffix(s, "x")
	str(a)
	str(strings.SplitN(s, "l", 2))
	str(strings.Compare("a", "b"))
	r := strings.NewReplacer("l", "1", "o", "0")
	str(r.Replace(s))
	rd := strings.NewReader(s)
	bs, _ := io.ReadAll(rd)
	num(len(bs))
	str(strings.ToValidUTF8("a\xffb", "?"))
	str(strings.ContainsRune(s, 'x'))
	str(strings.ContainsAny(s, "xl"))
	str(strings.TrimSpace(" x "))
	str(utf8.ValidString(s))
	str(strings.SplitAfter("a,b", ","))
}

func C99_Symbolic() {
	s := zzsym.Str("s", 3, "text")
	yes(strings.HasPrefix(s, "a"))
	yes(strings.Contains(s, "b"))
	str(strings.TrimSpace(s))
	str(strings.ToUpper(s))
	num(len(strings.Fields(s)))
	str(strings.ReplaceAll(s, "a", "b"))
	str(fmt.Sprintf("%5s|%s|%q", s, s, s))
	str([]rune(s)[1])
	yes(strings.EqualFold(s, "abc"))
	num(strings.LastIndex(s, "a"))
	str(strings.Map(unicode.ToLower, s))
}

func C99_Bytes() {
	n := zzsym.Int("n", 0, 3)
	var b bytes.Buffer
	b.WriteString("abc")
	b.WriteByte(byte('a' + n))
	b.WriteRune('世')
	b.Write([]byte("xyz"))
	fmt.Fprintf(&b, "%d", n)
	str(b.String())
	num(b.Len())
	l, err := b.ReadString('b')
	str(l)
	yes(err == nil)
	c, _ := b.ReadByte()
	num(int(c))
	b.Truncate(2)
	str(b.String())
	b.Reset()
	num(b.Len())
	yes(bytes.HasPrefix([]byte("abc"), []byte("a")))
	str(bytes.TrimSpace([]byte(" a ")))
	num(bytes.IndexByte([]byte("abc"), 'c') + bytes.Count([]byte("aa"), []byte("a")) + bytes.LastIndexByte([]byte("aba"), 'a') + bytes.IndexAny([]byte("abc"), "c"))
	str(bytes.Join([][]byte{[]byte("a"), []byte("b")}, []byte("-")))
	str(bytes.ToUpper([]byte("abc")))
	str(string(bytes.ReplaceAll([]byte("abc"), []byte("b"), []byte("x"))))
	str(bytes.Fields([]byte("a b")))
	w := bufio.NewWriter(&b)
	w.WriteString("hello")
	fmt.Fprint(w, n)
	num(w.Buffered())
	w.Flush()
	r := bufio.NewReader(&b)
	x, _ := r.Peek(2)
	str(x)
	line, err := r.ReadString('o')
	str(line)
	ru, sz, _ := r.ReadRune()
	num(int(ru) + sz)
	sc := bufio.NewScanner(strings.NewReader("a\nb"))
	for sc.Scan() {
		str(sc.Text())
	}
}

type ints []int

func (h ints) Len() int           { return len(h) }
func (h ints) Less(i, j int) bool { return h[i] < h[j] }
func (h ints) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *ints) Push(x any)        { *h = append(*h, x.(int)) }
func (h *ints) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

func C99_Sort() {
	n := zzsym.Int("n", 0, 3)
	x := []int{3, n, 2, 1}
	slices.Sort(x)
	str(x)
	sort.Ints(x)
	sort.Sort(sort.Reverse(sort.IntSlice(x)))
	str(x)
	sort.SliceStable(x, func(i, j int) bool { return x[i] < x[j] })
	slices.SortFunc(x, func(a, b int) int { return cmp.Compare(b, a) })
	slices.SortStableFunc(x, func(a, b int) int { return a - b })
	str(x)
	num(sort.SearchInts(x, 2))
	i, ok := slices.BinarySearch(x, 2)
	num(i)
	yes(ok)
	str(slices.Index(x, 2))
	str(slices.Contains(x, 0))
	str(slices.IndexFunc(x, func(a int) bool { return a > 1 }))
	slices.Reverse(x)
	str(slices.Compact(x))
	str(slices.Insert(slices.Clone(x), 1, 9))
	str(slices.Delete(slices.Clone(x), 0, 1))
	str(slices.Equal(x, []int{3, 2, 1}))
	str(slices.Max(x) + slices.Min(x))
	str(slices.Concat(x, x))
	str(slices.Repeat(x[:1], 2))
	h := &ints{5, 2, n}
	heap.Init(h)
	heap.Push(h, 1)
	num(heap.Pop(h).(int))
	l := list.New()
	l.PushBack(n)
	l.PushFront(2)
	for e := l.Front(); e != nil; e = e.Next() {
		num(e.Value.(int))
	}
	r := ring.New(2)
	num(r.Len())
	m := map[string]int{"b": 1, "a": n}
	ks := slices.Sorted(maps.Keys(m))
	str(ks)
	str(len(slices.Collect(maps.Values(m))))
}

func C99_Math() {
	n := zzsym.Int("n", 0, 3)
	f := float64(n)
	num(int(math.Ceil(f/2)) + int(math.Trunc(f/3)) + int(math.Abs(-f)) + int(math.Max(f, 2)) + int(math.Min(f, 1)))
	num(bits.Len(uint(n)) + bits.OnesCount(uint(n)) + bits.TrailingZeros(uint(n)))
	str(strconv.FormatFloat(f/2, 'f', 2, 64))
	str(strconv.FormatInt(int64(n), 2))
	v, err := strconv.Atoi("1x")
	num(v)
	yes(err != nil)
	u, _ := strconv.ParseUint("ff", 16, 8)
	num(int(u))
	p, _ := strconv.ParseBool("true")
	yes(p)
	q, _ := strconv.ParseFloat("1.5", 64)
	str(q)
	str(math.Sqrt(16) + math.Pow(2, 3) + math.Log2(8))
	h := fnv.New32a()
	h.Write([]byte{1, 2})
	num(int(h.Sum32()))
	str(math.MaxInt)
}

func C99_Sync() {
	n := zzsym.Int("n", 0, 3)
	var once sync.Once
	k := 0
	once.Do(func() { k++ })
	once.Do(func() { k++ })
	num(k)
	f := sync.OnceValue(func() int { k++; return k })
	num(f() + f())
	g := sync.OnceFunc(func() { k++ })
	g()
	g()
	num(k)
	p := sync.Pool{New: func() any { return new(bytes.Buffer) }}
	b := p.Get().(*bytes.Buffer)
	b.WriteString("x")
	p.Put(b)
	num(b.Len())
	var c atomic.Int64
	c.Add(int64(n))
	num(int(c.Load()))
	var ap atomic.Pointer[Rect]
	yes(ap.Load() == nil)
	r := NewRect(n, 1)
	ap.Store(&r)
	num(ap.Load().Width)
	yes(ap.CompareAndSwap(&r, nil))
	ap.Swap(&r)
	var av atomic.Value
	av.Store(n)
	num(av.Load().(int))
	cond := sync.NewCond(&sync.Mutex{})
	done := false
	go func() {
		cond.L.Lock()
		done = true
		cond.L.Unlock()
		cond.Broadcast()
	}()
	cond.L.Lock()
	for !done {
		cond.Wait()
	}
	cond.L.Unlock()
	var u32 uint32
	atomic.AddUint32(&u32, 2)
	num(int(atomic.SwapUint32(&u32, 5)))
	t := time.NewTicker(time.Millisecond)
	<-t.C
	t.Stop()
	t2 := time.NewTimer(time.Hour)
	yes(t2.Stop())
	t2.Reset(time.Millisecond)
	<-t2.C
	d := 1500 * time.Millisecond
	str(d.String())
	num(int(d.Seconds()))
	start := time.Now()
	yes(time.Since(start) < time.Hour)
	yes(start.Add(time.Second).After(start))
	yes(start.Before(start))
	yes(start.Sub(start) == 0)
	yes(time.Time{}.IsZero())
	yes(start.Equal(start))
}

func C99_Errors() {
	e := errors.New("x")
	w := fmt.Errorf("y: %w", e)
	yes(errors.Is(w, e))
	yes(errors.Unwrap(w) == e)
	str(w)
	j := errors.Join(e, nil, w)
	str(j.Error())
	yes(errors.Is(j, e))
	var pe *os.PathError
	yes(errors.As(fmt.Errorf("z: %w", &os.PathError{Op: "o", Path: "p", Err: e}), &pe))
	str(pe)
	yes(errors.Is(io.EOF, io.EOF))
	var se *strconv.NumError
	_, err := strconv.Atoi("q")
	yes(errors.As(err, &se))
	str(err)
	defer func() { str(recover()) }()
	var m map[string]int
	_ = m["a"]
	panic("boom")
}

var re = regexp.MustCompile(`^a(\d+)b`)

func C99_Regexp() {
	n := zzsym.Int("n", 0, 3)
	s := "a" + strconv.Itoa(n) + "b"
	yes(re.MatchString(s))
	str(re.FindString(s))
	str(re.FindStringSubmatch(s))
	str(re.ReplaceAllString(s, "x"))
	str(re.FindStringIndex(s))
	str(regexp.QuoteMeta("."))
}

type gen[T any] struct{ v []T }

func (g *gen[T]) add(v T) int { g.v = append(g.v, v); return len(g.v) }

func fold[T, A any](v []T, a A, f func(A, T) A) A {
	for _, x := range v {
		a = f(a, x)
	}
	return a
}

func C99_Lang() {
	n := zzsym.Int("n", 0, 3)
	g := gen[int]{}
	num(g.add(n) + g.add(2))
	num(fold(g.v, 0, func(a, x int) int { return a + x }))
	for i := range 3 {
		num(i)
	}
	a := [4]int{1, 2, 3, 4}
	p := &a
	for i := range p {
		p[i]++
	}
	s := a[1:3:3]
	s = append(s, 9)
	num(a[3] + s[2])
	q := (*[2]int)(s[:2])
	q[0] = 7
	num(s[0])
	b := [2]int(s[:2])
	num(b[0])
	clear(s)
	m := map[[2]int]string{{1, 2}: "x"}
	clear(m)
	num(len(m))
	var i any = n
	switch x := i.(type) {
	case string:
		str(x)
	case int:
		num(x)
	}
	fn := g.add
	num(fn(1))
	ff := (*gen[int]).add
	num(ff(&g, 1))
	num(min(n, 2, 1) + max(n, 2))
	goto end
end:
	x := uint8(250)
	x += uint8(n * 3)
	num(int(x))
	num(n << 2 >> 1 &^ 1)
	lbl := 0
outer:
	for i := 0; i < 3; i++ {
		for j := 0; ; j++ {
			if j == n {
				continue outer
			}
			if j > 1 {
				break outer
			}
			lbl++
		}
	}
	num(lbl)
	select {
	case <-time.After(time.Millisecond):
		num(1)
	}
	str(struct {
		a int
		b string
	}{n, "x"})
}

func C99_Bits() {
	n := zzsym.Int("n", 0, 3)
	num(bits.TrailingZeros(2))
	num(bits.TrailingZeros(uint(n)))
	num(bits.Len(uint(n)))
	num(bits.OnesCount(uint(n)))
	num(bits.TrailingZeros8(uint8(n)))
	num(bits.LeadingZeros32(uint32(n)))
	u := uint64(n)
	k := 0
	shift := uint(bits.TrailingZeros(2)) & 7
	for u >= 2 {
		u >>= shift
		k++
	}
	num(k)
}
