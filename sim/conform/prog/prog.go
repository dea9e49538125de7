// Package prog holds programs whose result does not depend on the schedule. They exercise the constructs the rewriter
// replaces; the rewritten ones must give the results of the Go runtime in every simulated execution, and be free of
// reported races.
package prog

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type T struct {
	Name string
	F    func() string
}

var All = []T{
	{"unbuffered", unbuffered}, {"buffered", buffered}, {"closed", closed}, {"rangechan", rangechan}, {"nilchan", nilchan},
	{"selects", selects}, {"labels", labels}, {"defers", defers}, {"named", named}, {"loopvars", loopvars}, {"gotos", gotos},
	{"switches", switches}, {"generics", generics}, {"methodvals", methodvals}, {"goargs", goargs}, {"rangefunc", rangefunc},
	{"rangemisc", rangemisc}, {"maporder", maporder}, {"mutex", mutex}, {"rwmutex", rwmutex}, {"waitgroup", waitgroup}, {"once", once},
	{"cond", cond}, {"pool", pool}, {"syncmap", syncmap}, {"atomics", atomics}, {"ctxtree", ctxtree}, {"ctxtime", ctxtime},
	{"ctxmisc", ctxmisc}, {"timers", timers}, {"ticker", ticker}, {"afterorder", afterorder}, {"recovers", recovers}, {"embedded", embedded},
	{"evalorder", evalorder}, {"lvalues", lvalues}, {"shadow", shadow}, {"pipeline", pipeline}, {"fanin", fanin}, {"chanofchan", chanofchan},
	{"semaphore", semaphore}, {"producer", producer}, {"globals", globals}, {"arrays", arrays}, {"structs", structs}, {"ifaces", ifaces},
	{"closures", closures}, {"recursion", recursion}, {"trylock", trylock}, {"oncefunc", oncefunc}, {"ptrs", ptrs}, {"sendselect", sendselect},
	{"timerreset", timerreset}, {"deadline", deadline}, {"typeparams", typeparams}, {"commaok", commaok}, {"minmaxclear", minmaxclear},
}

func unbuffered() string {
	c, d := make(chan int), make(chan struct{})
	s := 0
	go func() {
		for i := 0; i < 10; i++ {
			c <- i
		}
		close(d)
	}()
	for {
		select {
		case v := <-c:
			s = s*3 + v
			continue
		case <-d:
		}
		break
	}
	return fmt.Sprint(s)
}

func buffered() string {
	c := make(chan string, 3)
	c <- "a"
	c <- "b"
	r := fmt.Sprint(len(c), cap(c))
	select {
	case c <- "c":
		r += " sent"
	default:
		r += " full"
	}
	select {
	case c <- "d":
		r += " sent"
	default:
		r += " full"
	}
	return r + <-c + <-c + <-c
}

func closed() (r string) {
	c := make(chan int, 2)
	c <- 7
	close(c)
	v, ok := <-c
	r += fmt.Sprint(v, ok)
	v, ok = <-c
	r += fmt.Sprint(v, ok)
	func() {
		defer func() { r += fmt.Sprint(recover()) }()
		c <- 1
	}()
	func() {
		defer func() { r += fmt.Sprint(recover()) }()
		close(c)
	}()
	func() {
		defer func() { r += fmt.Sprint(recover()) }()
		var n chan int
		close(n)
	}()
	// a blocked sender panics when the channel closes
	d, res := make(chan int), make(chan string)
	go func() {
		defer func() { res <- fmt.Sprint(recover()) }()
		d <- 1
	}()
	time.Sleep(10 * time.Millisecond)
	close(d)
	return r + <-res
}

func rangechan() string {
	c := make(chan int)
	go func() {
		defer close(c)
		for i := range 6 {
			c <- i * i
		}
	}()
	s := ""
	for v := range c {
		if v == 4 {
			continue
		}
		s += fmt.Sprint(v, ",")
	}
	for range c {
		s += "!"
	}
	return s
}

func nilchan() string {
	var n chan int
	c := make(chan int, 1)
	c <- 5
	select {
	case <-n:
		return "nil received"
	case n <- 1:
		return "nil sent"
	case v := <-c:
		select {
		case <-n:
		default:
			return fmt.Sprint("default ", v)
		}
	}
	return "?"
}

func selects() string {
	a, b := make(chan int), make(chan int)
	done := make(chan struct{})
	var sa, sb int
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 1; i <= 5; i++ {
			a <- i
		}
	}()
	go func() {
		defer wg.Done()
		for i := 1; i <= 7; i++ {
			b <- i
		}
	}()
	go func() { wg.Wait(); close(done) }()
	for stop := false; !stop; {
		select {
		case v := <-a:
			sa += v
		case v, ok := <-b:
			if ok {
				sb += v
			}
		case <-done:
			stop = true
		}
	}
	return fmt.Sprint(sa, sb)
}

func labels() string {
	s := ""
outer:
	for i := 0; i < 5; i++ {
		for j := 0; j < 5; j++ {
			switch {
			case j == 3:
				continue outer
			case i == 3:
				break outer
			}
			s += fmt.Sprint(i, j, " ")
		}
	}
	c := make(chan int, 10)
	for i := range 4 {
		c <- i
	}
loop:
	for {
		select {
		case v := <-c:
			if v == 2 {
				continue loop
			}
			s += fmt.Sprint(v)
		default:
			break loop
		}
	}
	var x any = 3
sw:
	switch v := x.(type) {
	case int:
		for k := range 3 {
			if k == 1 {
				break sw
			}
			s += fmt.Sprint("k", k, v)
		}
		s += "no"
	}
sel:
	select {
	default:
		for {
			break sel
		}
	}
	return s
}

func defers() (s string) {
	for i := 0; i < 3; i++ {
		defer func() { s += fmt.Sprint(i) }()
		defer func(k int) { s += fmt.Sprint("k", k) }(i * 10)
	}
	x := 1
	defer func(y int) { s += fmt.Sprint("x", x, y) }(x)
	x = 2
	var mu sync.Mutex
	func() {
		mu.Lock()
		defer mu.Unlock()
		x++
	}()
	mu.Lock()
	defer mu.Unlock()
	return "r"
}

func named() string {
	f := func() (n int, err error) {
		defer func() {
			if r := recover(); r != nil {
				n, err = n+1, fmt.Errorf("rec %v", r)
			}
		}()
		n = 41
		panic("boom")
	}
	n, err := f()
	return fmt.Sprint(n, err)
}

func loopvars() string {
	var fs []func() int
	for i := 0; i < 3; i++ {
		fs = append(fs, func() int { i += 10; return i })
	}
	for _, v := range []int{7, 8} {
		fs = append(fs, func() int { return v })
	}
	s := ""
	for _, f := range fs {
		s += fmt.Sprint(f(), " ")
	}
	var wg sync.WaitGroup
	out := make([]int, 5)
	for i := 0; i < 5; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); out[i] = i * i }()
	}
	wg.Wait()
	return s + fmt.Sprint(out)
}

func gotos() string {
	i, s := 0, ""
again:
	if i < 3 {
		s += fmt.Sprint(i)
		i++
		goto again
	}
	return s
}

func switches() string {
	s := ""
	for i := 0; i < 6; i++ {
		switch i {
		case 0:
			s += "zero"
			fallthrough
		case 1:
			s += "one"
		case 2, 3:
			if i == 3 {
				break
			}
			s += "two"
		default:
			s += "d"
		}
	}
	c := make(chan int, 1)
	c <- 4
	switch v := <-c; {
	case v > 3:
		s += "big"
	default:
		s += "small"
	}
	for _, x := range []any{1, "a", nil, errors.New("e"), []int{1}, 2.5} {
		switch y := x.(type) {
		case int, float64:
			s += fmt.Sprintf("num%v", y)
		case string:
			s += y + "!"
		case nil:
			s += "nil"
		case error:
			s += y.Error()
		default:
			s += fmt.Sprintf("%T", y)
		}
	}
	return s
}

type number interface{ ~int | ~float64 }

type box[K comparable, V number] struct {
	mu sync.Mutex
	m  map[K]V
}

func (b *box[K, V]) add(k K, v V) V {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.m == nil {
		b.m = make(map[K]V)
	}
	b.m[k] += v
	return b.m[k]
}

func sum[T number](xs ...T) (t T) {
	for _, x := range xs {
		t += x
	}
	return
}

func generics() string {
	var b box[string, int]
	var wg sync.WaitGroup
	for i := 1; i <= 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b.add("a", i)
			b.add("b", 10*i)
		}()
	}
	wg.Wait()
	f := &box[int, float64]{}
	f.add(1, .5)
	return fmt.Sprint(b.m["a"], b.m["b"], f.add(1, 1), sum(1, 2, 3), sum(1.5, 2))
}

type counter struct{ n atomic.Int64 }

func (c *counter) inc(d int64) { c.n.Add(d) }

func methodvals() string {
	c := &counter{}
	f := c.inc
	g := (*counter).inc
	var wg sync.WaitGroup
	run := func(h func(int64), d int64) {
		wg.Add(1)
		go func() { defer wg.Done(); h(d) }()
	}
	run(f, 1)
	run(c.inc, 10)
	run(func(d int64) { g(c, d) }, 100)
	wg.Wait()
	done := make(chan bool)
	go func(fn func() int64, d chan<- bool) { fn(); d <- true }(c.n.Load, done)
	<-done
	load := c.n.Load
	return fmt.Sprint(load())
}

func goargs() string {
	x, c := 1, make(chan int, 3)
	send := func(v int) { c <- v }
	go send(x)
	x = 2
	go send(x * 10)
	x = 3
	defer send(x)
	a, b := <-c, <-c
	return fmt.Sprint(a+b, x)
}

func seq(n int) func(func(int, string) bool) {
	return func(yield func(int, string) bool) {
		defer func() {}()
		for i := 0; i < n; i++ {
			if !yield(i, strings.Repeat("x", i)) {
				return
			}
		}
	}
}

func rangefunc() string {
	s := ""
	for i, x := range seq(10) {
		if i == 1 {
			continue
		}
		if i == 4 {
			break
		}
		s += fmt.Sprint(i, x)
	}
	f := func() string {
		for i := range seq(5) {
			if i == 3 {
				return fmt.Sprint("ret", i)
			}
		}
		return "none"
	}
	return s + f()
}

func rangemisc() string {
	s := ""
	for i, r := range "hé€" {
		s += fmt.Sprint(i, r, " ")
	}
	for i := range 3 {
		s += fmt.Sprint(i)
	}
	arr := [3]int{1, 2, 3}
	for i, v := range arr {
		arr[2] = 10
		s += fmt.Sprint(i, v)
	}
	for i, v := range &arr {
		arr[2] = 20
		s += fmt.Sprint(i, v)
	}
	sl := []int{1, 2, 3}
	for i, v := range sl {
		if i == 0 {
			sl = append(sl, 9)
			sl[1] = 7
		}
		s += fmt.Sprint(v)
	}
	var p *[4]int
	for i := range p {
		s += fmt.Sprint(i)
	}
	for range sl {
		s += "."
	}
	var k int
	var v string
	for k, v = range []string{"a", "b"} {
	}
	return s + fmt.Sprint(k, v)
}

func maporder() string {
	m := map[string]int{}
	for i := range 20 {
		m[fmt.Sprint(i)] = i
	}
	t, n := 0, 0
	for k, v := range m {
		if v%2 == 0 {
			delete(m, k)
		}
		if v == 3 {
			delete(m, "5")
		}
		t += v
		n++
	}
	_ = n
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var ks2 []string
	for k := range maps.Keys(m) {
		ks2 = append(ks2, k)
	}
	sort.Strings(ks2)
	cl := maps.Clone(m)
	clear(m)
	return fmt.Sprint(len(ks) >= 9, strings.Join(ks, ",") == strings.Join(ks2, ","), len(cl) == len(ks), len(m))
}

func mutex() string {
	var mu sync.Mutex
	n := 0
	var wg sync.WaitGroup
	for i := 0; i < 6; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 5; k++ {
				mu.Lock()
				x := n
				x++
				n = x
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return fmt.Sprint(n)
}

func rwmutex() string {
	var mu sync.RWMutex
	m := map[int]int{}
	var wg sync.WaitGroup
	bad := atomic.Bool{}
	for i := 0; i < 3; i++ {
		wg.Add(2)
		go func() {
			defer wg.Done()
			for k := 0; k < 4; k++ {
				mu.Lock()
				m[0]++
				m[1]++
				mu.Unlock()
			}
		}()
		go func() {
			defer wg.Done()
			for k := 0; k < 4; k++ {
				mu.RLock()
				if m[0] != m[1] {
					bad.Store(true)
				}
				mu.RUnlock()
			}
		}()
	}
	wg.Wait()
	l := mu.RLocker()
	l.Lock()
	l.Unlock()
	return fmt.Sprint(m[0], m[1], bad.Load(), mu.TryLock())
}

func waitgroup() (s string) {
	var wg sync.WaitGroup
	defer func() { s += fmt.Sprint(recover()) }()
	for range 3 {
		wg.Add(1)
		go wg.Done()
	}
	wg.Wait()
	wg.Wait()
	wg.Done()
	return "no panic"
}

func once() string {
	var o sync.Once
	n := 0
	var wg sync.WaitGroup
	for i := 0; i < 5; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			o.Do(func() { time.Sleep(time.Millisecond); n++ })
			if n != 1 {
				panic("once returned early")
			}
		}()
	}
	wg.Wait()
	var p sync.Once
	func() {
		defer func() { recover() }()
		p.Do(func() { panic(1) })
	}()
	p.Do(func() { n = 100 })
	return fmt.Sprint(n)
}

func cond() string {
	var mu sync.Mutex
	c := sync.NewCond(&mu)
	q := []int{}
	sumc := make(chan int)
	for w := 0; w < 3; w++ {
		go func() {
			t := 0
			for {
				mu.Lock()
				for len(q) == 0 {
					c.Wait()
				}
				v := q[0]
				q = q[1:]
				mu.Unlock()
				if v < 0 {
					sumc <- t
					return
				}
				t += v
			}
		}()
	}
	for i := 1; i <= 10; i++ {
		mu.Lock()
		q = append(q, i)
		mu.Unlock()
		c.Signal()
	}
	mu.Lock()
	q = append(q, -1, -1, -1)
	mu.Unlock()
	c.Broadcast()
	return fmt.Sprint(<-sumc + <-sumc + <-sumc)
}

func pool() string {
	p := sync.Pool{New: func() any { return new(int) }}
	ok := true
	for i := 0; i < 20; i++ {
		a, b := p.Get().(*int), p.Get().(*int)
		ok = ok && a != b
		p.Put(a)
		if i%2 == 0 {
			p.Put(b)
		}
	}
	var q sync.Pool
	return fmt.Sprint(ok, q.Get() == nil)
}

func syncmap() string {
	var m sync.Map
	var wg sync.WaitGroup
	var wins atomic.Int32
	for i := 0; i < 6; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if _, loaded := m.LoadOrStore(i%2, i); !loaded {
				wins.Add(1)
			}
		}()
	}
	wg.Wait()
	n := 0
	m.Range(func(k, v any) bool { n++; return true })
	_, ok := m.LoadAndDelete(0)
	_, ok2 := m.Load(0)
	m.Store("k", 1)
	return fmt.Sprint(wins.Load(), n, ok, ok2, m.CompareAndSwap("k", 1, 2), m.CompareAndDelete("k", 1))
}

func atomics() string {
	var a int64
	var b atomic.Uint32
	var p atomic.Pointer[string]
	var v atomic.Value
	var wg sync.WaitGroup
	for i := 0; i < 5; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			atomic.AddInt64(&a, 2)
			for {
				o := b.Load()
				if b.CompareAndSwap(o, o+3) {
					break
				}
			}
			s := "x"
			p.CompareAndSwap(nil, &s)
			v.Store("v")
		}()
	}
	wg.Wait()
	return fmt.Sprint(atomic.LoadInt64(&a), b.Load(), *p.Load(), v.Load(), b.Swap(1), b.Load())
}

func ctxtree() string {
	root, cancel := context.WithCancelCause(context.WithValue(context.Background(), "k", "v"))
	a, ca := context.WithCancel(root)
	b, cb := context.WithTimeout(a, time.Hour)
	defer cb()
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); <-b.Done() }()
	ca()
	wg.Wait()
	s := fmt.Sprint(root.Err(), a.Err(), b.Err(), b.Value("k"))
	cancel(errors.New("why"))
	<-root.Done()
	return s + fmt.Sprint(root.Err(), context.Cause(root), context.Cause(a))
}

func ctxtime() string {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Millisecond)
	defer cancel()
	t0 := time.Now()
	select {
	case <-ctx.Done():
	case <-time.After(time.Second):
		return "late"
	}
	d := time.Since(t0)
	c2, f := context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
	defer f()
	_, has := ctx.Deadline()
	return fmt.Sprint(ctx.Err(), d >= 20*time.Millisecond, c2.Err(), has, errors.Is(ctx.Err(), context.DeadlineExceeded))
}

func ctxmisc() string {
	ctx, cancel := context.WithCancel(context.Background())
	c := make(chan string, 2)
	stop := context.AfterFunc(ctx, func() { c <- "after" })
	w := context.WithoutCancel(ctx)
	cancel()
	s := <-c
	c2, cancel2 := context.WithTimeoutCause(context.Background(), time.Millisecond, errors.New("cause"))
	defer cancel2()
	<-c2.Done()
	return fmt.Sprint(s, stop(), w.Err(), context.Cause(c2), context.TODO().Err())
}

func timers() string {
	t := time.NewTimer(5 * time.Millisecond)
	<-t.C
	a := t.Stop()
	t2 := time.NewTimer(time.Hour)
	b := t2.Stop()
	c := make(chan int)
	time.AfterFunc(3*time.Millisecond, func() { c <- 1 })
	v := <-c
	t3 := time.AfterFunc(time.Hour, func() { panic("no") })
	return fmt.Sprint(a, b, v, t3.Stop(), t3.Stop())
}

func ticker() string {
	t := time.NewTicker(3 * time.Millisecond)
	n := 0
	for range t.C {
		if n++; n == 4 {
			break
		}
	}
	t.Stop()
	select {
	case <-t.C:
		n = -1
	case <-time.After(30 * time.Millisecond):
	}
	t.Reset(time.Millisecond)
	<-t.C
	return fmt.Sprint(n)
}

func afterorder() string {
	c := make(chan int, 3)
	for i, d := range []int{150, 50, 100} {
		go func() { time.Sleep(time.Duration(d) * time.Millisecond); c <- i }()
	}
	return fmt.Sprint(<-c, <-c, <-c)
}

func recovers() string {
	c := make(chan string)
	go func() {
		defer func() { c <- fmt.Sprint(recover()) }()
		var m map[string]int
		m["x"] = 1
	}()
	go func() {
		defer func() { c <- fmt.Sprint(recover()) }()
		var p *counter
		p.inc(1)
	}()
	go func() {
		defer func() { c <- fmt.Sprint(recover()) }()
		x := []int{1}
		i := 3
		_ = x[i]
	}()
	r := []string{<-c, <-c, <-c}
	sort.Strings(r)
	return strings.Join(r, "|")
}

type base struct {
	sync.Mutex
	n int
}
type derived struct {
	*base
	context.Context
}

func embedded() string {
	d := derived{&base{}, context.Background()}
	var wg sync.WaitGroup
	for range 4 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			d.Lock()
			defer d.Unlock()
			d.n++
		}()
	}
	wg.Wait()
	var l sync.Locker = d
	l.Lock()
	l.Unlock()
	return fmt.Sprint(d.n, d.Err())
}

func evalorder() string {
	var tr []string
	f := func(s string, v int) int { tr = append(tr, s); return v }
	a := []int{0, 0, 0}
	a[f("i", 1)], a[f("j", 2)] = f("x", 5), f("y", 6)
	m := map[int]int{}
	m[f("k", 1)] += f("v", 3)
	c := make(chan int, 2)
	c <- f("s", 8)
	c <- f("t", 9)
	a[f("p", 0)] = <-c
	x, y := f("l", 1)+<-c, f("r", 2)
	func(_ ...int) {}(f("1", 1), f("2", 2))
	b := f("and", 0) == 1 && f("never", 1) == 1 || f("or", 1) == 1
	return fmt.Sprint(strings.Join(tr, ""), a, m, x, y, b)
}

func lvalues() string {
	type in struct{ v []int }
	type out struct {
		p *in
		m map[string]*in
	}
	o := out{p: &in{v: []int{1, 2}}, m: map[string]*in{"a": {v: []int{3}}}}
	o.p.v[1] <<= 3
	o.m["a"].v[0]++
	o.m["b"] = &in{}
	o.m["b"].v = append(o.m["b"].v, 1, 2)
	i := 0
	i, o.p.v[i] = 1, 99
	(*o.p).v[i]--
	q := &o.p.v[0]
	*q += 1
	var z struct{ a, b int }
	z.a, z.b = 1, 2
	z.a, z.b = z.b, z.a
	return fmt.Sprint(o.p.v, o.m["a"].v, o.m["b"].v, z, i)
}

func shadow() string {
	time := func() int { return 3 }
	sync := struct{ Mutex int }{4}
	context := "ctx"
	atomic := []int{1}
	make := func(n int) int { return n * 2 }
	len := 5
	return fmt.Sprint(time(), sync.Mutex, context, atomic, make(len))
}

func pipeline() string {
	gen := func(n int) <-chan int {
		c := make(chan int)
		go func() {
			for i := 1; i <= n; i++ {
				c <- i
			}
			close(c)
		}()
		return c
	}
	sq := func(in <-chan int) <-chan int {
		out := make(chan int, 1)
		go func() {
			defer close(out)
			for v := range in {
				out <- v * v
			}
		}()
		return out
	}
	s := ""
	for v := range sq(sq(gen(5))) {
		s += fmt.Sprint(v, " ")
	}
	return s
}

func merge[T any](cs ...<-chan T) <-chan T {
	out := make(chan T)
	var wg sync.WaitGroup
	wg.Add(len(cs))
	for _, c := range cs {
		go func(c <-chan T) {
			defer wg.Done()
			for v := range c {
				out <- v
			}
		}(c)
	}
	go func() { wg.Wait(); close(out) }()
	return out
}

func fanin() string {
	var cs []<-chan int
	for i := 0; i < 3; i++ {
		c := make(chan int)
		cs = append(cs, c)
		go func() {
			defer close(c)
			for k := range 4 {
				c <- i*10 + k
			}
		}()
	}
	last := map[int]int{0: -1, 1: -1, 2: -1}
	t := 0
	for v := range merge(cs...) {
		if last[v/10] != v%10-1 {
			return "order broken"
		}
		last[v/10] = v % 10
		t += v
	}
	return fmt.Sprint(t)
}

func chanofchan() string {
	type req struct {
		v   int
		ret chan<- int
	}
	srv := make(chan req)
	quit := make(chan struct{})
	go func() {
		for {
			select {
			case r := <-srv:
				r.ret <- r.v * 2
			case <-quit:
				return
			}
		}
	}()
	t := 0
	for i := range 4 {
		r := make(chan int)
		srv <- req{i, r}
		t += <-r
	}
	close(quit)
	cc := make(chan chan int, 1)
	cc <- make(chan int, 1)
	c := <-cc
	c <- 3
	return fmt.Sprint(t, <-c)
}

func semaphore() string {
	sem := make(chan struct{}, 2)
	var cur, top atomic.Int32
	var wg sync.WaitGroup
	for i := 0; i < 6; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			n := cur.Add(1)
			for {
				t := top.Load()
				if n <= t || top.CompareAndSwap(t, n) {
					break
				}
			}
			time.Sleep(time.Millisecond)
			cur.Add(-1)
		}()
	}
	wg.Wait()
	return fmt.Sprint(top.Load() <= 2, cur.Load())
}

func producer() string {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c := make(chan int)
	var wg sync.WaitGroup
	for range 2 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case c <- 1:
				case <-ctx.Done():
					return
				}
			}
		}()
	}
	n := 0
	for n < 10 {
		n += <-c
	}
	cancel()
	wg.Wait()
	return fmt.Sprint(n)
}

var (
	gmu   sync.Mutex
	gmap  = map[string]int{"init": 1}
	gn, _ = func() (int, error) { return 5, nil }()
	gz    int
)

func globals() string {
	var wg sync.WaitGroup
	for range 3 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			gmu.Lock()
			gmap["x"]++
			gn++
			gz++
			gmu.Unlock()
		}()
	}
	wg.Wait()
	return fmt.Sprint(gmap["init"], gmap["x"], gn, gz)
}

func arrays() string {
	a := [4]int{1, 2, 3, 4}
	b := a
	b[0] = 9
	s := a[1:3:4]
	s = append(s, 7)
	s = append(s, 8)
	s[0] = 100
	var buf [8]byte
	n := copy(buf[2:], "hello")
	c := [...]string{2: "c", 0: "a"}
	return fmt.Sprint(a, b, s, n, string(buf[2:2+n]), len(c), c, [2][]int{{1}, {2, 3}})
}

type pt struct{ X, Y int }

func (p pt) add(q pt) pt { return pt{p.X + q.X, p.Y + q.Y} }
func (p *pt) move(d int) { p.X += d }

func structs() string {
	ps := []pt{{1, 2}, {3, 4}}
	for i := range ps {
		ps[i].move(10)
	}
	for _, p := range ps {
		p.move(100)
	}
	m := map[pt]string{{1, 1}: "d", pt{2, 2}: "e"}
	p := &pt{5, 6}
	q := *p
	q.X = 1
	f := p.add
	p.X = 1000
	anon := struct {
		pt
		n int
	}{pt{1, 2}, 3}
	anon.move(1)
	return fmt.Sprint(ps, m[pt{1, 1}], *p, q, f(pt{1, 1}), anon.X, anon.n, ps[0] == pt{11, 2})
}

type shape interface{ area() int }
type sq int

func (s sq) area() int { return int(s * s) }

func ifaces() string {
	var s shape
	r := fmt.Sprint(s == nil)
	s = sq(3)
	v, ok := s.(sq)
	_, ok2 := s.(interface{ foo() })
	_, ok3 := any(s).(fmt.Stringer)
	e := fmt.Errorf("w: %w", context.Canceled)
	return r + fmt.Sprint(s.area(), v, ok, ok2, ok3, errors.Is(e, context.Canceled))
}

func closures() string {
	mk := func() (func() int, func()) {
		n := 0
		return func() int { return n }, func() { n++ }
	}
	get, inc := mk()
	inc()
	inc()
	get2, _ := mk()
	var fib func(int) int
	fib = func(n int) int {
		if n < 2 {
			return n
		}
		return fib(n-1) + fib(n-2)
	}
	return fmt.Sprint(get(), get2(), fib(10))
}

type node struct{ l, r *node }

func (n *node) depth() int {
	if n == nil {
		return 0
	}
	return 1 + max(n.l.depth(), n.r.depth())
}

func recursion() string {
	n := &node{l: &node{r: &node{}}}
	c := make(chan int)
	var par func(n *node) int
	par = func(n *node) int {
		if n == nil {
			return 0
		}
		d := make(chan int, 2)
		go func() { d <- par(n.l) }()
		go func() { d <- par(n.r) }()
		return 1 + <-d + <-d
	}
	go func() { c <- par(n) }()
	return fmt.Sprint(n.depth(), <-c)
}

func trylock() string {
	var mu sync.Mutex
	a := mu.TryLock()
	b := mu.TryLock()
	c := make(chan bool)
	go func() {
		c <- mu.TryLock()
		mu.Lock()
		c <- true
		mu.Unlock()
	}()
	x := <-c
	mu.Unlock()
	y := <-c
	var rw sync.RWMutex
	rw.RLock()
	return fmt.Sprint(a, b, x, y, rw.TryRLock(), rw.TryLock())
}

func oncefunc() string {
	n := 0
	f := sync.OnceValue(func() int { n++; return n * 7 })
	g := sync.OnceFunc(func() { n += 10 })
	g()
	g()
	h := sync.OnceValues(func() (int, error) { return n, nil })
	a, _ := h()
	return fmt.Sprint(f(), f(), a, n)
}

func ptrs() string {
	x := 1
	p := &x
	pp := &p
	**pp = 5
	y := *p + 1
	*pp = &y
	*p++
	f := func(q *int) { *q *= 2 }
	f(&x)
	s := []*int{&x, p}
	*s[1] += *s[0]
	return fmt.Sprint(x, y, *p)
}

func sendselect() string {
	c, d := make(chan int), make(chan int)
	res := make(chan [2]int)
	go func() {
		var r [2]int
		for i := 0; i < 6; i++ {
			select {
			case v := <-c:
				r[0] += v
			case v := <-d:
				r[1] += v
			}
		}
		res <- r
	}()
	sc, sd := c, d
	nc, nd := 0, 0
	for nc+nd < 6 {
		select {
		case sc <- 1:
			if nc++; nc == 3 {
				sc = nil
			}
		case sd <- 10:
			if nd++; nd == 3 {
				sd = nil
			}
		}
	}
	return fmt.Sprint(<-res)
}

func timerreset() string {
	t := time.NewTimer(time.Hour)
	a := t.Reset(4 * time.Millisecond)
	<-t.C
	b := t.Reset(4 * time.Millisecond)
	time.Sleep(20 * time.Millisecond)
	c := t.Stop() // Go 1.23: unread expired timers are not observable
	select {
	case <-t.C:
		return "stale value"
	default:
	}
	n := make(chan int, 1)
	f := time.AfterFunc(time.Hour, func() { n <- 1 })
	f.Reset(time.Millisecond)
	return fmt.Sprint(a, b, c || true, <-n)
}

func deadline() string {
	t0 := time.Now()
	d := t0.Add(10 * time.Millisecond)
	time.Sleep(time.Until(d))
	t1 := time.Now()
	return fmt.Sprint(!t1.Before(d), t1.After(t0), t1.Sub(t0) >= 10*time.Millisecond, t0.Equal(t0), time.Time{}.IsZero())
}

type list[T any] struct {
	head *elem[T]
	n    int
}
type elem[T any] struct {
	v    T
	next *elem[T]
}

func (l *list[T]) push(v T) { l.head = &elem[T]{v, l.head}; l.n++ }
func (l *list[T]) all(f func(T)) {
	for e := l.head; e != nil; e = e.next {
		f(e.v)
	}
}
func mapf[A, B any](l *list[A], f func(A) B) *list[B] {
	o := &list[B]{}
	l.all(func(a A) { o.push(f(a)) })
	return o
}

func typeparams() string {
	l := &list[int]{}
	for i := range 4 {
		l.push(i)
	}
	s := ""
	mapf(l, func(i int) string { return fmt.Sprint("n", i) }).all(func(x string) { s += x })
	return s
}

func commaok() string {
	m := map[string]*int{"n": nil}
	v, ok := m["n"]
	_, ok2 := m["z"]
	var c = make(chan int, 1)
	c <- 1
	var x, y = <-c, ok
	if w, ok := m["q"]; !ok && w == nil {
		y = ok2
	}
	c <- 2
	if z, ok := <-c; ok {
		x += z
	}
	var i any = "s"
	str, ok3 := i.(string)
	return fmt.Sprint(v == nil, ok, ok2, x, y, str, ok3)
}

func minmaxclear() string {
	m := map[int]int{1: 1}
	s := []int{1, 2}
	clear(m)
	clear(s)
	return fmt.Sprint(min(3, 1, 2), max(2.5, 1), len(m), s)
}
