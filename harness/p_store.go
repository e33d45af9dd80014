package main

import (
	"fmt"
	"math"
	"net"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/redis/go-redis/v9"

	"github.com/go-oidfed/lib/cache"

	"github.com/go-oidfed/lib/verifharness/fed"
	"github.com/go-oidfed/lib/verifharness/rt"
)

func init() {
	register("C24", property{run: runC24, race: true})
}

// stored is a value that is put into a cache.
type stored struct {
	S string
	B []byte
	L []string
	M map[string]int64
	N int64
	F float64
	P *stored
	A []stored
	T bool
}

func genStored(k *rt.Case, depth int) *stored {
	r := k.Rng
	s := &stored{
		S: fed.Pick(r, "", "a", "ä\x00\xff", strings.Repeat("x", r.Intn(300)), fmt.Sprint(r.Int63())),
		N: fed.Pick(r, 0, -1, r.Int63(), -r.Int63(), math.MaxInt64, math.MinInt64),
		F: fed.Pick(r, 0, r.NormFloat64(), math.Inf(1), math.MaxFloat64),
		T: fed.Chance(r, 0.5),
	}
	if fed.Chance(r, 0.6) {
		s.B = make([]byte, r.Intn(50))
		r.Read(s.B)
	}
	for i := r.Intn(4); i > 0; i-- {
		s.L = append(s.L, fmt.Sprint(r.Intn(1000)))
	}
	if fed.Chance(r, 0.6) {
		s.M = map[string]int64{}
		for i := r.Intn(4); i > 0; i-- {
			s.M[fmt.Sprint("k", r.Intn(10))] = r.Int63()
		}
	}
	if depth > 0 && fed.Chance(r, 0.5) {
		s.P = genStored(k, depth-1)
	}
	if depth > 0 && fed.Chance(r, 0.3) {
		s.A = []stored{*genStored(k, 0), *genStored(k, 0)}
	}
	return s
}

func (s *stored) clone() *stored {
	if s == nil {
		return nil
	}
	c := *s
	if s.B != nil {
		c.B = append([]byte{}, s.B...)
	}
	if s.L != nil {
		c.L = append([]string{}, s.L...)
	}
	if s.M != nil {
		c.M = map[string]int64{}
		for k, v := range s.M {
			c.M[k] = v
		}
	}
	c.P = s.P.clone()
	c.A = nil
	for i := range s.A {
		c.A = append(c.A, *s.A[i].clone())
	}
	return &c
}

func (s *stored) scramble() {
	s.S += "!"
	s.N++
	for i := range s.B {
		s.B[i]++
	}
	for i := range s.L {
		s.L[i] += "!"
	}
	for n := range s.M {
		s.M[n]++
	}
	if s.M != nil {
		s.M["scrambled"] = 1
	}
	if s.P != nil {
		s.P.scramble()
	}
	for i := range s.A {
		s.A[i].scramble()
	}
}

var keyKinds = []string{
	cache.KeyEntityStatement, cache.KeyOPMetadata, cache.KeyEntityConfiguration, cache.KeyTrustTree, cache.KeyTrustTreeChains,
	cache.KeyTrustChainResolvedMetadata, cache.KeySubordinateListing,
}

// nearIDs gives identifiers that are easily mixed up.
func nearIDs(k *rt.Case) (ids []string) {
	r := k.Rng
	base := fmt.Sprintf("https://%s%d.example", fed.Pick(r, "a", "b:", "ä", ""), r.Intn(3))
	l := []string{
		base, base + "/", base + ":", base + ":443", ":" + base, strings.ToUpper(base), base + base, base + "?", base + "/x", base + "%2f", "", ":", "::",
		base + " ", base + "\x00", base + "|", base + ":" + base, "a", "aa", "ab", "b", base + "ÿ", base + "\xff", base + "\xfb\xf0",
		base + "-", base + "_", base + "+",
	}
	for _, i := range r.Perm(len(l))[:5+r.Intn(8)] {
		ids = append(ids, l[i])
	}
	return
}

// keysCaseC24: different things have different keys, the same thing has the same key.
func cacheKeys(k *rt.Case) {
	ids := nearIDs(k)
	seen := map[string]string{}
	add := func(key, what string) {
		k.Count("keys", 1)
		if o, ok := seen[key]; ok && o != what {
			k.Violation("different things have the same cache key", map[string]any{"key": key, "one": o, "other": what})
		}
		seen[key] = what
	}
	for _, a := range ids {
		for _, b := range ids {
			key := cache.EntityStmtCacheKey(a, b)
			add(key, fmt.Sprintf("statement of %q about %q", b, a))
			if key != cache.EntityStmtCacheKey(a, b) {
				k.Violation("the cache key of a statement changes", map[string]any{"sub": a, "iss": b})
			}
		}
		for _, kind := range keyKinds {
			if kind == cache.KeyEntityStatement {
				continue
			}
			add(cache.Key(kind, a), fmt.Sprintf("%s %q", kind, a))
		}
	}
	k.Eval(fmt.Sprint("keys", len(ids)))
}

// opsCase compares a sequence of operations with a map.
func opsCase(k *rt.Case, name string, srv *fed.Redis) {
	r := k.Rng
	type ent struct {
		v   *stored
		exp time.Duration // 0: far away
	}
	m := map[string]ent{}
	var now time.Duration
	var keys []string
	ids := nearIDs(k)
	for _, i := range ids {
		keys = append(keys, cache.Key(fed.Pick(r, keyKinds...), k.Name+i), k.Name+i)
		keys = append(keys, cache.EntityStmtCacheKey(k.Name+i, fed.Pick(r, ids...)))
	}
	var last map[string]*stored
	shape := ""
	for step := 0; step < 40; step++ {
		key := fed.Pick(r, keys...)
		switch op := r.Intn(12); {
		case op < 4:
			v := genStored(k, 2)
			c := v.clone()
			life := time.Hour + time.Duration(r.Intn(1e6))*time.Millisecond
			e := ent{v: c}
			if srv != nil {
				life = fed.Pick(r, life, time.Duration(1+r.Intn(5000))*time.Millisecond, time.Duration(1+r.Intn(100))*time.Second,
					time.Duration(1e6+r.Intn(1e10)), 87600*time.Hour)
				e.exp = now + life.Truncate(time.Millisecond)
			} else if fed.Chance(r, 0.1) {
				life = fed.Pick(r, time.Duration(math.MaxInt64), 87600*time.Hour)
			}
			var err error
			if fed.Chance(r, 0.5) {
				err = cache.Set(key, v, life)
			} else {
				err = cache.Set(key, *v, life)
			}
			k.Logf("set %q %v", key, life)
			if err != nil {
				k.Violation("a value cannot be stored", map[string]any{"cache": name, "err": err.Error()})
				return
			}
			if srv != nil {
				rem, ok := srv.Keys()[key]
				if d := rem - life; !ok || rem == 0 || d > 0 || d < -time.Millisecond {
					k.Violation("a value is stored with another lifetime", map[string]any{"cache": name, "want": life.String(), "got": rem.String(), "stored": ok})
				}
			}
			m[key] = e
			v.scramble() // what was stored must not change
			k.Count("sets", 1)
			shape += "s"
		case op < 9:
			var got stored
			hit, err := cache.Get(key, &got)
			e, ok := m[key]
			if ok && e.exp != 0 && e.exp <= now {
				ok = false
				k.Count("expired", 1)
			}
			det := map[string]any{"cache": name, "key": key, "hit": hit, "want hit": ok, "got": got, "want": e.v, "now": now.String()}
			switch {
			case err != nil:
				det["err"] = err.Error()
				k.Violation("reading from an intact cache fails", det)
			case hit != ok && hit:
				k.Violation("a value is returned that is not (any more) in the cache", det)
			case hit != ok:
				k.Violation("a value is lost before its lifetime ends", det)
			case hit && !reflect.DeepEqual(&got, e.v):
				k.Violation("another value is returned than was stored", det)
			case !hit && !reflect.DeepEqual(got, stored{}):
				k.Violation("a miss modifies the target", det)
			}
			if hit && last == nil {
				last = map[string]*stored{}
			}
			if hit {
				if o := last[key]; o != nil {
					o.scramble()
				}
				last[key] = &got
				got.scramble()
			}
			k.Count(fmt.Sprintf("%s hit %v", name, hit), 1)
			shape += "g"
		case op == 9:
			// a value that cannot be stored changes nothing
			if err := cache.Set(key, make(chan int), time.Hour); err == nil {
				k.Violation("storing a value that cannot be encoded succeeds", map[string]any{"cache": name})
			}
			shape += "x"
		case op == 10:
			// wrong type
			if e, ok := m[key]; ok && (e.exp == 0 || e.exp > now) {
				var n int
				if hit, err := cache.Get(key, &n); hit && err == nil {
					k.Violation("a struct is read as a number without an error", map[string]any{"cache": name, "n": n})
				}
			}
			shape += "t"
		default:
			if srv != nil {
				d := fed.Pick(r, time.Duration(r.Intn(3000))*time.Millisecond, time.Duration(r.Intn(60))*time.Second, time.Second)
				// go to the very border
				for _, e := range m {
					if e.exp > now && fed.Chance(r, 0.1) {
						d = e.exp - now + fed.Pick(r, -time.Millisecond, 0, time.Millisecond)
						break
					}
				}
				srv.Advance(d)
				now += d
				shape += "a"
			}
		}
	}
	k.Eval(name + " " + shape)
}

// expiryCase: real time. A miss is a loss only if it was over before the lifetime was; a hit is stale only if it began after its end.
func expiryCase(k *rt.Case) {
	r := k.Rng
	type ent struct {
		life   time.Duration
		t0, t1 time.Time
		v      int64
		gone   bool
	}
	ents := map[string]*ent{}
	set := func(key string) {
		e := &ent{life: fed.Pick(r, time.Duration(1+r.Intn(300))*time.Millisecond, time.Duration(1+r.Intn(20))*time.Millisecond, time.Hour), v: r.Int63()}
		e.t0 = time.Now()
		if err := cache.Set(key, e.v, e.life); err != nil {
			k.Violation("a value cannot be stored", map[string]any{"err": err.Error()})
		}
		e.t1 = time.Now()
		ents[key] = e
		k.Count("sets", 1)
	}
	for i := 0; i < 30; i++ {
		set(fmt.Sprint(k.Name, "/", i))
	}
	const slack = 3 * time.Millisecond
	n, stale := 0, 0
	begin := time.Now()
	for round := 0; time.Since(begin) < 330*time.Millisecond; round++ {
		var names []string
		for key := range ents {
			names = append(names, key)
		}
		sort.Strings(names)
		for _, key := range names {
			e := ents[key]
			var v int64
			g0 := time.Now()
			hit, err := cache.Get(key, &v)
			g1 := time.Now()
			n++
			det := map[string]any{"lifetime": e.life.String(), "age": g1.Sub(e.t0).String(), "value": v, "stored": e.v}
			switch {
			case err != nil:
				k.Violation("reading from an intact cache fails", det)
			case hit && v != e.v:
				k.Violation("another value is returned than was stored", det)
			case hit && g0.Sub(e.t1) > e.life+slack:
				k.Violation("a value is returned after its lifetime ended", det)
			case !hit && g1.Sub(e.t0) < e.life-slack:
				k.Violation("a value is lost before its lifetime ends", det)
			}
			if !hit {
				stale++
				if !e.gone && fed.Chance(r, 0.3) {
					set(key)
				} else {
					e.gone = true
				}
			} else if fed.Chance(r, 0.005) {
				set(key) // the new lifetime counts
			}
		}
		time.Sleep(time.Duration(r.Intn(5)) * time.Millisecond)
	}
	k.Count("reads", n)
	k.Count("reads after expiry", stale)
	k.Eval(fmt.Sprint("expiry", stale/20, n/100))
}

type regOp struct {
	key        string
	write      bool
	start, end int64
	v          int64
	hit        bool
	err        bool
}

// registerCase: concurrent reads and writes of single keys are linearizable (unique values; Gibbons and Korach's zones).
func registerCase(k *rt.Case, name string, faulty bool) {
	const workers = 8
	r := k.Rng
	var clock, val atomic.Int64
	keys := make([]string, 1+r.Intn(3))
	for i := range keys {
		keys[i] = fmt.Sprint(k.Name, "/r", i)
	}
	seeds := make([]int64, workers)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	pw := fed.Pick(r, 0.1, 0.3, 0.6)
	pad := strings.Repeat("p", fed.Pick(r, 0, 10, 5000))
	logs := make([][]regOp, workers)
	var wg sync.WaitGroup
	type boxed struct {
		V    int64
		Pad  string
		Same int64
	}
	torn := make([]string, workers)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			g := rt.New("x", "", seeds[w], "", "").Rng("w")
			for i := 0; i < 120; i++ {
				o := regOp{key: keys[g.Intn(len(keys))], write: g.Float64() < pw}
				if o.write {
					o.v = val.Add(1)
					b := boxed{V: o.v, Pad: pad, Same: o.v}
					o.start = clock.Add(1)
					o.err = cache.Set(o.key, b, time.Hour) != nil
					o.end = clock.Add(1)
				} else {
					var b boxed
					o.start = clock.Add(1)
					hit, err := cache.Get(o.key, &b)
					o.end = clock.Add(1)
					o.hit, o.err, o.v = hit, err != nil, b.V
					if hit && err == nil && (b.V != b.Same || b.Pad != pad) {
						torn[w] = fmt.Sprint(b)
					}
				}
				logs[w] = append(logs[w], o)
			}
		}()
	}
	wg.Wait()
	byKey := map[string][]regOp{}
	nerr := 0
	for w, l := range logs {
		if torn[w] != "" {
			k.Violation("a torn value is read", map[string]any{"cache": name, "value": torn[w]})
		}
		for _, o := range l {
			byKey[o.key] = append(byKey[o.key], o)
			if o.err {
				nerr++
				if !faulty {
					k.Violation("an operation on an intact cache fails", map[string]any{"cache": name, "write": o.write})
				}
			}
		}
	}
	over := 0
	for key, ops := range byKey {
		why, ov := linearizable(ops)
		over += ov
		if why != "" {
			sort.Slice(ops, func(i, j int) bool { return ops[i].start < ops[j].start })
			for _, o := range ops {
				k.Logf("%+v", o)
			}
			k.Violation("concurrent reads and writes of one key are not linearizable", map[string]any{"cache": name, "key": key, "why": why})
		}
	}
	k.Count(name+" concurrent operations", workers*120)
	k.Count(name+" overlapping operations", over)
	k.Count(name+" failed operations", nerr)
	k.Eval(fmt.Sprint(name, " register ", len(keys), pw, len(pad), nerr > 0, over/200))
}

// linearizable judges the history of a register whose written values are unique; a failed write may take effect at any time
// after its start or never.
func linearizable(ops []regOp) (why string, overlapping int) {
	const inf = math.MaxInt64
	type zone struct {
		v            int64
		f, s         int64 // minimum end, maximum start
		wstart, wend int64
		has          bool
		read         bool
		failed       bool
	}
	zs := map[int64]*zone{0: {v: 0, f: 0, s: 0, has: true, read: true}} // nothing stored yet
	get := func(v int64) *zone {
		z := zs[v]
		if z == nil {
			z = &zone{v: v, f: inf, s: -1}
			zs[v] = z
		}
		return z
	}
	for _, o := range ops {
		if o.write {
			z := get(o.v)
			z.has = true
			z.wstart = o.start
			z.wend = o.end
			z.failed = o.err
			e := o.end
			if o.err {
				e = inf
			}
			z.f = min(z.f, e)
			z.s = max(z.s, o.start)
			continue
		}
		if o.err {
			continue
		}
		v := o.v
		if !o.hit {
			v = 0
		}
		z := get(v)
		z.read = true
		z.f = min(z.f, o.end)
		z.s = max(z.s, o.start)
	}
	var l []*zone
	for _, z := range zs {
		if !z.has {
			return fmt.Sprintf("value %d was never written", z.v), 0
		}
		if z.failed && !z.read {
			continue
		}
		l = append(l, z)
	}
	for _, o := range ops {
		if !o.write && !o.err && o.hit && o.end < zs[o.v].wstart {
			return fmt.Sprintf("value %d was read before it was written", o.v), 0
		}
		for _, p := range ops {
			if p.start > o.start && p.start < o.end {
				overlapping++
			}
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].v < l[j].v })
	for i, a := range l {
		for j, b := range l {
			if i == j || a.f >= a.s {
				continue // a is not a forward zone
			}
			if b.f < b.s {
				if i < j && max(a.f, b.f) < min(a.s, b.s) {
					return fmt.Sprintf("the values %d and %d alternate", a.v, b.v), 0
				}
			} else if b.s > a.f && b.f < a.s {
				return fmt.Sprintf("value %d was written and over between two operations that saw value %d", b.v, a.v), 0
			}
		}
	}
	return "", overlapping
}

func redisOptions(k *rt.Case, s *fed.Redis) *redis.Options {
	o := &redis.Options{Addr: s.Addr(), MaxRetries: -1, DialTimeout: 20 * time.Second, ReadTimeout: 60 * time.Second, WriteTimeout: 60 * time.Second, PoolTimeout: 60 * time.Second}
	if s.Auth != "" {
		o.Password = s.Auth
		if s.Hello && fed.Chance(k.Rng, 0.5) {
			o.Username = "default"
		}
	}
	o.Protocol = fed.Pick(k.Rng, 0, 2, 3)
	if !s.Hello {
		o.Protocol = 2
	}
	o.DB = fed.Pick(k.Rng, 0, 0, 3)
	return o
}

// newRedis starts a server and makes the library use it.
func newRedis(k *rt.Case) *fed.Redis {
	s := fed.NewRedis()
	s.Hello = fed.Chance(k.Rng, 0.5)
	s.Auth = fed.Pick(k.Rng, "", "", "secret")
	if err := cache.UseRedisCache(redisOptions(k, s)); err != nil {
		k.Violation("a working redis server cannot be used", map[string]any{"err": err.Error(), "hello": s.Hello, "auth": s.Auth, "log": s.Log})
	}
	return s
}

// connectCase: a server that does not work is not used and what was used before stays.
func connectCase(k *rt.Case) {
	r := k.Rng
	old := fed.NewMemCache()
	cache.SetCache(old)
	v := genStored(k, 1)
	if err := cache.Set(k.Name, v, time.Hour); err != nil {
		k.Violation("a value cannot be stored", map[string]any{"err": err.Error()})
	}
	s := fed.NewRedis()
	defer s.Close()
	s.Hello = fed.Chance(r, 0.5)
	s.Auth = fed.Pick(r, "", "secret")
	o := redisOptions(k, s)
	how := fed.Pick(r, "dead", "error", "close", "cut", "password", "no password", "works", "works", "loading")
	switch how {
	case "dead":
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return
		}
		o.Addr = l.Addr().String()
		_ = l.Close()
	case "error":
		s.SetFault(func([]string) (string, bool, bool) { return "-ERR no\r\n", false, true })
	case "loading":
		s.SetFault(func([]string) (string, bool, bool) {
			return "-LOADING Redis is loading the dataset in memory\r\n", false, true
		})
	case "close":
		s.SetFault(func([]string) (string, bool, bool) { return "", false, true })
	case "cut":
		s.SetFault(func([]string) (string, bool, bool) { return "+PO", false, true })
	case "password":
		s.Auth = "secret"
		o.Password = "wrong"
	case "no password":
		s.Auth = "secret"
		o.Password, o.Username = "", ""
	}
	err := cache.UseRedisCache(o)
	det := map[string]any{"how": how, "err": fmt.Sprint(err)}
	var got stored
	if how == "works" {
		if err != nil {
			k.Violation("a working redis server cannot be used", det)
			return
		}
		if hit, err := cache.Get(k.Name, &got); hit || err != nil {
			k.Violation("the redis cache is not used after it was chosen", det)
		}
		if err = cache.Set(k.Name+"x", v, time.Hour); err != nil || len(s.Keys()) != 1 {
			k.Violation("the redis cache is not used after it was chosen", det)
		}
		if o.DB != 0 && len(s.Commands("select")) == 0 {
			k.Violation("the chosen redis database is not used", det)
		}
	} else {
		if err == nil {
			k.Violation("a redis server that does not work is accepted", det)
		}
		if hit, err := cache.Get(k.Name, &got); !hit || err != nil || !reflect.DeepEqual(&got, v) {
			k.Violation("a failed attempt to use redis loses the cache in use", det)
		}
		s.SetFault(nil)
		if err = cache.Set(k.Name+"x", v, time.Hour); err != nil || len(s.Commands("set")) > 0 || len(old.Events()) != 2 {
			k.Violation("a failed attempt to use redis loses the cache in use", det)
		}
	}
	k.Count("connect "+how, 1)
	k.Eval("connect " + how + fmt.Sprint(s.Hello, s.Auth, o.Protocol, o.DB))
}

// redisFaults: failures are reported or are misses, never other values.
func redisFaults(k *rt.Case) {
	r := k.Rng
	s := newRedis(k)
	defer s.Close()
	possible := map[string]map[int64]bool{} // what a key may hold; 0: nothing
	keys := []string{"a", "b", "a:b"}
	for _, key := range keys {
		possible[key] = map[int64]bool{0: true}
	}
	var raw string
	var done bool
	kinds := ""
	for i := 0; i < 25; i++ {
		key := fed.Pick(r, keys...)
		kind := fed.Pick(r, "", "", "", "error", "error done", "close", "close done", "cut", "wrongtype", "garbage", "oom", "drop")
		raw, done = "", false
		switch kind {
		case "error", "error done":
			raw = "-ERR something\r\n"
		case "wrongtype":
			raw = "-WRONGTYPE Operation against a key holding the wrong kind of value\r\n"
		case "oom":
			raw = "-OOM command not allowed when used memory > 'maxmemory'.\r\n"
		case "cut":
			raw = "$100\r\nabc"
		}
		done = strings.HasSuffix(kind, "done")
		s.SetFault(nil)
		write := fed.Chance(r, 0.5)
		switch kind {
		case "":
		case "drop":
			s.DropConnections() // the client notices (or not) with its next command
		case "garbage":
			if write {
				continue
			}
			s.SetFault(func([]string) (string, bool, bool) { return "$3\r\n\xc1ab\r\n", false, true })
		default:
			fr, fd := raw, done
			s.SetFault(func([]string) (string, bool, bool) { return fr, fd, true })
		}
		kinds += kind + ","
		det := map[string]any{"fault": kind, "key": key}
		if write {
			v := r.Int63n(1<<60) + 1
			err := cache.Set(key, v, time.Hour)
			switch {
			case kind == "" && err != nil && !strings.Contains(kinds, "drop"):
				det["err"] = err.Error()
				k.Violation("an operation on an intact cache fails", det)
			case kind != "" && kind != "drop" && err == nil:
				k.Violation("a failed store is not reported", det)
			}
			if err == nil {
				possible[key] = map[int64]bool{v: true}
			} else {
				possible[key][v] = true
			}
		} else {
			var v int64
			hit, err := cache.Get(key, &v)
			if !hit && err == nil {
				v = 0
			}
			det["hit"], det["value"], det["err"], det["possible"] = hit, v, fmt.Sprint(err), possible[key]
			switch {
			case err == nil && kind != "" && kind != "drop" && hit:
				k.Violation("a failed read is taken for a value", det)
			case err == nil && kind != "" && kind != "drop":
				// a miss
			case err == nil && !possible[key][v]:
				k.Violation("another value is returned than was stored", det)
			case err == nil:
				possible[key] = map[int64]bool{v: true}
			case kind == "" && !strings.Contains(kinds, "drop"):
				k.Violation("an operation on an intact cache fails", det)
			}
		}
		k.Count("redis fault "+kind, 1)
	}
	k.Eval("faults " + kinds)
}

// redisWorld: the library resolves with a redis cache, working or not.
func redisWorld(k *rt.Case) {
	r := k.Rng
	s := newRedis(k)
	defer s.Close()
	cc := genChain(k, randOpts(r), fed.Mutations, r.Intn(2), 0)
	defer cc.f.W.Close()
	pf := fed.Pick(r, 0, 0, 0.2, 0.6, 1)
	var n atomic.Int64
	period := int64(1)
	if pf > 0 {
		period = int64(math.Round(1 / pf))
		s.SetFault(func(args []string) (string, bool, bool) {
			switch x := n.Add(1); {
			case x%period != 0:
				return "", true, false
			default:
				return []string{"-ERR x\r\n", "", "$9\r\nab", "-OOM x\r\n"}[x/period%4], x%2 == 0, true
			}
		})
	}
	req := cc.f.W.RequestCount()
	cc.run(r.Intn(len(entryNames)), true, true)
	first := cc.f.W.RequestCount() - req
	cc.run(r.Intn(len(entryNames)), true, true)
	second := cc.f.W.RequestCount() - req - first
	s.Advance(fed.Pick(r, time.Minute, 24*time.Hour, 10000*time.Hour))
	cc.run(r.Intn(len(entryNames)), true, true)
	if pf == 0 && second < first {
		k.Count("worlds with less requests due to redis", 1)
	}
	for key, rem := range s.Keys() {
		if rem == 0 {
			k.Violation("a value is stored for ever", map[string]any{"key": key})
		}
	}
	k.Count("redis worlds", 1)
	k.Count("redis gets", len(s.Commands("get")))
	k.Count("redis sets", len(s.Commands("set")))
}

func runC24(c *rt.Ctx) {
	c.Rule = "The caches of the library themselves: the internal one (in use from the start) and the redis one (against a small redis server with a " +
		"clock of its own and faults). 'keys' compares cache keys of easily confused identifiers; 'ops' compares sequences of operations, with " +
		"values changed after storing and after reading, with a map; 'expiry' judges hits and misses by real time intervals; 'register' " +
		"checks the linearizability of concurrent histories per key; 'connect', 'faults' let the server fail; 'world' resolves with it. " +
		"Built with -race. Distinct by cache, operations and outcomes."
	c.RunParallel("keys", c.N(300, 3000), cacheKeys)
	c.RunParallel("ops", c.N(3000, 40000), func(k *rt.Case) { opsCase(k, "internal", nil) })
	c.RunParallel("expiry", c.N(120, 2400), expiryCase)
	c.Run("register", c.N(150, 3000), func(k *rt.Case) { registerCase(k, "internal", false) })
	c.Run("connect", c.N(150, 1500), connectCase)
	c.Run(
		"redis ops", c.N(400, 6000), func(k *rt.Case) {
			s := newRedis(k)
			defer s.Close()
			opsCase(k, "redis", s)
		},
	)
	c.Run("redis faults", c.N(400, 6000), redisFaults)
	c.Run(
		"redis register", c.N(60, 800), func(k *rt.Case) {
			s := newRedis(k)
			defer s.Close()
			faulty := fed.Chance(k.Rng, 0.4)
			if faulty {
				var n atomic.Int64
				p := int64(2 + k.Rng.Intn(10))
				s.SetFault(func([]string) (string, bool, bool) {
					x := n.Add(1)
					if x%p != 0 {
						return "", true, false
					}
					return []string{"-ERR x\r\n", "", "-OOM x\r\n"}[x/p%3], x/p%2 == 0, true
				})
			}
			registerCase(k, "redis", faulty)
		},
	)
	c.Run("redis world", c.N(250, 3000), redisWorld)
}
