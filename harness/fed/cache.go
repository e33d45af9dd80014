package fed

import (
	"encoding/base64"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/vmihailenco/msgpack/v5"
)

// NoCache never holds anything.
type NoCache struct{}

// Get implements the Cache interface of the library.
func (NoCache) Get(string, any) (bool, error) { return false, nil }

// Set implements the Cache interface of the library.
func (NoCache) Set(string, any, time.Duration) error { return nil }

// SetEvent is a recorded Set call.
type SetEvent struct {
	Key  string
	TTL  time.Duration
	Data []byte
	// At is the real time of the call
	At time.Time
}

type entry struct {
	data []byte
	exp  time.Time // zero: forever
}

// MemCache is a cache with the semantics of a redis server (a non-positive ttl means no expiration) and a clock that can be
// moved; it records what is set. It serialises with msgpack as the caches of the library do.
type MemCache struct {
	mu     sync.Mutex
	m      map[string]entry
	offset time.Duration
	Sets   []SetEvent
	Hits   map[string]int
	Misses map[string]int
	// FailGet and FailSet inject faults
	FailGet func(key string) error
	FailSet func(key string) error
	// Corrupt may replace the stored data
	Corrupt func(key string, data []byte) []byte
}

// NewMemCache returns an empty cache.
func NewMemCache() *MemCache {
	return &MemCache{m: map[string]entry{}, Hits: map[string]int{}, Misses: map[string]int{}}
}

// Advance moves the clock of the cache (only).
func (c *MemCache) Advance(d time.Duration) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.offset += d
}

// Clear forgets all entries.
func (c *MemCache) Clear() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.m = map[string]entry{}
}

// DropPrefix forgets entries.
func (c *MemCache) DropPrefix(p string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for k := range c.m {
		if strings.HasPrefix(k, p) {
			delete(c.m, k)
		}
	}
}

// Events returns a copy of the Set events.
func (c *MemCache) Events() []SetEvent {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]SetEvent(nil), c.Sets...)
}

// HitCount sums the hits of keys with a prefix.
func (c *MemCache) HitCount(prefix string) (n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for k, v := range c.Hits {
		if strings.HasPrefix(k, prefix) {
			n += v
		}
	}
	return
}

// Get implements the Cache interface of the library.
func (c *MemCache) Get(key string, target any) (bool, error) {
	if c.FailGet != nil {
		if err := c.FailGet(key); err != nil {
			return false, err
		}
	}
	c.mu.Lock()
	e, ok := c.m[key]
	sub := strings.SplitN(key, ":", 2)[0]
	if ok && !e.exp.IsZero() && !time.Now().Add(c.offset).Before(e.exp) {
		delete(c.m, key)
		ok = false
	}
	if ok {
		c.Hits[sub]++
	} else {
		c.Misses[sub]++
	}
	c.mu.Unlock()
	if !ok {
		return false, nil
	}
	return true, msgpack.Unmarshal(e.data, target)
}

// Set implements the Cache interface of the library.
func (c *MemCache) Set(key string, value any, ttl time.Duration) error {
	if c.FailSet != nil {
		if err := c.FailSet(key); err != nil {
			return err
		}
	}
	data, err := msgpack.Marshal(value)
	if err != nil {
		return err
	}
	if c.Corrupt != nil {
		data = c.Corrupt(key, data)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	e := entry{data: data}
	if ttl > 0 {
		e.exp = time.Now().Add(c.offset).Add(ttl)
	}
	c.m[key] = e
	c.Sets = append(c.Sets, SetEvent{Key: key, TTL: ttl, Data: data, At: time.Now()})
	return nil
}

// Swap is a cache that delegates to a cache that can be exchanged per world: the key or the world is not known to all calls,
// therefore it delegates to one current cache.
type Swap struct {
	mu  sync.RWMutex
	cur interface {
		Get(string, any) (bool, error)
		Set(string, any, time.Duration) error
	}
}

// Use changes the cache in use.
func (s *Swap) Use(c interface {
	Get(string, any) (bool, error)
	Set(string, any, time.Duration) error
}) {
	s.mu.Lock()
	s.cur = c
	s.mu.Unlock()
}

// Get delegates.
func (s *Swap) Get(k string, t any) (bool, error) {
	s.mu.RLock()
	c := s.cur
	s.mu.RUnlock()
	return c.Get(k, t)
}

// Set delegates.
func (s *Swap) Set(k string, v any, d time.Duration) error {
	s.mu.RLock()
	c := s.cur
	s.mu.RUnlock()
	return c.Set(k, v, d)
}

var reJWT = regexp.MustCompile(`eyJ[A-Za-z0-9_-]*\.[A-Za-z0-9_-]+\.[A-Za-z0-9_-]*`)

// Statements finds the entity statements in cached bytes (as compact tokens, also base64 encoded ones).
func Statements(data []byte) (r []*Token) {
	seen := map[string]bool{}
	add := func(b []byte) {
		for _, m := range reJWT.FindAll(b, -1) {
			t, err := Decode(m)
			if err == nil && t.Typ() == TypStatement && !seen[t.Raw] {
				seen[t.Raw] = true
				r = append(r, t)
			}
		}
	}
	add(data)
	_ = base64.StdEncoding
	return
}
