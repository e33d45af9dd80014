package fed

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"
)

// RedisCmd is a command that a server was asked to do.
type RedisCmd struct {
	Args []string
	// Reply is a short form of what was answered
	Reply string
}

// Redis is a small server that speaks enough RESP for a cache. Its clock only moves by Advance.
type Redis struct {
	l     net.Listener
	mu    sync.Mutex
	m     map[string]redisEntry
	now   time.Duration
	Log   []RedisCmd
	conns map[net.Conn]bool
	// Fault may answer (raw RESP) instead of the command being done, "" answers nothing and closes the connection;
	// done tells to do the command nevertheless. It is called with GET, SET and PING.
	Fault func(args []string) (raw string, done, faulty bool)
	// Auth is the password the server wants
	Auth string
	// Hello tells that the server knows HELLO
	Hello bool
	wg    sync.WaitGroup
}

type redisEntry struct {
	v   string
	exp time.Duration // 0: never
}

// NewRedis starts a server on the loopback network.
func NewRedis() *Redis {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &Redis{l: l, m: map[string]redisEntry{}, conns: map[net.Conn]bool{}}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns[c] = true
			s.mu.Unlock()
			s.wg.Add(1)
			go func() {
				defer s.wg.Done()
				s.serve(c)
				s.mu.Lock()
				delete(s.conns, c)
				s.mu.Unlock()
				_ = c.Close()
			}()
		}
	}()
	return s
}

// Addr is where the server listens.
func (s *Redis) Addr() string { return s.l.Addr().String() }

// Close ends the server.
func (s *Redis) Close() {
	_ = s.l.Close()
	s.DropConnections()
	s.wg.Wait()
}

// DropConnections closes all connections.
func (s *Redis) DropConnections() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for c := range s.conns {
		_ = c.Close()
	}
}

// Advance moves the clock of the server.
func (s *Redis) Advance(d time.Duration) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.now += d
}

// SetFault changes the fault.
func (s *Redis) SetFault(f func(args []string) (string, bool, bool)) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Fault = f
}

// Put stores something behind the back of the library.
func (s *Redis) Put(k, v string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.m[k] = redisEntry{v: v}
}

// Keys gives the live keys with the remaining lifetime (0: forever).
func (s *Redis) Keys() map[string]time.Duration {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := map[string]time.Duration{}
	for k, e := range s.m {
		if e.exp == 0 {
			r[k] = 0
		} else if e.exp > s.now {
			r[k] = e.exp - s.now
		}
	}
	return r
}

// Commands gives the logged commands with this name.
func (s *Redis) Commands(name string) (r []RedisCmd) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.Log {
		if strings.EqualFold(c.Args[0], name) {
			r = append(r, c)
		}
	}
	return
}

func (s *Redis) serve(c net.Conn) {
	in := bufio.NewReader(c)
	authed := s.Auth == ""
	for {
		args, err := readCommand(in)
		if err != nil || len(args) == 0 {
			return
		}
		s.mu.Lock()
		name := strings.ToUpper(args[0])
		var reply string
		f := s.Fault
		done, faulty := true, false
		if f != nil && (name == "GET" || name == "SET" || name == "PING") {
			reply, done, faulty = f(args)
			done = done || !faulty
		}
		if done {
			x := s.do(name, args, &authed)
			if !faulty {
				reply = x
			}
		}
		s.Log = append(s.Log, RedisCmd{Args: args, Reply: reply})
		s.mu.Unlock()
		if reply == "" {
			return
		}
		if _, err = io.WriteString(c, reply); err != nil {
			return
		}
		if faulty && !strings.HasSuffix(reply, "\r\n") {
			return // cut
		}
	}
}

func (s *Redis) do(name string, args []string, authed *bool) string {
	switch name {
	case "HELLO":
		if !s.Hello {
			return "-ERR unknown command 'HELLO'\r\n"
		}
		for i, a := range args {
			if strings.EqualFold(a, "auth") && i+2 < len(args) {
				if s.Auth == "" || args[i+2] != s.Auth {
					return "-WRONGPASS invalid username-password pair or user is disabled.\r\n"
				}
				*authed = true
			}
		}
		if !*authed {
			return "-NOAUTH HELLO must be called with the client already authenticated\r\n"
		}
		return "%2\r\n$6\r\nserver\r\n$5\r\nredis\r\n$5\r\nproto\r\n:3\r\n"
	case "AUTH":
		if s.Auth == "" || args[len(args)-1] != s.Auth {
			return "-WRONGPASS invalid username-password pair or user is disabled.\r\n"
		}
		*authed = true
		return "+OK\r\n"
	}
	if !*authed {
		return "-NOAUTH Authentication required.\r\n"
	}
	switch name {
	case "PING":
		return "+PONG\r\n"
	case "SELECT", "CLIENT":
		return "+OK\r\n"
	case "GET":
		e, ok := s.m[args[1]]
		if !ok || e.exp != 0 && e.exp <= s.now {
			if s.Hello {
				return "_\r\n"
			}
			return "$-1\r\n"
		}
		return fmt.Sprintf("$%d\r\n%s\r\n", len(e.v), e.v)
	case "SET":
		e := redisEntry{v: args[2]}
		for i := 3; i < len(args); i++ {
			switch o := strings.ToUpper(args[i]); o {
			case "EX", "PX":
				i++
				if i >= len(args) {
					return "-ERR syntax error\r\n"
				}
				n, err := strconv.ParseInt(args[i], 10, 64)
				u := time.Second
				if o == "PX" {
					u = time.Millisecond
				}
				if err != nil || n <= 0 {
					return "-ERR invalid expire time in 'set' command\r\n"
				}
				if n > int64(1<<62)/int64(u) {
					e.exp = 1 << 62
				} else {
					e.exp = s.now + time.Duration(n)*u
				}
			case "KEEPTTL":
				e.exp = s.m[args[1]].exp
			default:
				return "-ERR syntax error\r\n"
			}
		}
		s.m[args[1]] = e
		return "+OK\r\n"
	}
	return "-ERR unknown command\r\n"
}

func readCommand(in *bufio.Reader) ([]string, error) {
	n, err := readLen(in, '*')
	if err != nil || n > 1000 {
		return nil, io.ErrUnexpectedEOF
	}
	var r []string
	for i := 0; i < n; i++ {
		l, err := readLen(in, '$')
		if err != nil || l > 1<<26 {
			return nil, io.ErrUnexpectedEOF
		}
		b := make([]byte, l+2)
		if _, err = io.ReadFull(in, b); err != nil {
			return nil, err
		}
		r = append(r, string(b[:l]))
	}
	return r, nil
}

func readLen(in *bufio.Reader, want byte) (int, error) {
	line, err := in.ReadString('\n')
	if err != nil {
		return 0, err
	}
	line = strings.TrimSpace(line)
	if len(line) < 2 || line[0] != want {
		return 0, io.ErrUnexpectedEOF
	}
	return strconv.Atoi(line[1:])
}
