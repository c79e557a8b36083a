PRE = r'''package tru

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/teonet-go/tru/teolog"
)

var _ = bytes.Equal
var _ = binary.LittleEndian
var _ = errors.New
var _ = fmt.Sprint
var _ = io.EOF
var _ = rand.Int
var _ = os.Exit
var _ = runtime.NumGoroutine
var _ = strings.Split
var _ sync.Mutex
var _ = atomic.AddInt32

var zlog = teolog.New()

func init() { zlog.SetLevel(0) }

// relay passes datagrams between a client and a server and lets f change them
type relay struct {
	c    net.PacketConn
	srv  net.Addr
	cli  net.Addr
	mu   sync.Mutex
	f    func(fromClient bool, st, id int, d []byte, send func([]byte)) // nil: pass
	done bool
}

func newRelay(t *testing.T, srv net.Addr) *relay {
	c, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	r := &relay{c: c, srv: local(srv)}
	go func() {
		buf := make([]byte, 70000)
		for {
			n, a, err := c.ReadFrom(buf)
			if err != nil {
				return
			}
			d := append([]byte{}, buf[:n]...)
			r.mu.Lock()
			fromClient := a.String() != r.srv.String()
			to := r.srv
			if fromClient {
				r.cli = a
			} else {
				to = r.cli
			}
			f := r.f
			r.mu.Unlock()
			send := func(x []byte) {
				if to != nil {
					c.WriteTo(x, to)
				}
			}
			h := binary.LittleEndian.Uint32(d)
			if f != nil {
				f(fromClient, int(h>>24), int(h&0xfffff), d, send)
			} else {
				send(d)
			}
		}
	}()
	return r
}

func (r *relay) set(f func(fromClient bool, st, id int, d []byte, send func([]byte))) {
	r.mu.Lock()
	r.f = f
	r.mu.Unlock()
}

func local(a net.Addr) net.Addr {
	return &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: a.(*net.UDPAddr).Port}
}

func hostport(a net.Addr) string { return local(a).String() }

func endpoint(t *testing.T, p ...interface{}) *Tru {
	t.Helper()
	x, err := New(0, append([]interface{}{zlog}, p...)...)
	if err != nil {
		t.Fatal(err)
	}
	return x
}

type msgs struct {
	mu sync.Mutex
	m  []string
}

func (m *msgs) add(s string) { m.mu.Lock(); m.m = append(m.m, s); m.mu.Unlock() }
func (m *msgs) get() []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]string{}, m.m...)
}
func (m *msgs) reader(ch *Channel, pac *Packet, err error) bool {
	if err == nil {
		m.add(string(pac.Data()))
	}
	return true
}

func until(d time.Duration, f func() bool) bool {
	for e := time.Now().Add(d); time.Now().Before(e); time.Sleep(5 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

func within(t *testing.T, d time.Duration, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatalf("%s: did not finish in %v", what, d)
	}
}

// rawDatagram makes a datagram by hand
func rawDatagram(st, id int, d []byte) []byte {
	b := make([]byte, 4, 4+len(d))
	binary.LittleEndian.PutUint32(b, uint32(id)|uint32(st)<<24)
	return append(b, d...)
}
'''
