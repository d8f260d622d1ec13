// Package concurrency: a model of etcd's sessions and mutexes.
package concurrency

import (
	"context"
	"sync"

	clientv3 "go.etcd.io/etcd/client/v3"
)

// Session .
type Session struct{ c *clientv3.Client }

// SessionOption .
type SessionOption func()

// WithTTL .
func WithTTL(ttl int) SessionOption { return func() {} }

// NewSession .
func NewSession(c *clientv3.Client, opts ...SessionOption) (*Session, error) {
	if err := c.Ask("NewSession"); err != nil {
		return nil, err
	}
	return &Session{c: c}, nil
}

// Close .
func (s *Session) Close() error { return nil }

// Client .
func (s *Session) Client() *clientv3.Client { return s.c }

var (
	mux   sync.Mutex
	locks map[string]chan struct{}
)

// Mutex .
type Mutex struct {
	s    *Session
	ch   chan struct{}
	held bool
}

// NewMutex .
func NewMutex(s *Session, pfx string) *Mutex {
	mux.Lock()
	defer mux.Unlock()
	if locks == nil {
		locks = map[string]chan struct{}{}
	}
	ch := locks[pfx]
	if ch == nil {
		ch = make(chan struct{}, 1)
		locks[pfx] = ch
	}
	return &Mutex{s: s, ch: ch}
}

// Lock .
func (m *Mutex) Lock(ctx context.Context) error {
	if err := m.s.c.Ask("Lock"); err != nil {
		return err
	}
	select {
	case m.ch <- struct{}{}:
		m.held = true
		return nil
	case <-ctx.Done():
		return ctx.Err()
	}
}

// Unlock .
func (m *Mutex) Unlock(ctx context.Context) error {
	if !m.held {
		return clientv3.ErrModel
	}
	m.held = false
	<-m.ch
	return nil
}
