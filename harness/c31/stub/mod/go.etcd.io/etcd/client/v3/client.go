// Package clientv3: a model of an etcd server (keys with leases, watchers that get every later change in
// order) and of the client's requests, each of which takes effect at once or fails without effect.
package clientv3

import (
	"context"
	"errors"
	"strings"
	"sync"
	"time"
)

// EventType .
type EventType int32

const (
	EventTypePut    EventType = 0
	EventTypeDelete EventType = 1
)

// LeaseID .
type LeaseID int64

// NoLease .
const NoLease LeaseID = 0

// ResponseHeader .
type ResponseHeader struct{ Revision int64 }

// KeyValue .
type KeyValue struct {
	Key, Value     []byte
	CreateRevision int64
	ModRevision    int64
	Version        int64
	Lease          int64
}

// Event .
type Event struct {
	Type   EventType
	Kv     *KeyValue
	PrevKv *KeyValue
}

// IsCreate .
func (e *Event) IsCreate() bool {
	return e.Type == EventTypePut && e.Kv.CreateRevision == e.Kv.ModRevision
}

// IsModify .
func (e *Event) IsModify() bool {
	return e.Type == EventTypePut && e.Kv.CreateRevision != e.Kv.ModRevision
}

// WatchResponse .
type WatchResponse struct {
	Header   ResponseHeader
	Events   []*Event
	Canceled bool
}

// Err .
func (w *WatchResponse) Err() error { return nil }

// WatchChan .
type WatchChan <-chan WatchResponse

// GetResponse .
type GetResponse struct {
	Header *ResponseHeader
	Kvs    []*KeyValue
	More   bool
	Count  int64
}

// PutResponse .
type PutResponse struct{ Header *ResponseHeader }

// DeleteResponse .
type DeleteResponse struct {
	Header  *ResponseHeader
	Deleted int64
}

// LeaseGrantResponse .
type LeaseGrantResponse struct {
	*ResponseHeader
	ID  LeaseID
	TTL int64
}

// LeaseRevokeResponse .
type LeaseRevokeResponse struct{ Header *ResponseHeader }

// LeaseKeepAliveResponse .
type LeaseKeepAliveResponse struct {
	*ResponseHeader
	ID  LeaseID
	TTL int64
}

// Config .
type Config struct {
	Endpoints            []string
	AutoSyncInterval     time.Duration
	DialTimeout          time.Duration
	DialKeepAliveTime    time.Duration
	DialKeepAliveTimeout time.Duration
	Username, Password   string
	Context              context.Context
}

type op struct {
	prefix bool
	rev    int64
	lease  LeaseID
}

// OpOption .
type OpOption func(*op)

func WithPrefix() OpOption          { return func(o *op) { o.prefix = true } }
func WithRev(rev int64) OpOption    { return func(o *op) { o.rev = rev } }
func WithLease(id LeaseID) OpOption { return func(o *op) { o.lease = id } }
func WithPrevKV() OpOption          { return func(o *op) {} }
func WithCreatedNotify() OpOption   { return func(o *op) {} }

// Lease as the server sees it.
type Lease struct {
	ID      LeaseID
	TTL     int64
	Kept    bool
	Revoked bool
	ch      chan *LeaseKeepAliveResponse
}

type watcher struct {
	key    string
	prefix bool
	ch     chan WatchResponse
	c      *Client
	batch  []*Event // of an open transaction
}

// The server. Fail, if set, is asked before each request.
var (
	mux      sync.Mutex
	rev      int64
	kvs      []*KeyValue
	leases   []*Lease
	watchers []*watcher
	history  []*Event
	intxn    bool
	Fail     func(req string) error
	Clients  []*Client
)

// Client of the server.
type Client struct {
	IsClosed bool
	Locks    int // mutexes held
}

// ErrModel .
var ErrModel = errors.New("etcdserver: closed")

// New .
func New(cfg Config) (*Client, error) {
	mux.Lock()
	defer mux.Unlock()
	if err := fails("New"); err != nil {
		return nil, err
	}
	c := &Client{}
	Clients = append(Clients, c)
	return c, nil
}

func fails(req string) error {
	if Fail != nil {
		return Fail(req)
	}
	return nil
}

func (c *Client) fails(ctx context.Context, req string) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	if c.IsClosed {
		return ErrModel
	}
	return fails(req)
}

// Ask is for package concurrency.
func (c *Client) Ask(req string) error {
	mux.Lock()
	defer mux.Unlock()
	return c.fails(context.Background(), req)
}

// Ctx .
func (c *Client) Ctx() context.Context { return context.Background() }

// Close ends the client's watches and stops keeping its leases alive.
func (c *Client) Close() error {
	mux.Lock()
	defer mux.Unlock()
	if c.IsClosed {
		return ErrModel
	}
	c.IsClosed = true
	for _, w := range watchers {
		if w.c == c {
			close(w.ch)
			w.c = nil
		}
	}
	return nil
}

func match(key, k string, prefix bool) bool {
	return key == k || prefix && strings.HasPrefix(k, key)
}

func emit(e *Event) {
	history = append(history, e)
	for _, w := range watchers {
		if w.c != nil && match(w.key, string(e.Kv.Key), w.prefix) {
			if intxn {
				w.batch = append(w.batch, e)
			} else {
				w.ch <- WatchResponse{Header: ResponseHeader{Revision: rev}, Events: []*Event{e}}
			}
		}
	}
}

func put(key, value string, lease LeaseID) {
	rev++
	kv := &KeyValue{Key: []byte(key), Value: []byte(value), CreateRevision: rev, ModRevision: rev, Lease: int64(lease)}
	found := false
	for i, x := range kvs {
		if string(x.Key) == key {
			kv.CreateRevision = x.CreateRevision
			kvs[i] = kv
			found = true
		}
	}
	if !found {
		kvs = append(kvs, kv)
	}
	emit(&Event{Type: EventTypePut, Kv: kv})
}

func del(key string) bool {
	for i, x := range kvs {
		if string(x.Key) == key {
			rev++
			kvs = append(append([]*KeyValue{}, kvs[:i]...), kvs[i+1:]...)
			emit(&Event{Type: EventTypeDelete, Kv: &KeyValue{Key: []byte(key), ModRevision: rev}})
			return true
		}
	}
	return false
}

// SetKey, DelKey, Lookup, LeaseOf are for harnesses.
func SetKey(key, value string) {
	mux.Lock()
	defer mux.Unlock()
	put(key, value, 0)
}

func DelKey(key string) {
	mux.Lock()
	defer mux.Unlock()
	del(key)
}

// Txn makes several changes that a watcher gets in one response. Change is called with functions that set and
// delete a key.
func Txn(change func(set func(key, value string), del func(key string))) {
	mux.Lock()
	defer mux.Unlock()
	intxn = true
	change(func(key, value string) { put(key, value, 0) }, func(key string) { del(key) })
	intxn = false
	for _, w := range watchers {
		if w.c != nil && len(w.batch) > 0 {
			w.ch <- WatchResponse{Header: ResponseHeader{Revision: rev}, Events: w.batch}
		}
		w.batch = nil
	}
}

func Lookup(key string) (string, bool) {
	mux.Lock()
	defer mux.Unlock()
	for _, x := range kvs {
		if string(x.Key) == key {
			return string(x.Value), true
		}
	}
	return "", false
}

func LeaseOf(key string) *Lease {
	mux.Lock()
	defer mux.Unlock()
	for _, x := range kvs {
		if string(x.Key) == key {
			for _, l := range leases {
				if l.ID == LeaseID(x.Lease) {
					return l
				}
			}
		}
	}
	return nil
}

// Get .
func (c *Client) Get(ctx context.Context, key string, opts ...OpOption) (*GetResponse, error) {
	mux.Lock()
	defer mux.Unlock()
	if err := c.fails(ctx, "Get"); err != nil {
		return nil, err
	}
	var o op
	for _, f := range opts {
		f(&o)
	}
	r := &GetResponse{Header: &ResponseHeader{Revision: rev}}
	for _, x := range kvs {
		if match(key, string(x.Key), o.prefix) {
			r.Kvs = append(r.Kvs, x)
			r.Count++
		}
	}
	return r, nil
}

// Put .
func (c *Client) Put(ctx context.Context, key, val string, opts ...OpOption) (*PutResponse, error) {
	mux.Lock()
	defer mux.Unlock()
	if err := c.fails(ctx, "Put"); err != nil {
		return nil, err
	}
	var o op
	for _, f := range opts {
		f(&o)
	}
	put(key, val, o.lease)
	return &PutResponse{Header: &ResponseHeader{Revision: rev}}, nil
}

// Delete .
func (c *Client) Delete(ctx context.Context, key string, opts ...OpOption) (*DeleteResponse, error) {
	mux.Lock()
	defer mux.Unlock()
	if err := c.fails(ctx, "Delete"); err != nil {
		return nil, err
	}
	r := &DeleteResponse{Header: &ResponseHeader{Revision: rev}}
	if del(key) {
		r.Deleted++
	}
	return r, nil
}

// Watch yields every change from the given revision on, or from now on.
func (c *Client) Watch(ctx context.Context, key string, opts ...OpOption) WatchChan {
	mux.Lock()
	defer mux.Unlock()
	var o op
	for _, f := range opts {
		f(&o)
	}
	w := &watcher{key: key, prefix: o.prefix, ch: make(chan WatchResponse, 32), c: c}
	if c.fails(ctx, "Watch") != nil {
		close(w.ch)
		return w.ch
	}
	if o.rev > 0 {
		for _, e := range history {
			if e.Kv.ModRevision >= o.rev && match(key, string(e.Kv.Key), o.prefix) {
				w.ch <- WatchResponse{Header: ResponseHeader{Revision: rev}, Events: []*Event{e}}
			}
		}
	}
	watchers = append(watchers, w)
	return w.ch
}

// Grant .
func (c *Client) Grant(ctx context.Context, ttl int64) (*LeaseGrantResponse, error) {
	mux.Lock()
	defer mux.Unlock()
	if err := c.fails(ctx, "Grant"); err != nil {
		return nil, err
	}
	l := &Lease{ID: LeaseID(len(leases) + 1), TTL: ttl}
	leases = append(leases, l)
	return &LeaseGrantResponse{ID: l.ID, TTL: ttl}, nil
}

func lease(id LeaseID) *Lease {
	for _, l := range leases {
		if l.ID == id && !l.Revoked {
			return l
		}
	}
	return nil
}

// Revoke .
func (c *Client) Revoke(ctx context.Context, id LeaseID) (*LeaseRevokeResponse, error) {
	mux.Lock()
	defer mux.Unlock()
	if err := c.fails(ctx, "Revoke"); err != nil {
		return nil, err
	}
	l := lease(id)
	if l == nil {
		return nil, errors.New("etcdserver: requested lease not found")
	}
	l.Revoked = true
	if l.ch != nil {
		close(l.ch)
	}
	for again := true; again; {
		again = false
		for _, x := range kvs {
			if LeaseID(x.Lease) == id {
				del(string(x.Key))
				again = true
				break
			}
		}
	}
	return &LeaseRevokeResponse{}, nil
}

// KeepAlive .
func (c *Client) KeepAlive(ctx context.Context, id LeaseID) (<-chan *LeaseKeepAliveResponse, error) {
	mux.Lock()
	defer mux.Unlock()
	if err := c.fails(ctx, "KeepAlive"); err != nil {
		return nil, err
	}
	l := lease(id)
	if l == nil {
		return nil, errors.New("etcdserver: requested lease not found")
	}
	l.Kept = true
	if l.ch == nil {
		l.ch = make(chan *LeaseKeepAliveResponse, 4)
	}
	l.ch <- &LeaseKeepAliveResponse{ID: id, TTL: l.TTL}
	return l.ch, nil
}
