// Package redis: a model of a Redis server as a set of hashes, and of the client's commands on them. Each
// command takes effect at once, or fails without effect.
package redis

import (
	"context"
	"errors"
	"strconv"
	"sync"
	"time"
)

// Nil is returned for a missing field.
var Nil = errors.New("redis: nil")

// Field of a hash.
type Field struct{ Key, Name, Value string }

// The server. Fail, if set, is asked before each command.
var (
	mux    sync.Mutex
	Fields []Field
	Fail   func(cmd string) error
	Closed int
)

// Options of a client.
type Options struct {
	Network      string
	Addr         string
	Username     string
	Password     string
	DB           int
	MaxRetries   int
	DialTimeout  time.Duration
	ReadTimeout  time.Duration
	WriteTimeout time.Duration
	PoolSize     int
}

// Client of the server.
type Client struct{ opt *Options }

// NewClient never fails; it connects when it is used.
func NewClient(opt *Options) *Client { return &Client{opt: opt} }

// Close .
func (c *Client) Close() error { Closed++; return nil }

// Lookup is for harnesses.
func Lookup(key, name string) (string, bool) {
	mux.Lock()
	defer mux.Unlock()
	return get(key, name)
}

// Put is for harnesses.
func Put(key, name, value string) {
	mux.Lock()
	defer mux.Unlock()
	set(key, name, value)
}

// Del is for harnesses.
func Del(key, name string) {
	mux.Lock()
	defer mux.Unlock()
	del(key, name)
}

func get(key, name string) (string, bool) {
	for _, f := range Fields {
		if f.Key == key && f.Name == name {
			return f.Value, true
		}
	}
	return "", false
}

func set(key, name, value string) bool {
	for i, f := range Fields {
		if f.Key == key && f.Name == name {
			Fields[i].Value = value
			return false
		}
	}
	Fields = append(Fields, Field{key, name, value})
	return true
}

func del(key, name string) bool {
	for i, f := range Fields {
		if f.Key == key && f.Name == name {
			Fields = append(append([]Field{}, Fields[:i]...), Fields[i+1:]...)
			return true
		}
	}
	return false
}

func str(v interface{}) string {
	switch x := v.(type) {
	case string:
		return x
	case []byte:
		return string(x)
	case int:
		return strconv.FormatInt(int64(x), 10)
	case int64:
		return strconv.FormatInt(x, 10)
	case uint64:
		return strconv.FormatInt(int64(x), 10)
	}
	panic("redis model: value of a type that is not modelled")
}

func fails(ctx context.Context, cmd string) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	if Fail != nil {
		return Fail(cmd)
	}
	return nil
}

// IntCmd .
type IntCmd struct {
	val int64
	err error
}

func (c *IntCmd) Err() error             { return c.err }
func (c *IntCmd) Val() int64             { return c.val }
func (c *IntCmd) Result() (int64, error) { return c.val, c.err }

// BoolCmd .
type BoolCmd struct {
	val bool
	err error
}

func (c *BoolCmd) Err() error            { return c.err }
func (c *BoolCmd) Val() bool             { return c.val }
func (c *BoolCmd) Result() (bool, error) { return c.val, c.err }

// StringCmd .
type StringCmd struct {
	val string
	err error
}

func (c *StringCmd) Err() error              { return c.err }
func (c *StringCmd) Val() string             { return c.val }
func (c *StringCmd) Result() (string, error) { return c.val, c.err }

// StringStringMapCmd .
type StringStringMapCmd struct {
	val map[string]string
	err error
}

func (c *StringStringMapCmd) Err() error                         { return c.err }
func (c *StringStringMapCmd) Val() map[string]string             { return c.val }
func (c *StringStringMapCmd) Result() (map[string]string, error) { return c.val, c.err }

// HGetAll .
func (c *Client) HGetAll(ctx context.Context, key string) *StringStringMapCmd {
	mux.Lock()
	defer mux.Unlock()
	if err := fails(ctx, "HGetAll"); err != nil {
		return &StringStringMapCmd{err: err}
	}
	m := map[string]string{}
	for _, f := range Fields {
		if f.Key == key {
			m[f.Name] = f.Value
		}
	}
	return &StringStringMapCmd{val: m}
}

// HGet .
func (c *Client) HGet(ctx context.Context, key, field string) *StringCmd {
	mux.Lock()
	defer mux.Unlock()
	if err := fails(ctx, "HGet"); err != nil {
		return &StringCmd{err: err}
	}
	v, ok := get(key, field)
	if !ok {
		return &StringCmd{err: Nil}
	}
	return &StringCmd{val: v}
}

// HExists .
func (c *Client) HExists(ctx context.Context, key, field string) *BoolCmd {
	mux.Lock()
	defer mux.Unlock()
	if err := fails(ctx, "HExists"); err != nil {
		return &BoolCmd{err: err}
	}
	_, ok := get(key, field)
	return &BoolCmd{val: ok}
}

// HSet .
func (c *Client) HSet(ctx context.Context, key string, values ...interface{}) *IntCmd {
	mux.Lock()
	defer mux.Unlock()
	if err := fails(ctx, "HSet"); err != nil {
		return &IntCmd{err: err}
	}
	n := int64(0)
	for i := 0; i+1 < len(values); i += 2 {
		if set(key, str(values[i]), str(values[i+1])) {
			n++
		}
	}
	return &IntCmd{val: n}
}

// HSetNX .
func (c *Client) HSetNX(ctx context.Context, key, field string, value interface{}) *BoolCmd {
	mux.Lock()
	defer mux.Unlock()
	if err := fails(ctx, "HSetNX"); err != nil {
		return &BoolCmd{err: err}
	}
	if _, ok := get(key, field); ok {
		return &BoolCmd{}
	}
	return &BoolCmd{val: set(key, field, str(value))}
}

// HDel .
func (c *Client) HDel(ctx context.Context, key string, fields ...string) *IntCmd {
	mux.Lock()
	defer mux.Unlock()
	if err := fails(ctx, "HDel"); err != nil {
		return &IntCmd{err: err}
	}
	n := int64(0)
	for _, f := range fields {
		if del(key, f) {
			n++
		}
	}
	return &IntCmd{val: n}
}
