package zverif

import (
	"context"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"
	"weak"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
)

// ---- what an object holds: entries of all maps reachable from it ----

//go:norace
func mapUsed(p unsafe.Pointer) int {
	if p == nil {
		return 0
	}
	return int(*(*uint64)(p)) // internal/runtime/maps.Map.used
}

func init() {
	m := map[string]int{"a": 1, "b": 2, "c": 3}
	v := reflect.ValueOf(m)
	if n := mapUsed(v.UnsafePointer()); n != 3 {
		panic(fmt.Sprintf("map layout: %d", n))
	}
}

var syncMapType = reflect.TypeOf(sync.Map{})

// stateSize lists the number of entries of every map in the structs reachable from v
// through pointers to types of the code under test. Nothing may be running on v.
//
//go:norace
func stateSize(v any) map[string]int { return sizes(v, false) }

// busState is stateSize of a message bus.
func busState(b psrpc.MessageBus) map[string]int { return sizes(b, true) }

//go:norace
func sizes(v any, buses bool) map[string]int {
	out := map[string]int{}
	seen := map[unsafe.Pointer]bool{}
	var walk func(v reflect.Value, path string, depth int)
	walk = func(v reflect.Value, path string, depth int) {
		if depth > 6 {
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() || seen[v.UnsafePointer()] || v.Elem().Kind() != reflect.Struct || !strings.Contains(v.Elem().Type().PkgPath(), "livekit/psrpc") {
				return
			}
			seen[v.UnsafePointer()] = true
			walk(v.Elem(), path, depth+1)
		case reflect.Struct:
			if v.Type() == syncMapType || strings.HasSuffix(v.Type().String(), "zsync.Map") {
				n := 0
				if v.Type() == syncMapType {
					(*sync.Map)(unsafe.Pointer(v.UnsafeAddr())).Range(func(any, any) bool { n++; return true })
				}
				out[path] += n
				return
			}
			if !strings.Contains(v.Type().PkgPath(), "livekit/psrpc") || strings.Contains(v.Type().PkgPath(), "zverif") || !buses && strings.Contains(v.Type().Name(), "Bus") {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				if n := v.Type().Field(i).Name; n == "bus" {
					continue
				}
				walk(v.Field(i), path+"."+v.Type().Field(i).Name, depth+1)
			}
			// what maps hold, read under the lock of the struct
			var elems []reflect.Value
			var paths []string
			unlock := lockOf(v)
			if unlock == nil {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if f.Kind() != reflect.Map || f.Type().Elem().Kind() != reflect.Pointer && f.Type().Elem().Kind() != reflect.Interface {
					continue
				}
				for it := f.MapRange(); it.Next(); {
					e := it.Value()
					if e.Kind() == reflect.Interface {
						e = e.Elem()
					}
					elems = append(elems, e)
					paths = append(paths, path+"."+v.Type().Field(i).Name+"[]")
				}
			}
			unlock()
			for i, e := range elems {
				walk(e, paths[i], depth+1)
			}
		case reflect.Map:
			out[path] += mapUsed(v.UnsafePointer())
		}
	}
	walk(reflect.ValueOf(v), "", 0)
	return out
}

// lockOf locks the struct's own mutex.
func lockOf(v reflect.Value) func() {
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Struct && f.CanAddr() {
			if l, ok := reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Interface().(sync.Locker); ok {
				l.Lock()
				return l.Unlock
			}
		}
	}
	return nil
}

// stateGrowth describes what after holds more than before.
func stateGrowth(before, after map[string]int) string {
	var out []string
	for k, n := range after {
		if n > before[k] {
			out = append(out, fmt.Sprintf("%s: %d entries instead of %d", k, n, before[k]))
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// ---- canaries: is a finished call's context still referred to? ----

type canaryKey struct{}

type canaryVal struct {
	pad  [64]byte
	name string
}

type canaries struct {
	mu sync.Mutex
	w  []weak.Pointer[canaryVal]
	nm []string
}

// ctx derives a context whose value is watched.
func (k *canaries) ctx(parent context.Context, name string) context.Context {
	v := &canaryVal{name: name}
	k.mu.Lock()
	k.w = append(k.w, weak.Make(v))
	k.nm = append(k.nm, name)
	k.mu.Unlock()
	return context.WithValue(parent, canaryKey{}, v)
}

func (k *canaries) alive() (out []string) {
	for i := 0; i < 4; i++ {
		runtime.GC()
		out = nil
		k.mu.Lock()
		for i, w := range k.w {
			if w.Value() != nil {
				out = append(out, k.nm[i])
			}
		}
		k.mu.Unlock()
		if len(out) == 0 {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	return
}

// ---- a bus that knows its open subscriptions ----

type countBus struct {
	psrpc.MessageBus
	mu     sync.Mutex
	open   map[string]int
	opened int
	twice  []string
}

func newCountBus(b psrpc.MessageBus) *countBus {
	return &countBus{MessageBus: b, open: map[string]int{}}
}

type countReader struct {
	bus.Reader
	b      *countBus
	ch     string
	closed bool
}

func (r *countReader) Close() error {
	r.b.mu.Lock()
	if r.closed {
		r.b.twice = append(r.b.twice, r.ch)
		r.b.mu.Unlock()
		return nil
	}
	r.closed = true
	if r.b.open[r.ch]--; r.b.open[r.ch] == 0 {
		delete(r.b.open, r.ch)
	}
	r.b.mu.Unlock()
	return r.Reader.Close()
}

func (b *countBus) wrap(r bus.Reader, err error, ch psrpc.Channel) (bus.Reader, error) {
	if err != nil {
		return r, err
	}
	b.mu.Lock()
	b.open[ch.Legacy]++
	b.opened++
	b.mu.Unlock()
	return &countReader{Reader: r, b: b, ch: ch.Legacy}, nil
}

func (b *countBus) Subscribe(ctx context.Context, ch psrpc.Channel, size int) (bus.Reader, error) {
	r, err := b.MessageBus.Subscribe(ctx, ch, size)
	return b.wrap(r, err, ch)
}

func (b *countBus) SubscribeQueue(ctx context.Context, ch psrpc.Channel, size int) (bus.Reader, error) {
	r, err := b.MessageBus.SubscribeQueue(ctx, ch, size)
	return b.wrap(r, err, ch)
}

func (b *countBus) list() (out []string) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for k, n := range b.open {
		out = append(out, fmt.Sprintf("%s x%d", k, n))
	}
	sort.Strings(out)
	return
}
