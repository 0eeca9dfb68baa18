package proto

import (
	"math/big"
	"reflect"
	"unsafe"

	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verif/ref"
)

type found struct {
	path string
	k    *big.Int
}

var scalarType = reflect.TypeOf(ristretto.Scalar{})

// walk lists every scalar, and every 32-byte string (or 64-byte one, as a number modulo the
// group order), reachable from root.
func walk(root interface{}) []found {
	w := &walker{seen: map[visit]bool{}}
	w.value(reflect.ValueOf(root), "state", 0)
	return w.out
}

type visit struct {
	p unsafe.Pointer
	t reflect.Type
}

type walker struct {
	seen map[visit]bool
	out  []found
}

func (w *walker) bytes(b []byte, path string) {
	if len(b) == 32 {
		if k, ok := ref.ParseScalar(b); ok {
			w.out = append(w.out, found{path, k})
		}
	}
	if len(b) == 64 {
		be := make([]byte, 64)
		for i := range b {
			be[63-i] = b[i]
		}
		w.out = append(w.out, found{path, new(big.Int).Mod(new(big.Int).SetBytes(be), ref.Q)})
	}
}

func (w *walker) value(v reflect.Value, path string, depth int) {
	if depth > 24 || !v.IsValid() || len(w.out) > 4000 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		key := visit{v.UnsafePointer(), v.Type()}
		if w.seen[key] {
			return
		}
		w.seen[key] = true
		w.value(v.Elem(), path, depth+1)
	case reflect.Interface:
		if !v.IsNil() {
			w.value(v.Elem(), path, depth+1)
		}
	case reflect.Struct:
		if v.Type() == scalarType {
			var s ristretto.Scalar
			reflect.NewAt(scalarType, unsafe.Pointer(&s)).Elem().Set(readable(v))
			w.out = append(w.out, found{path, ref.Int(s.Bytes())})
			return
		}
		if v.Type().PkgPath() == "time" || v.Type().PkgPath() == "sync" || v.Type().PkgPath() == "runtime" {
			return
		}
		if !v.CanAddr() {
			v = readable(v)
		}
		for i := 0; i < v.NumField(); i++ {
			w.value(v.Field(i), path+"."+v.Type().Field(i).Name, depth+1)
		}
	case reflect.String:
		w.bytes([]byte(v.String()), path)
	case reflect.Map:
		it := v.MapRange()
		for it.Next() {
			w.value(it.Value(), path+"[]", depth+1)
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			get := func(v reflect.Value) {
				b := make([]byte, v.Len())
				for i := range b {
					b[i] = byte(v.Index(i).Uint())
				}
				w.bytes(b, path)
			}
			if v.Len() <= 64 {
				get(v)
			}
			if v.Kind() == reflect.Slice && v.CanAddr() && v.Cap() > v.Len() && v.Cap() <= 64 {
				get(readable(v).Slice(0, v.Cap())) // bytes beyond the length are still held
			}
			return
		}
		n := v.Len()
		if v.Kind() == reflect.Slice && v.CanAddr() && v.Cap() > n {
			// elements beyond the length are still held
			v = readable(v).Slice(0, v.Cap())
			n = v.Len()
		}
		for i := 0; i < n && i < 512; i++ {
			w.value(v.Index(i), path+"[]", depth+1)
		}
	}
}

// readable returns a copy of v, or an alias, that reflection may use although the field is
// not exported.
func readable(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	c := reflect.New(v.Type()).Elem()
	if v.CanInterface() {
		c.Set(v)
	}
	return c
}
