package zzghost

import (
	"reflect"
	"unsafe"
)

// Near returns a copy of x with one small change somewhere inside (or, rarely,
// none): a flag flipped, text cut, an element lost, doubled, swapped or moved to
// a neighbouring list, fields of one type exchanged, a nested list dissolved.
// Fields named in skip are left alone.
func Near[T any](r *Rand, x T, skip ...string) T {
	c := reflect.New(reflect.TypeFor[T]()).Elem()
	var sites []func()
	c.Set(clone(reflect.ValueOf(&x).Elem(), skip))
	collect(r, c, &sites, func() {}, skip)
	if len(sites) > 0 && r.Intn(10) > 0 {
		sites[r.Intn(len(sites))]()
	}
	return c.Interface().(T)
}

// open makes a field accessible whether or not it is exported.
func open(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

// clone makes a deep copy; v is addressable or free of unexported fields.
func clone(v reflect.Value, skip []string) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(clone(v.Elem(), skip))
			n.Set(p)
		}
	case reflect.Interface:
		if !v.IsNil() {
			e := reflect.New(v.Elem().Type()).Elem()
			e.Set(v.Elem())
			n.Set(clone(e, skip))
		}
	case reflect.Slice:
		if !v.IsNil() {
			s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			for i := range v.Len() {
				s.Index(i).Set(clone(v.Index(i), skip))
			}
			n.Set(s)
		}
	case reflect.Map:
		if !v.IsNil() {
			m := reflect.MakeMap(v.Type())
			for _, k := range v.MapKeys() {
				m.SetMapIndex(k, v.MapIndex(k))
			}
			n.Set(m)
		}
	case reflect.Struct:
		for i := range n.NumField() {
			if !In(v.Type().Field(i).Name, skip) {
				f := open(n.Field(i))
				f.Set(clone(f, skip))
			}
		}
	}
	return n
}

func collect(r *Rand, v reflect.Value, sites *[]func(), commit func(), skip []string) {
	add := func(f func()) { *sites = append(*sites, func() { f(); commit() }) }
	switch v.Kind() {
	case reflect.Bool:
		add(func() { v.SetBool(!v.Bool()) })
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		add(func() { v.SetInt(v.Int() + 1) })
	case reflect.String:
		add(func() { v.SetString(v.String() + "a") })
		if v.Len() > 0 {
			add(func() { v.SetString(v.String()[:v.Len()-1]) })
			add(func() { v.SetString("") })
		}
	case reflect.Pointer:
		if !v.IsNil() {
			collect(r, v.Elem(), sites, commit, skip)
		}
	case reflect.Interface:
		if !v.IsNil() {
			e := reflect.New(v.Elem().Type()).Elem()
			e.Set(v.Elem())
			collect(r, e, sites, func() { v.Set(e); commit() }, skip)
		}
	case reflect.Slice:
		n := v.Len()
		for i := range n {
			i := i
			add(func() { v.Set(join(v.Type(), v.Slice(0, i), v.Slice(i+1, n))) })
			add(func() { v.Set(join(v.Type(), v.Slice(0, i+1), v.Slice(i, n))) })
			if i > 0 {
				add(func() {
					a, b := reflect.ValueOf(v.Index(i).Interface()), reflect.ValueOf(v.Index(i-1).Interface())
					v.Index(i).Set(b)
					v.Index(i - 1).Set(a)
				})
			}
			e := v.Index(i)
			if e.Kind() == reflect.Interface && !e.IsNil() && e.Elem().Kind() == reflect.Slice && e.Elem().Type().Elem() == v.Type().Elem() {
				add(func() {
					add := reflect.MakeSlice(v.Type(), 0, 4)
					for k := range e.Elem().Len() {
						add = reflect.Append(add, e.Elem().Index(k))
					}
					v.Set(join(v.Type(), v.Slice(0, i), add, v.Slice(i+1, n)))
				})
			}
			collect(r, e, sites, commit, skip)
		}
	case reflect.Map:
		keys := v.MapKeys()
		for i, k := range keys {
			k := k
			add(func() { v.SetMapIndex(k, reflect.Value{}) })
			if i > 0 {
				p := keys[i-1]
				add(func() {
					a, b := v.MapIndex(k), v.MapIndex(p)
					v.SetMapIndex(k, b)
					v.SetMapIndex(p, a)
				})
			}
			if k.Kind() == reflect.String && v.Type().Elem().Kind() == reflect.String {
				// exchange key and value; move a letter between them
				add(func() {
					a := v.MapIndex(k)
					v.SetMapIndex(k, reflect.Value{})
					v.SetMapIndex(a.Convert(v.Type().Key()), k.Convert(v.Type().Elem()))
				})
			}
		}
	case reflect.Struct:
		for i := range v.NumField() {
			if In(v.Type().Field(i).Name, skip) {
				continue
			}
			f := open(v.Field(i))
			for j := range i {
				if In(v.Type().Field(j).Name, skip) {
					continue
				}
				e := open(v.Field(j))
				if e.Type() != f.Type() {
					continue
				}
				add(func() {
					a, b := reflect.ValueOf(e.Interface()), reflect.ValueOf(f.Interface())
					if a.IsValid() && b.IsValid() {
						e.Set(b)
						f.Set(a)
					}
				})
				switch f.Kind() {
				case reflect.Slice:
					if n := e.Len(); n > 0 {
						add(func() {
							x := e.Slice(n-1, n)
							f.Set(join(f.Type(), x, f))
							e.Set(e.Slice(0, n-1))
						})
					}
					if n := f.Len(); n > 0 {
						add(func() {
							e.Set(join(f.Type(), e, f.Slice(0, 1)))
							f.Set(f.Slice(1, n))
						})
					}
				case reflect.String:
					if n := e.Len(); n > 0 {
						add(func() { f.SetString(e.String()[n-1:] + f.String()); e.SetString(e.String()[:n-1]) })
					}
					if f.Len() > 0 {
						add(func() { e.SetString(e.String() + f.String()[:1]); f.SetString(f.String()[1:]) })
					}
				}
			}
			collect(r, f, sites, commit, skip)
		}
	}
}

func join(t reflect.Type, parts ...reflect.Value) reflect.Value {
	out := reflect.MakeSlice(t, 0, 8)
	for _, p := range parts {
		for i := range p.Len() {
			out = reflect.Append(out, p.Index(i))
		}
	}
	return out
}
