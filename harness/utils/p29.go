package utils_test

import (
	"context"
	"fmt"
	"reflect"
	"testing"

	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/zzverif/vh"
)

type p29A struct{ N int }
type p29B struct{ N int }
type p29S string

// a type named like one of another function
func p29local1() reflect.Type { type Same struct{ N int }; return reflect.TypeOf(Same{}) }
func p29local2() reflect.Type { type Same struct{ N int }; return reflect.TypeOf(Same{}) }

var p29types = []reflect.Type{
	reflect.TypeOf(p29A{}), reflect.TypeOf(p29B{}), reflect.TypeOf(p29S("")), p29local1(), p29local2(),
	reflect.TypeOf([]int{}), reflect.TypeOf([]p29A{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(struct{ N int }{}),
	reflect.TypeOf((*fmt.Stringer)(nil)).Elem(), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf(context.Canceled), reflect.TypeOf(fmt.Errorf("x")).Elem(),
}

func p29new(t reflect.Type, n int) reflect.Value {
	v := reflect.New(t)
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if f := v.Elem().Field(i); f.CanSet() && f.Kind() == reflect.Int {
				f.SetInt(int64(n))
			}
		}
	case reflect.String:
		v.Elem().SetString(fmt.Sprint(n))
	case reflect.Slice:
		v.Elem().Set(reflect.MakeSlice(t, n, n))
	case reflect.Map:
		v.Elem().Set(reflect.MakeMap(t))
		for i := 0; i < n; i++ {
			v.Elem().SetMapIndex(reflect.ValueOf(fmt.Sprint(i)), reflect.ValueOf(i))
		}
	}
	return v
}

type p29key struct {
	t reflect.Type
	x string
}

func TestVerif_P29(t *testing.T) {
	vh.Run(t, "P29", 1, 0, func(c *vh.Case) {
		var types []reflect.Type
		for _, ty := range p29types {
			if ty.Kind() != reflect.Ptr {
				types = append(types, ty)
			}
		}
		ctx := context.WithValue(context.Background(), "other", 1)
		stored := map[p29key]reflect.Value{} // a *T, or a **T
		for n := 1 + c.Intn(6); n > 0; n-- {
			ty := types[c.Intn(len(types))]
			x := c.Pick("", "", "a", "b", ":a", "p29A:")
			v := p29new(ty, 1+c.Intn(5))
			kind := c.Pick("ptr", "ptr", "ptrptr", "nil", "ptrnil")
			switch kind {
			case "nil":
				v = reflect.Zero(reflect.PtrTo(ty))
			case "ptrptr":
				p := reflect.New(v.Type())
				p.Elem().Set(v)
				v = p
			case "ptrnil":
				v = reflect.New(reflect.PtrTo(ty))
			}
			c.Log("store %s %v named %q", kind, ty, x)
			if x == "" && c.Bool() {
				ctx = utils.CtxWithValue(ctx, v.Interface())
			} else {
				ctx = utils.CtxWithValue(ctx, v.Interface(), x, "ignored")
			}
			stored[p29key{ty, x}] = v
		}
		c.Check(ctx.Value("other") == 1, "a foreign value was lost")
		for _, ty := range types {
			for _, x := range []string{"", "a", "b", ":a", "p29A:"} {
				v, has := stored[p29key{ty, x}]
				isPP := has && v.Type().Elem().Kind() == reflect.Ptr
				for _, pp := range []bool{false, true} {
					target := p29new(ty, 9)
					before := target.Elem().Interface()
					if pp {
						p := reflect.New(target.Type())
						p.Elem().Set(target)
						target, before = p, target.Interface()
					}
					var err error
					pv, _, bad := vh.Panics(func() { err = utils.CtxFindValue(ctx, target.Interface(), x) })
					c.Check(!bad, "reading a %v named %q (through %v) panicked: %v", ty, x, target.Type(), pv)
					_, _, must := vh.Panics(func() {
						if x == "" {
							utils.MustCtxFindValue(ctx, target.Interface())
						} else {
							utils.MustCtxFindValue(ctx, target.Interface(), x)
						}
					})
					c.Check(must == !has, "MustCtxFindValue of a %v named %q: panic %v, stored %v", ty, x, must, has)
					if !has {
						c.Check(err == utils.CtxValueNotFound, "a %v named %q that was never stored: %v", ty, x, err)
					} else {
						c.Check(err == nil, "reading a %v named %q: %v", ty, x, err)
					}
					now := target.Elem()
					if !has || v.IsNil() || isPP && !pp && v.Elem().IsNil() {
						c.Check(reflect.DeepEqual(now.Interface(), before), "the target was changed to %v without a value", now)
						continue
					}
					p := v
					if isPP {
						p = v.Elem()
					}
					if pp {
						c.Check(now.Pointer() == p.Pointer(), "a pointer target of %v named %q does not share the stored value", ty, x)
						continue
					}
					c.Check(reflect.DeepEqual(now.Interface(), p.Elem().Interface()), "found %v for %v named %q, want %v", now, ty, x, p.Elem())
				}
			}
		}
		for _, bad := range []interface{}{nil, p29A{}, 1, new(int), new(string), new(**p29A), (*p29A)(nil), (**p29A)(nil)} {
			_, _, p := vh.Panics(func() { utils.CtxFindValue(ctx, bad) })
			c.Check(p, "a %T target was accepted", bad)
		}
	})
}
