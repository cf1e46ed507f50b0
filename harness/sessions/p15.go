package sessions

import (
	"testing"

	"github.com/wujiu2020/strip/zzverif/vh"
)

func p15run(c *vh.Case, sess SessionStore, cache *fakeCache, sid string, model map[string]interface{}, dirty bool) {
	base, hasBase := map[string]interface{}{}, false
	if cache != nil {
		base, hasBase = stored(cache, sid)
	}
	closed := false
	keys := []string{"a", "b", "c.d", ""}
	if cache != nil {
		keys = []string{"a", "b", "c"}
	}
	for n := 2 + c.Intn(12); n > 0; n-- {
		k := c.Pick(keys...)
		switch c.Intn(10) {
		case 0, 1, 2:
			v := c.Str("xyz", 3)
			c.Log("Set(%q, %q)", k, v)
			sess.Set(k, v)
			model[k], dirty = v, true
		case 3:
			c.Log("Delete(%q)", k)
			sess.Delete(k)
			delete(model, k)
			dirty = true
		case 4:
			c.Log("Clean()")
			sess.Clean()
			model, dirty = map[string]interface{}{}, true
		case 5:
			vals := sess.Values()
			c.Check(sameVals(vals, model), "Values() gave %v, want %v", vals, model)
			vals["new"] = "n"
			delete(vals, k)
		case 6, 7, 8:
			if cache == nil {
				c.Check(sess.Flush() == nil, "Flush failed")
				continue
			}
			failed := false
			prev := cache.fail
			cache.fail = func(op string) bool { r := prev(op); failed = failed || r; return r }
			before := cache.sets
			err := sess.Flush()
			cache.fail = prev
			c.Log("Flush() = %v", err)
			c.Check((err != nil) == failed, "Flush() = %v while the backend failed: %v", err, failed)
			want := 0
			if dirty && !closed && !failed {
				want = 1
			}
			c.Check(cache.sets-before == want, "%d saves, want %d", cache.sets-before, want)
			if want == 1 {
				dirty = false
				base, hasBase = map[string]interface{}{}, true
				for k, v := range model {
					base[k] = v
				}
				c.Check(cache.life[sid] == 77, "saved with the lifetime %d", cache.life[sid])
			}
		case 9:
			if c.Intn(3) > 0 {
				continue
			}
			failed := false
			if cache != nil {
				prev := cache.fail
				cache.fail = func(op string) bool { r := prev(op); failed = failed || r; return r }
				defer func() { cache.fail = prev }()
			}
			err := sess.Destroy()
			c.Log("Destroy() = %v", err)
			closed, model = true, map[string]interface{}{}
			if cache != nil {
				if !failed {
					hasBase = false
				} else {
					c.Check(err != nil, "a failed removal was not reported")
				}
			}
		}
		c.Check(sess.Sid() == sid, "the id is %q", sess.Sid())
		for _, k := range append(keys, "zz") {
			v, ok := model[k]
			c.Check(sess.Has(k) == ok, "Has(%q) = %v", k, sess.Has(k))
			got := sess.Get(k)
			if ok {
				c.Check(got != nil && got.String() == v.(string), "Get(%q) = %v, want %v", k, got, v)
			} else {
				c.Check(got != nil && got.IsNil(), "Get(%q) of an absent key", k)
			}
		}
		if cache != nil {
			m, ok := stored(cache, sid)
			c.Check(ok == hasBase && (!ok || sameVals(m, base)), "the cache holds %v (%v), want %v (%v)", m, ok, base, hasBase)
		}
	}
}

func TestVerif_P15(t *testing.T) {
	vh.Run(t, "P15", 2, 0, func(c *vh.Case) {
		cache := newFakeCache()
		conv := &flakyConv{fail: func() bool { return cache.fail("encode") }}
		p := newSessProvide(Config{SecretKey: "k", SessionExpire: 77}, cache, conv)
		model, dirty := map[string]interface{}{}, false
		var sess SessionStore
		var err error
		switch c.Intn(3) {
		case 0:
			c.Log("Create(s)")
			sess, err = p.Create("s")
		case 1:
			c.Log("Create(s, {a:1})")
			sess, err = p.Create("s", map[string]interface{}{"a": "1"})
			model["a"], dirty = "1", true
		case 2:
			b, _ := (&bsonConverter{}).Marshal(map[string]interface{}{"a": "7", "b": "8"})
			cache.m["s"] = string(b)
			c.Log("Read(s) of {a:7 b:8}")
			sess, err = p.Read("s")
			model = map[string]interface{}{"a": "7", "b": "8"}
		}
		if err != nil || sess == nil {
			c.Fail("no session: %v", err)
			return
		}
		cache.flaky(c)
		p15run(c, sess, cache, "s", model, dirty)
	})
}

func TestVerif_P15_dummy(t *testing.T) {
	vh.Run(t, "P15", 1, 0, func(c *vh.Case) {
		model := map[string]interface{}{}
		var sess SessionStore
		if c.Bool() {
			sess = NewDummySessionStore("d", nil)
		} else {
			sess = NewDummySessionStore("d", map[string]interface{}{"a": "1"})
			model["a"] = "1"
		}
		p15run(c, sess, nil, "d", model, false)
	})
}
