package sessions

import (
	"errors"

	"github.com/wujiu2020/strip/caches"
	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/zzverif/vh"
)

var errDown = errors.New("backend down")

// a cache in memory that can be told to fail
type fakeCache struct {
	m     map[string]string
	life  map[string]int
	sets  int
	fail  func(op string) bool
}

func newFakeCache() *fakeCache {
	return &fakeCache{m: map[string]string{}, life: map[string]int{}, fail: func(string) bool { return false }}
}

func (f *fakeCache) Get(key string) (utils.StrTo, error) {
	if f.fail("get") {
		return "", errDown
	}
	v, ok := f.m[key]
	if !ok {
		return "", caches.ErrMissedKey
	}
	return utils.StrTo(v), nil
}

func (f *fakeCache) Set(key string, value interface{}, params ...int) error {
	if f.fail("set") {
		return errDown
	}
	f.sets++
	switch v := value.(type) {
	case []byte:
		f.m[key] = string(v)
	case utils.StrTo:
		f.m[key] = string(v)
	case string:
		f.m[key] = v
	default:
		f.m[key] = utils.ToStr(value)
	}
	if len(params) > 0 {
		f.life[key] = params[0]
	}
	return nil
}

func (f *fakeCache) Touch(key string, params ...int) error {
	if f.fail("touch") {
		return errDown
	}
	if _, ok := f.m[key]; !ok {
		return caches.ErrMissedKey
	}
	if len(params) > 0 {
		f.life[key] = params[0]
	}
	return nil
}

func (f *fakeCache) Delete(key string) error {
	if f.fail("delete") {
		return errDown
	}
	if _, ok := f.m[key]; !ok {
		return caches.ErrMissedKey
	}
	delete(f.m, key)
	return nil
}

func (f *fakeCache) Incr(key string, params ...int) error { return nil }
func (f *fakeCache) Decr(key string, params ...int) error { return nil }
func (f *fakeCache) Has(key string) (bool, error)         { _, ok := f.m[key]; return ok, nil }
func (f *fakeCache) Clean() error                         { f.m = map[string]string{}; return nil }
func (f *fakeCache) GC() error                            { return nil }

func (f *fakeCache) flaky(c *vh.Case) {
	if c.Intn(3) != 0 {
		return
	}
	f.fail = func(op string) bool {
		r := c.Intn(4) == 0
		if r {
			c.Log("the backend fails %s", op)
		}
		return r
	}
}

func stored(f *fakeCache, sid string) (map[string]interface{}, bool) {
	v, ok := f.m[sid]
	if !ok {
		return nil, false
	}
	var m map[string]interface{}
	if err := (&bsonConverter{}).Unmarshal([]byte(v), &m); err != nil {
		return nil, false
	}
	return m, true
}

func sameVals(a, b map[string]interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// a converter that can be told to fail
type flakyConv struct {
	bsonConverter
	fail func() bool
}

func (f *flakyConv) Marshal(in interface{}) ([]byte, error) {
	if f.fail() {
		return nil, errDown
	}
	return f.bsonConverter.Marshal(in)
}
