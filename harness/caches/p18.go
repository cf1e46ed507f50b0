package caches

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bradfitz/gomemcache/memcache"
	"github.com/globalsign/mgo"
	"github.com/globalsign/mgo/bson"
	"github.com/mediocregopher/radix.v2/pool"
	"github.com/wujiu2020/strip/zzverif/vh"
)

// what a fake server holds: text and lifetime in seconds (0: unlimited) by key
type entry struct {
	val  string
	life int
	doc  bson.M
}

type fakeServer struct {
	sync.Mutex
	ln   net.Listener
	m    map[string]*entry
	down bool
}

func (f *fakeServer) serve(t *testing.T, conn func(net.Conn)) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	f.ln, f.m = ln, map[string]*entry{}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go func() { defer c.Close(); conn(c) }()
		}
	}()
}

func atoi(s string) int {
	f, _ := strconv.ParseFloat(s, 64)
	return int(f)
}

// ---- redis ----
func (f *fakeServer) redis(c net.Conn) {
	r := bufio.NewReader(c)
	line := func() string { s, _ := r.ReadString('\n'); return strings.TrimRight(s, "\r\n") }
	for {
		l := line()
		if l == "" || l[0] != '*' {
			return
		}
		args := make([]string, atoi(l[1:]))
		for i := range args {
			n := atoi(line()[1:])
			b := make([]byte, n+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			args[i] = string(b[:n])
		}
		f.Lock()
		out := f.redisCmd(args)
		f.Unlock()
		if _, err := io.WriteString(c, out); err != nil {
			return
		}
	}
}

func (f *fakeServer) redisCmd(a []string) string {
	if f.down {
		return "-ERR down\r\n"
	}
	num := func(n int) string { return fmt.Sprintf(":%d\r\n", n) }
	life := func(s string, unit int) (int, bool) {
		n, err := strconv.Atoi(s)
		return n / unit, err == nil && n/unit > 0
	}
	var e *entry
	if len(a) > 1 {
		e = f.m[a[1]]
	}
	switch strings.ToUpper(a[0]) {
	case "GET":
		if e == nil {
			return "$-1\r\n"
		}
		return fmt.Sprintf("$%d\r\n%s\r\n", len(e.val), e.val)
	case "SETEX":
		a = []string{"SET", a[1], a[3], "EX", a[2]}
		fallthrough
	case "SET":
		n := &entry{val: a[2]}
		if len(a) > 3 {
			unit := 1
			if strings.ToUpper(a[3]) == "PX" {
				unit = 1000
			}
			l, ok := life(a[4], unit)
			if !ok {
				return "-ERR invalid expire time in set\r\n"
			}
			n.life = l
		}
		f.m[a[1]] = n
		return "+OK\r\n"
	case "EXPIRE", "PEXPIRE":
		unit := 1
		if strings.ToUpper(a[0]) == "PEXPIRE" {
			unit = 1000
		}
		if e == nil {
			return num(0)
		}
		l, ok := life(a[2], unit)
		if !ok {
			delete(f.m, a[1])
			return num(1)
		}
		e.life = l
		return num(1)
	case "PERSIST":
		if e == nil || e.life == 0 {
			return num(0)
		}
		e.life = 0
		return num(1)
	case "TTL":
		if e == nil {
			return num(-2)
		}
		if e.life == 0 {
			return num(-1)
		}
		return num(e.life)
	case "EXISTS":
		if e == nil {
			return num(0)
		}
		return num(1)
	case "DEL", "UNLINK":
		if e == nil {
			return num(0)
		}
		delete(f.m, a[1])
		return num(1)
	case "INCR", "DECR":
		a = append(a, "1")
		fallthrough
	case "INCRBY", "DECRBY":
		if e == nil {
			e = &entry{val: "0"}
		}
		n, err := strconv.Atoi(e.val)
		d, err2 := strconv.Atoi(a[2])
		if err != nil || err2 != nil {
			return "-ERR value is not an integer\r\n"
		}
		if strings.ToUpper(a[0])[0] == 'D' {
			d = -d
		}
		e.val = strconv.Itoa(n + d)
		f.m[a[1]] = e
		return num(n + d)
	case "FLUSHDB", "FLUSHALL":
		f.m = map[string]*entry{}
		return "+OK\r\n"
	}
	return "-ERR unknown command\r\n"
}

// ---- memcache ----
func (f *fakeServer) memcache(c net.Conn) {
	r := bufio.NewReader(c)
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return
		}
		a := strings.Fields(l)
		if len(a) == 0 {
			return
		}
		data := ""
		if a[0] == "set" || a[0] == "add" || a[0] == "replace" {
			b := make([]byte, atoi(a[4])+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			data = string(b[:len(b)-2])
		}
		f.Lock()
		out := f.mcCmd(a, data)
		f.Unlock()
		if _, err := io.WriteString(c, out); err != nil {
			return
		}
	}
}

// seconds up to 30 days, a unix time beyond that
func mcLifetime(n int) int {
	if n > 30*24*3600 {
		return n - int(time.Now().Unix())
	}
	return n
}

func (f *fakeServer) mcCmd(a []string, data string) string {
	if f.down {
		return "SERVER_ERROR down\r\n"
	}
	var e *entry
	if len(a) > 1 {
		e = f.m[a[1]]
	}
	switch a[0] {
	case "get", "gets":
		if e == nil {
			return "END\r\n"
		}
		return fmt.Sprintf("VALUE %s 0 %d 1\r\n%s\r\nEND\r\n", a[1], len(e.val), e.val)
	case "set":
		l := mcLifetime(atoi(a[3]))
		if l < 0 {
			delete(f.m, a[1])
		} else {
			f.m[a[1]] = &entry{val: data, life: l}
		}
		return "STORED\r\n"
	case "touch":
		if e == nil {
			return "NOT_FOUND\r\n"
		}
		if e.life = mcLifetime(atoi(a[2])); e.life < 0 {
			delete(f.m, a[1])
		}
		return "TOUCHED\r\n"
	case "delete":
		if e == nil {
			return "NOT_FOUND\r\n"
		}
		delete(f.m, a[1])
		return "DELETED\r\n"
	case "incr", "decr":
		if e == nil {
			return "NOT_FOUND\r\n"
		}
		n, err := strconv.ParseUint(e.val, 10, 64)
		d, err2 := strconv.ParseUint(a[2], 10, 64)
		if err != nil || err2 != nil {
			return "CLIENT_ERROR cannot increment or decrement non-numeric value\r\n"
		}
		if a[0] == "incr" {
			n += d
		} else if n < d {
			n = 0
		} else {
			n -= d
		}
		e.val = strconv.FormatUint(n, 10)
		return e.val + "\r\n"
	case "flush_all":
		f.m = map[string]*entry{}
		return "OK\r\n"
	}
	return "ERROR\r\n"
}

// ---- mongo: the queries and commands mgo sends to an old server ----
func (f *fakeServer) mongo(c net.Conn) {
	for {
		var h [16]byte
		if _, err := io.ReadFull(c, h[:]); err != nil {
			return
		}
		n := int(binary.LittleEndian.Uint32(h[0:]))
		body := make([]byte, n-16)
		if _, err := io.ReadFull(c, body); err != nil {
			return
		}
		if binary.LittleEndian.Uint32(h[12:]) != 2004 {
			continue
		}
		body = body[4:]
		i := 0
		for body[i] != 0 {
			i++
		}
		coll := string(body[:i])
		var q bson.M
		bson.Unmarshal(body[i+9:], &q)
		f.Lock()
		docs, flags := f.mongoCmd(coll, q), uint32(8)
		f.Unlock()
		out := make([]byte, 36)
		for _, d := range docs {
			b, err := bson.Marshal(d)
			if err != nil {
				panic(err)
			}
			if _, bad := d["$err"]; bad {
				flags |= 2
			}
			out = append(out, b...)
		}
		le := binary.LittleEndian
		le.PutUint32(out[0:], uint32(len(out)))
		le.PutUint32(out[8:], le.Uint32(h[4:]))
		le.PutUint32(out[12:], 1)
		le.PutUint32(out[16:], flags)
		le.PutUint32(out[32:], uint32(len(docs)))
		if _, err := c.Write(out); err != nil {
			return
		}
	}
}

func asM(x interface{}) bson.M {
	m, _ := x.(bson.M)
	return m
}

func numOf(x interface{}) (int64, bool) {
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Int, reflect.Int32, reflect.Int64:
		return v.Int(), true
	}
	return 0, false
}

func matches(d, q bson.M) bool {
	for k, w := range q {
		have, ok := d[k]
		ops := asM(w)
		if ops == nil {
			if !ok || !reflect.DeepEqual(have, w) {
				return false
			}
			continue
		}
		for op, x := range ops {
			a, okA := have.(time.Time)
			b, okB := x.(time.Time)
			if !okA || !okB {
				return false
			}
			r := map[string]bool{"$gt": a.After(b), "$gte": !a.Before(b), "$lt": a.Before(b), "$lte": !a.After(b), "$ne": !a.Equal(b)}[op]
			if !r {
				return false
			}
		}
	}
	return true
}

func (f *fakeServer) find(q bson.M) (docs []*entry, keys []string) {
	for k, e := range f.m {
		if matches(e.doc, q) {
			docs, keys = append(docs, e), append(keys, k)
		}
	}
	return
}

func (f *fakeServer) mongoCmd(coll string, q bson.M) []bson.M {
	if !strings.HasSuffix(coll, ".$cmd") {
		if f.down {
			return []bson.M{{"$err": "down"}}
		}
		if in := asM(q["$query"]); in != nil {
			q = in
		}
		docs, _ := f.find(q)
		var out []bson.M
		for _, e := range docs {
			out = append(out, e.doc)
		}
		return out
	}
	if in := asM(q["$query"]); in != nil {
		q = in
	}
	ok := bson.M{"ok": 1, "ismaster": true, "maxWireVersion": 3, "nonce": "0", "version": "2.6.0"}
	list := func(k string) (ms []bson.M) {
		xs, _ := q[k].([]interface{})
		for _, x := range xs {
			ms = append(ms, asM(x))
		}
		return
	}
	if f.down && (q["update"] != nil || q["delete"] != nil) {
		return []bson.M{{"ok": 0, "errmsg": "down", "code": 8}}
	}
	switch {
	case q["update"] != nil:
		n := 0
		for _, u := range list("updates") {
			docs, _ := f.find(asM(u["q"]))
			up := asM(u["u"])
			if len(docs) == 0 {
				if up, _ := u["upsert"].(bool); !up {
					continue
				}
				e := &entry{}
				docs = append(docs, e)
				f.m[fmt.Sprint(asM(u["u"])["key"])] = e
			}
			e := docs[0]
			n++
			if set := asM(up["$set"]); set != nil {
				for k, v := range set {
					e.doc[k] = v
				}
			} else if inc := asM(up["$inc"]); inc != nil {
				for k, v := range inc {
					a, ok1 := numOf(e.doc[k])
					b, ok2 := numOf(v)
					if !ok1 || !ok2 {
						return []bson.M{{"ok": 1, "n": 0, "writeErrors": []bson.M{{"index": 0, "code": 14, "errmsg": "cannot apply $inc"}}}}
					}
					e.doc[k] = a + b
				}
			} else {
				e.doc = up
			}
		}
		ok["n"] = n
	case q["delete"] != nil:
		n := 0
		for _, u := range list("deletes") {
			_, keys := f.find(asM(u["q"]))
			if l, _ := numOf(u["limit"]); l == 1 && len(keys) > 1 {
				keys = keys[:1]
			}
			for _, k := range keys {
				delete(f.m, k)
				n++
			}
		}
		ok["n"] = n
	}
	return []bson.M{ok}
}

// ---- the same history against every backend ----
type backend struct {
	*fakeServer
	name   string
	prefix string
	prov   CacheProvider
	pool   *pool.Pool
	auto   bool
}

func (b *backend) get(k string) (val string, life int, ok bool) {
	b.Lock()
	defer b.Unlock()
	e := b.m[b.prefix+k]
	if e == nil {
		return
	}
	if b.name == "mongo" {
		t, _ := e.doc["exp"].(time.Time)
		return fmt.Sprint(e.doc["val"]), int((time.Until(t) + time.Second/2) / time.Second), true
	}
	return e.val, e.life, true
}

// lets the lifetime of k pass
func (b *backend) expire(k string) {
	b.Lock()
	defer b.Unlock()
	e := b.m[b.prefix+k]
	if e == nil {
		return
	}
	if b.name == "mongo" {
		e.doc["exp"] = time.Now().Add(-time.Second)
	} else {
		delete(b.m, b.prefix+k)
	}
}

func TestVerif_P18(t *testing.T) {
	var r, m, g fakeServer
	r.serve(t, r.redis)
	m.serve(t, m.memcache)
	g.serve(t, g.mongo)
	rp, err := pool.New("tcp", r.ln.Addr().String(), 2)
	if err != nil {
		t.Fatal(err)
	}
	mc := memcache.New(m.ln.Addr().String())
	mc.Timeout = 10 * time.Second
	ms, err := mgo.DialWithTimeout(g.ln.Addr().String()+"?connect=direct", 10*time.Second)
	if err != nil {
		t.Fatal(err)
	}
	collect := func(f func(c *mgo.Collection) error) error { return f(ms.DB("d").C("c")) }
	vh.Run(t, "P18", 1, 3000, func(c *vh.Case) {
		b := &backend{name: c.Pick("redis", "memcache", "mongo")}
		b.prefix = c.Pick("", "p:", "app_")
		var err error
		switch b.name {
		case "redis":
			b.fakeServer, b.pool = &r, rp
			b.prov, err = NewRedisProvider(RedisConfig{KeyPrefix: b.prefix, Client: rp})
		case "memcache":
			b.fakeServer = &m
			b.prov, err = NewMcProvider(McConfig{KeyPrefix: b.prefix, Client: mc})
		default:
			b.fakeServer, b.prefix, b.auto = &g, "", c.Bool()
			b.prov, err = NewMgoProvider(MgoConfig{AutoExpire: b.auto, KeyField: "key", ValueField: "val", ExpiredAtField: "exp", Connect: collect})
		}
		b.Lock()
		b.m, b.down = map[string]*entry{}, false
		b.Unlock()
		c.Check(err == nil, "provider: %v", err)
		c.Log("%s, prefix %q", b.name, b.prefix)
		p18(c, b)
	})
}

type wanted struct {
	val  string
	life int
	n    int
	num  bool
	gone bool
}

func p18(c *vh.Case, b *backend) {
	model := map[string]*wanted{}
	keys := []string{"a", "b", "p:a"}
	lifetime := func() (ps []int, want int) {
		switch c.Intn(6) {
		case 0:
			return nil, 60
		case 1:
			return []int{0}, 60
		case 2:
			return []int{-1 - c.Intn(100)}, 0
		case 3:
			n := []int{1, 2, 59, 60, 61, 1 + c.Intn(1000)}[c.Intn(6)]
			return []int{n}, n
		case 4:
			n := 2592000 + c.Intn(3)
			return []int{n}, n
		}
		n := 2592001 + c.Intn(40000000)
		return []int{n}, n
	}
	lives := func(k string, want int) {
		_, life, ok := b.get(k)
		c.Check(ok, "%q is not stored under %q", k, b.prefix+k)
		if want == 0 && b.name == "mongo" {
			c.Check(life > 3600*24*3650, "%q lives %d s, want it to live without limit", k, life)
			return
		}
		tol := 0
		if b.name != "redis" {
			tol = 2
		}
		c.Check((life == 0) == (want == 0) && life >= want-tol && life <= want+tol, "%q lives %d s, want %d (0: no limit)", k, life, want)
	}
	for n := 3 + c.Intn(10); n > 0; n-- {
		k := c.Pick(keys...)
		w := model[k]
		live := w != nil && !w.gone
		down := c.Intn(8) == 0
		b.Lock()
		b.down = down
		b.Unlock()
		var err error
		// whether a missing key is what the caller must be told about
		missed := func(op string) {
			c.Log("%s = %v", op, err)
			if down {
				c.Check(err != nil && err != ErrMissedKey, "%s gave %v while the backend failed", op, err)
			} else if !live {
				c.Check(err == ErrMissedKey, "%s of a missing key gave %v, want %v", op, err, ErrMissedKey)
			} else {
				c.Check(err == nil, "%s gave %v", op, err)
			}
		}
		switch op := c.Intn(12); op {
		case 0, 1, 2:
			ps, want := lifetime()
			nw := &wanted{life: want, num: c.Bool(), n: 100 + c.Intn(100)}
			nw.val = c.Str("xyz \n", 4)
			var val interface{} = nw.val
			if nw.num {
				val, nw.val = nw.n, strconv.Itoa(nw.n)
			}
			err = b.prov.Set(k, val, ps...)
			c.Log("Set(%q, %v, %v) = %v (down %v)", k, val, ps, err, down)
			c.Check((err != nil) == down, "Set gave %v", err)
			if !down {
				model[k] = nw
				lives(k, want)
			}
		case 3:
			ps, want := lifetime()
			err = b.prov.Touch(k, ps...)
			missed(fmt.Sprintf("Touch(%q, %v)", k, ps))
			if live && !down {
				w.life = want
				lives(k, want)
			}
		case 4:
			if w != nil && w.gone {
				continue
			}
			err = b.prov.Delete(k)
			missed(fmt.Sprintf("Delete(%q)", k))
			if !down {
				delete(model, k)
			}
		case 5, 6:
			if b.name == "redis" && !live || live && !w.num {
				continue
			}
			var ps []int
			d := 1
			if c.Bool() {
				d = c.Intn(50)
				ps = []int{d}
			}
			if op == 5 {
				err = b.prov.Incr(k, ps...)
				missed(fmt.Sprintf("Incr(%q, %v)", k, ps))
			} else {
				if live && w.n-d < 0 {
					continue
				}
				err = b.prov.Decr(k, ps...)
				missed(fmt.Sprintf("Decr(%q, %v)", k, ps))
				d = -d
			}
			if live && !down {
				w.n += d
				w.val = strconv.Itoa(w.n)
				lives(k, w.life)
			}
		case 7:
			var has bool
			has, err = b.prov.Has(k)
			c.Log("Has(%q) = %v, %v", k, has, err)
			c.Check((err != nil) == down && has == (live && !down), "Has(%q) = %v, %v", k, has, err)
		case 8:
			err = b.prov.GC()
			c.Log("GC() = %v", err)
			if !down {
				c.Check(err == nil, "GC() = %v", err)
				for x, e := range model {
					if e.gone {
						_, _, ok := b.get(x)
						c.Check(!ok || b.auto, "%q outlived its lifetime and the collection", x)
						if !ok {
							delete(model, x)
						}
					}
				}
			}
		case 9:
			if c.Bool() {
				if err = b.prov.Clean(); !down {
					c.Check(err == nil, "Clean() = %v", err)
					model = map[string]*wanted{}
					c.Log("Clean()")
				} else {
					c.Check(err != nil, "Clean() hid that the backend failed")
				}
			} else if live && w.life != 0 {
				c.Log("the lifetime of %q passes", k)
				b.expire(k)
				w.gone = true
			}
		default:
			v, err2 := b.prov.Get(k)
			err = err2
			missed(fmt.Sprintf("Get(%q)", k))
			if live && !down {
				c.Check(v.String() == w.val, "Get(%q) = %q, want %q", k, v, w.val)
			}
		}
		b.Lock()
		b.down = false
		b.Unlock()
		for x, e := range model {
			v, _, ok := b.get(x)
			if e.gone {
				continue
			}
			c.Check(ok && v == e.val, "the backend has %q (%v) for %q, want %q", v, ok, x, e.val)
		}
		for _, x := range keys {
			if _, _, ok := b.get(x); ok && model[x] == nil {
				c.Fail("the backend still has %q", x)
			}
		}
		if b.pool != nil {
			c.Check(b.pool.Avail() == 2, "%d of 2 connections are back in the pool", b.pool.Avail())
		}
	}
}
