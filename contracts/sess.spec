package github.com/wujiu2020/strip/sessions

# ---- P15: a session store ----
ghost stored arr[string->bool]
ghost storedVal arr[string->string]
ghost saves int
ghost lastSaved string
ghost lastErr any
# the last marshalling, and the last value given to the cache with its lifetime
ghost unmIn string
ghost unmOut map[string]interface{}
ghost unmErr any
ghost marIn any
ghost marOut any
ghost marErr any
ghost setVal any
ghost setLife int
uninterp func text(v any) string
axiom forall x utils.StrTo :: {text(box(x, utils.StrTo))} text(box(x, utils.StrTo)) == x
pure func wfS(m *sessData) bool = m != nil && m.store != nil && m.provider != nil && m.provider.cache != nil && m.provider.conv != nil && m.store.Values != nil
pure func missed() any = caches.ErrMissedKey

iface (github.com/wujiu2020/strip/caches.CacheProvider).Get(c, key) (v, err)
  modifies lastErr
  ensures lastErr == err
  ensures err == nil ==> select(stored, key) && v == select(storedVal, key)
  ensures err == caches.ErrMissedKey ==> !select(stored, key)
iface (github.com/wujiu2020/strip/caches.CacheProvider).Set(c, key, value, params) (err)
  modifies stored, storedVal, saves, lastErr, setVal, setLife
  ensures lastErr == err && saves == old(saves) + 1 && setVal == value && setLife == ite(len(params) > 0, params[0], 0)
  ensures err == nil ==> stored == update(old(stored), key, true) && storedVal == update(old(storedVal), key, text(value))
  ensures err != nil ==> stored == old(stored) && storedVal == old(storedVal)
iface (github.com/wujiu2020/strip/caches.CacheProvider).Delete(c, key) (err)
  modifies stored, lastErr
  ensures lastErr == err
  ensures err == nil || err == caches.ErrMissedKey ==> stored == update(old(stored), key, false)
  ensures err != nil && err != caches.ErrMissedKey ==> stored == old(stored)
iface (github.com/wujiu2020/strip/caches.CacheProvider).Touch(c, key, params) (err)
  modifies lastErr
  ensures lastErr == err
iface (converter).Marshal(c, in) (out, err)
  modifies marIn, marOut, marErr
  ensures fresh(out)
  ensures marIn == in && marOut == box(out, []byte) && marErr == err
iface (converter).Unmarshal(c, in, out) (err)
  modifies deref(as(out, *map[string]interface{})), unmIn, unmOut, unmErr
  ensures unmIn == bytesstr(in) && unmErr == err
  ensures is(out, *map[string]interface{}) ==> *as(out, *map[string]interface{}) == unmOut
  new
extern github.com/wujiu2020/strip/utils.ValueTo(v) (r)
  ensures r != nil && r.value == v
  ensures fresh(r)

pure func sv(m *sessData) map[string]interface{} = m.store.Values
pure func dv(m *dummyStore) map[string]interface{} = m.values

func newSessStore(sid, params) (store)
  props P15
  new
  ensures made: store != nil && fresh(store) && store.Sid == sid && store.Values != nil
  ensures empty: len(params) == 0 || params[0] == nil ==> forall k string :: {has(store.Values, k)} !has(store.Values, k)
  ensures given: len(params) > 0 && params[0] != nil ==> store.Values == params[0]

func newSessData(p, store, changed) (sess)
  props P15
  new
  requires nn: store != nil
  modifies store.Values
  ensures made: sess != nil && fresh(sess) && sess.store == store && sess.provider == p && sess.changed == changed && !sess.closed
  ensures values: store.Values == ite(old(store.Values) == nil, store.Values, old(store.Values)) && store.Values != nil
  ensures empty: old(store.Values) == nil ==> forall k string :: {has(store.Values, k)} !has(store.Values, k)

func (*sessData).Sid(m) (s)
  props P15
  requires wf: wfS(m)
  ensures sid: s == m.store.Sid

func (*sessData).Set(m, key, value)
  props P15
  requires wf: wfS(m)
  modifies m.changed, entries(m.store.Values)
  ensures set: has(sv(m), key) && at(sv(m), key) == value
  ensures others: forall k string :: {has(sv(m), k)} k != key ==> has(sv(m), k) == old(has(sv(m), k)) && (has(sv(m), k) ==> at(sv(m), k) == old(at(sv(m), k)))
  ensures changed: m.changed

func (*sessData).Get(m, key) (v)
  props P15
  requires wf: wfS(m)
  new
  ensures value: v != nil && v.value == ite(has(sv(m), key), at(sv(m), key), nil)

func (*sessData).Delete(m, key)
  props P15
  requires wf: wfS(m)
  modifies m.changed, entries(m.store.Values)
  ensures gone: !has(sv(m), key)
  ensures others: forall k string :: {has(sv(m), k)} k != key ==> has(sv(m), k) == old(has(sv(m), k)) && (has(sv(m), k) ==> at(sv(m), k) == old(at(sv(m), k)))
  ensures changed: m.changed

func (*sessData).Has(m, key) (b)
  props P15
  requires wf: wfS(m)
  ensures has: b == has(sv(m), key)

func (*sessData).Values(m) (values)
  props P15
  requires wf: wfS(m)
  new
  ensures copy: values != nil && fresh(values)
  ensures same: forall k string :: {has(values, k)} has(values, k) == has(sv(m), k) && (has(values, k) ==> at(values, k) == at(sv(m), k))
  inv [w outer map[string]interface{}, v visited map[string]interface{}] forall k string :: {has(w, k)} has(w, k) == select(v, k) && (has(w, k) ==> at(w, k) == at(sv(m), k))
  inv [v visited map[string]interface{}] forall k string :: {select(v, k)} select(v, k) ==> has(sv(m), k)

func (*sessData).Clean(m)
  props P15
  requires wf: wfS(m)
  new
  modifies m.changed, m.store.Values
  ensures empty: sv(m) != nil && fresh(sv(m)) && (forall k string :: {has(sv(m), k)} !has(sv(m), k))
  ensures changed: m.changed

pure func wfP(p *sessProvide) bool = p != nil && p.cache != nil && p.conv != nil

func (*sessProvide).Destroy(p, sid) (err)
  props P15 P16
  requires wf: wfP(p)
  modifies stored, lastErr
  ensures removed: err == nil || err == caches.ErrMissedKey ==> stored == update(old(stored), sid, false)
  ensures kept: err != nil && err != caches.ErrMissedKey ==> stored == old(stored)
  ensures reported: err == lastErr

func (*sessProvide).save(p, store) (err)
  props P15
  requires nn: p != nil && p.cache != nil && p.conv != nil && store != nil
  new
  modifies stored, storedVal, saves, lastErr, marIn, marOut, marErr, setVal, setLife
  ensures saved: err == nil ==> saves == old(saves) + 1 && select(stored, store.Sid)
  ensures content: err == nil ==> marIn == box(store.Values, map[string]interface{}) && setVal == marOut && select(storedVal, store.Sid) == text(setVal) && setLife == p.config.SessionExpire
  ensures others: forall k string :: {select(stored, k)} k != store.Sid ==> select(stored, k) == select(old(stored), k) && select(storedVal, k) == select(old(storedVal), k)
  ensures failed: err != nil ==> stored == old(stored) && storedVal == old(storedVal)
  ensures not_encoded: marErr != nil ==> err == marErr && saves == old(saves) && stored == old(stored) && storedVal == old(storedVal)

func (*sessData).Flush(m) (err)
  props P15
  requires wf: wfS(m)
  new
  modifies m.changed, stored, storedVal, saves, lastErr, marIn, marOut, marErr, setVal, setLife
  ensures content: !old(m.closed) && old(m.changed) && err == nil ==> marIn == box(m.store.Values, map[string]interface{}) && setVal == marOut && select(storedVal, m.store.Sid) == text(setVal) && setLife == m.provider.config.SessionExpire
  ensures encoded: !old(m.closed) && old(m.changed) && err == nil ==> marErr == nil
  ensures idle: old(m.closed) || !old(m.changed) ==> err == nil && saves == old(saves) && stored == old(stored) && storedVal == old(storedVal) && m.changed == old(m.changed)
  ensures saved: !old(m.closed) && old(m.changed) && err == nil ==> saves == old(saves) + 1 && select(stored, m.store.Sid) && !m.changed
  ensures retry: !old(m.closed) && old(m.changed) && err != nil ==> m.changed && stored == old(stored) && storedVal == old(storedVal)

func (*sessData).Destroy(m) (err)
  props P15
  requires wf: wfS(m)
  new
  modifies m.closed, m.store.Values, stored, lastErr
  ensures closed: m.closed
  ensures empty: sv(m) != nil && fresh(sv(m)) && (forall k string :: {has(sv(m), k)} !has(sv(m), k))
  ensures removed: err == nil ==> !select(stored, m.store.Sid)
  ensures others: forall k string :: {select(stored, k)} k != m.store.Sid ==> select(stored, k) == select(old(stored), k)
  ensures reported: err == lastErr

func (*sessData).Touch(m) (err)
  props P15
  requires wf: wfS(m)
  new
  modifies lastErr
  ensures err == lastErr

# ---- the store of an application without sessions ----
func NewDummySessionStore(sid, values) (sess)
  props P15
  new
  ensures made: is(sess, *dummyStore) && let m = as(sess, *dummyStore) in m != nil && fresh(m) && m.sid == sid && m.values != nil && !m.closed && (values != nil ==> m.values == values) && (values == nil ==> m.changed && (forall k string :: {has(m.values, k)} !has(m.values, k)))

func (*dummyStore).Sid(m) (s)
  props P15
  requires wf: m != nil
  ensures sid: s == m.sid

func (*dummyStore).Set(m, key, value)
  props P15
  requires wf: m != nil && m.values != nil
  modifies m.changed, entries(m.values)
  ensures set: has(dv(m), key) && at(dv(m), key) == value
  ensures others: forall k string :: {has(dv(m), k)} k != key ==> has(dv(m), k) == old(has(dv(m), k)) && (has(dv(m), k) ==> at(dv(m), k) == old(at(dv(m), k)))
  ensures changed: m.changed

func (*dummyStore).Get(m, key) (v)
  props P15
  requires wf: m != nil
  new
  ensures value: v != nil && v.value == ite(has(dv(m), key), at(dv(m), key), nil)

func (*dummyStore).Delete(m, key)
  props P15
  requires wf: m != nil && m.values != nil
  modifies m.changed, entries(m.values)
  ensures gone: !has(dv(m), key)
  ensures others: forall k string :: {has(dv(m), k)} k != key ==> has(dv(m), k) == old(has(dv(m), k)) && (has(dv(m), k) ==> at(dv(m), k) == old(at(dv(m), k)))
  ensures changed: m.changed

func (*dummyStore).Has(m, key) (b)
  props P15
  requires wf: m != nil
  ensures has: b == has(dv(m), key)

func (*dummyStore).Values(m) (values)
  props P15
  requires wf: m != nil
  new
  ensures copy: values != nil && fresh(values)
  ensures same: forall k string :: {has(values, k)} has(values, k) == has(dv(m), k) && (has(values, k) ==> at(values, k) == at(dv(m), k))
  inv [w outer map[string]interface{}, v visited map[string]interface{}] forall k string :: {has(w, k)} has(w, k) == select(v, k) && (has(w, k) ==> at(w, k) == at(dv(m), k))
  inv [v visited map[string]interface{}] forall k string :: {select(v, k)} select(v, k) ==> has(dv(m), k)

func (*dummyStore).Clean(m)
  props P15
  requires wf: m != nil
  new
  modifies m.changed, m.values
  ensures empty: dv(m) != nil && fresh(dv(m)) && (forall k string :: {has(dv(m), k)} !has(dv(m), k))
  ensures changed: m.changed

func (*dummyStore).Flush(m) (err)
  props P15
  requires wf: m != nil
  modifies m.changed
  ensures nothing: err == nil && m.changed == (old(m.changed) && m.closed)

func (*dummyStore).Destroy(m) (err)
  props P15
  requires wf: m != nil
  new
  modifies m.closed, m.values
  ensures closed: err == nil && m.closed && dv(m) != nil && (forall k string :: {has(dv(m), k)} !has(dv(m), k))
