package github.com/wujiu2020/strip/caches

# ---- P18: mongo; every document is the key, the value and the time the entry expires ----
pure func wantEx(params []int) int = ite(want(params) == 0, 9999*86400*1000000000, want(params)*1000000000)

funcval func(func(c *mgo.Collection) error) error : (f, run) (err)
  calls run
  ensures err != nil && err == mgErr && mgOps == old(mgOps)
  modifies mgErr

ghost mgOp string
ghost mgOps int
ghost mgErr any
ghost mgSel bson.M
ghost mgUpd bson.M
ghost mgAll bool
ghost mgDoc map[string]any

uninterp func queryOf(q *mgo.Query) bson.M

extern (*github.com/globalsign/mgo.Collection).Upsert(c, selector, update) (info, err)
  requires nn: c != nil && is(selector, bson.M) && is(update, bson.M)
  modifies mgOp, mgOps, mgErr, mgSel, mgUpd
  ensures mgOp == "upsert" && mgOps == old(mgOps) + 1 && mgErr == err && mgSel == as(selector, bson.M) && mgUpd == as(update, bson.M)
extern (*github.com/globalsign/mgo.Collection).Update(c, selector, update) (err)
  requires nn: c != nil && is(selector, bson.M) && is(update, bson.M)
  modifies mgOp, mgOps, mgErr, mgSel, mgUpd
  ensures mgOp == "update" && mgOps == old(mgOps) + 1 && mgErr == err && mgSel == as(selector, bson.M) && mgUpd == as(update, bson.M)
extern (*github.com/globalsign/mgo.Collection).Remove(c, selector) (err)
  requires nn: c != nil && is(selector, bson.M)
  modifies mgOp, mgOps, mgErr, mgSel
  ensures mgOp == "remove" && mgOps == old(mgOps) + 1 && mgErr == err && mgSel == as(selector, bson.M)
extern (*github.com/globalsign/mgo.Collection).RemoveAll(c, selector) (info, err)
  requires nn: c != nil && (selector == nil || is(selector, bson.M))
  modifies mgOp, mgOps, mgErr, mgSel, mgAll
  ensures mgOp == "removeall" && mgOps == old(mgOps) + 1 && mgErr == err && mgAll == (selector == nil) && (selector != nil ==> mgSel == as(selector, bson.M))
extern (*github.com/globalsign/mgo.Collection).Find(c, selector) (q)
  requires nn: c != nil && is(selector, bson.M)
  modifies mgSel
  ensures q != nil && mgSel == as(selector, bson.M)
extern (*github.com/globalsign/mgo.Query).One(q, result) (err)
  requires nn: q != nil && is(result, *map[string]any) && as(result, *map[string]any) != nil
  modifies mgOp, mgOps, mgErr, mgDoc, deref(as(result, *map[string]any))
  ensures mgOp == "find" && mgOps == old(mgOps) + 1 && mgErr == err
  ensures err == nil ==> *as(result, *map[string]any) == mgDoc && mgDoc != nil
  ensures err != nil ==> *as(result, *map[string]any) == old(*as(result, *map[string]any))

pure func okMg(p *mgoProvide) bool = p != nil && p.config != nil && p.connect != nil && mgo.ErrNotFound != nil && ErrMissedKey != nil && p.config.KeyField != p.config.ValueField && p.config.KeyField != p.config.ExpiredAtField && p.config.ValueField != p.config.ExpiredAtField
pure func mgErrOf(e any) any = ite(e == mgo.ErrNotFound, ErrMissedKey, e)
# m is the entry of key
pure func isEntry(m bson.M, p *mgoProvide, key string) bool = m != nil && forall k string :: {has(m, k)} has(m, k) == (k == p.config.KeyField) && (has(m, k) ==> at(m, k) == box(key, string))
# m is the entry of key whose lifetime has not passed
pure func isLive(m bson.M, p *mgoProvide, key string, now int) bool = m != nil && (forall k string :: {has(m, k)} has(m, k) == (k == p.config.KeyField || k == p.config.ExpiredAtField)) && at(m, p.config.KeyField) == box(key, string) && isTime(at(m, p.config.ExpiredAtField), "$gt", now)
pure func isTime(v any, op string, t int) bool = is(v, bson.M) && as(v, bson.M) != nil && (forall k string :: {has(as(v, bson.M), k)} has(as(v, bson.M), k) == (k == op)) && is(at(as(v, bson.M), op), time.Time) && nanos(as(at(as(v, bson.M), op), time.Time)) == t

func (*mgoProvide).handleError(p, err) (r)
  props P18
  requires e: mgo.ErrNotFound != nil && ErrMissedKey != nil
  ensures mapped: r == mgErrOf(err)

func (*mgoProvide).fetchValues(p, key) (values, err)
  props P18
  new
  requires ok: okMg(p)
  modifies mgOp, mgOps, mgErr, mgSel, mgDoc
  ensures error: err == mgErr
  ensures asked: err == nil ==> mgOps == old(mgOps) + 1 && mgOp == "find" && isEntry(mgSel, p, key)
  ensures value: err == nil ==> values == mgDoc && values != nil
  ensures once: mgOps <= old(mgOps) + 1

func (*mgoProvide).getValue(p, values) (value, ok)
  props P18
  requires ok: okMg(p)
  modifies clock
  ensures live: ok == (values != nil && is(at(values, p.config.ExpiredAtField), time.Time) && has(values, p.config.ExpiredAtField) && clock < nanos(as(at(values, p.config.ExpiredAtField), time.Time)) && has(values, p.config.ValueField))
  ensures value: ok ==> value == at(values, p.config.ValueField)

func (*mgoProvide).Get(p, key) (value, err)
  props P18
  new
  requires ok: okMg(p)
  modifies mgOp, mgOps, mgErr, mgSel, mgDoc, clock
  ensures asked: err == nil ==> mgOps == old(mgOps) + 1 && mgOp == "find" && isEntry(mgSel, p, key)
  ensures error: mgErr != nil ==> err == mgErrOf(mgErr)
  ensures expired: mgErr == nil ==> (err == nil || err == ErrMissedKey) && ((err == nil) == liveDoc(p, mgDoc, clock))
  ensures value: err == nil ==> value == shown(at(mgDoc, p.config.ValueField))

pure func liveDoc(p *mgoProvide, d map[string]any, now int) bool = has(d, p.config.ExpiredAtField) && is(at(d, p.config.ExpiredAtField), time.Time) && now < nanos(as(at(d, p.config.ExpiredAtField), time.Time)) && has(d, p.config.ValueField)

func (*mgoProvide).Has(p, key) (b, err)
  props P18
  new
  requires ok: okMg(p)
  modifies mgOp, mgOps, mgErr, mgSel, mgDoc, clock
  ensures asked: err == nil && mgErr == nil ==> mgOps == old(mgOps) + 1 && mgOp == "find" && isEntry(mgSel, p, key)
  ensures error: err == ite(mgErr == mgo.ErrNotFound, nil, mgErr)
  ensures exists: b == (mgErr == nil && liveDoc(p, mgDoc, clock))

func (*mgoProvide).Set(p, key, val, params) (err)
  props P18
  new
  requires ok: okMg(p) && fits(params)
  modifies mgOp, mgOps, mgErr, mgSel, mgUpd, clock
  ensures error: err == mgErr
  ensures asked: err == nil ==> mgOps == old(mgOps) + 1 && mgOp == "upsert" && isEntry(mgSel, p, key)
  ensures fields: err == nil ==> forall k string :: {has(mgUpd, k)} has(mgUpd, k) == (k == p.config.KeyField || k == p.config.ValueField || k == p.config.ExpiredAtField)
  ensures stored: err == nil ==> at(mgUpd, p.config.KeyField) == box(key, string) && at(mgUpd, p.config.ValueField) == val
  ensures life: err == nil ==> is(at(mgUpd, p.config.ExpiredAtField), time.Time) && nanos(as(at(mgUpd, p.config.ExpiredAtField), time.Time)) == clock + wantEx(params)

func (*mgoProvide).Touch(p, key, params) (err)
  props P18
  new
  requires ok: okMg(p) && fits(params)
  modifies mgOp, mgOps, mgErr, mgSel, mgUpd, clock
  ensures error: err == mgErrOf(mgErr)
  ensures asked: err == nil ==> mgOps == old(mgOps) + 1 && mgOp == "update"
  ensures live: err == nil ==> exists n int :: old(clock) <= n && n <= clock && isLive(mgSel, p, key, n)
  ensures life: err == nil ==> isSet(mgUpd, "$set", p.config.ExpiredAtField) && is(at(as(at(mgUpd, "$set"), bson.M), p.config.ExpiredAtField), time.Time) && nanos(as(at(as(at(mgUpd, "$set"), bson.M), p.config.ExpiredAtField), time.Time)) >= old(clock) + wantEx(params) && nanos(as(at(as(at(mgUpd, "$set"), bson.M), p.config.ExpiredAtField), time.Time)) <= clock + wantEx(params)

# m is {op: {field: ...}}
pure func isSet(m bson.M, op string, field string) bool = m != nil && (forall k string :: {has(m, k)} has(m, k) == (k == op)) && is(at(m, op), bson.M) && as(at(m, op), bson.M) != nil && (forall k string :: {has(as(at(m, op), bson.M), k)} has(as(at(m, op), bson.M), k) == (k == field))

func (*mgoProvide).Delete(p, key) (err)
  props P18
  new
  requires ok: okMg(p)
  modifies mgOp, mgOps, mgErr, mgSel
  ensures error: err == mgErrOf(mgErr)
  ensures asked: err == nil ==> mgOps == old(mgOps) + 1 && mgOp == "remove" && isEntry(mgSel, p, key)

func (*mgoProvide).Incr(p, key, params) (err)
  props P18
  new
  requires ok: okMg(p)
  modifies mgOp, mgOps, mgErr, mgSel, mgUpd, clock
  ensures error: err == mgErrOf(mgErr)
  ensures asked: err == nil ==> mgOps == old(mgOps) + 1 && mgOp == "update" && exists n int :: old(clock) <= n && n <= clock && isLive(mgSel, p, key, n)
  ensures count: err == nil ==> isSet(mgUpd, "$inc", p.config.ValueField) && at(as(at(mgUpd, "$inc"), bson.M), p.config.ValueField) == box(ite(len(params) == 0, 1, params[0]), int)

func (*mgoProvide).Decr(p, key, params) (err)
  props P18
  new
  requires ok: okMg(p)
  requires min: len(params) > 0 ==> params[0] > -9223372036854775808
  modifies mgOp, mgOps, mgErr, mgSel, mgUpd, clock
  ensures error: err == mgErrOf(mgErr)
  ensures asked: err == nil ==> mgOps == old(mgOps) + 1 && mgOp == "update" && exists n int :: old(clock) <= n && n <= clock && isLive(mgSel, p, key, n)
  ensures count: err == nil ==> isSet(mgUpd, "$inc", p.config.ValueField) && at(as(at(mgUpd, "$inc"), bson.M), p.config.ValueField) == box(ite(len(params) == 0, -1, 0 - params[0]), int)

func (*mgoProvide).Clean(p) (err)
  props P18
  new
  requires ok: okMg(p)
  modifies mgOp, mgOps, mgErr, mgSel, mgAll
  ensures error: err == mgErr
  ensures all: err == nil ==> mgOps == old(mgOps) + 1 && mgOp == "removeall" && mgAll

func (*mgoProvide).GC(p) (err)
  props P18
  new
  requires ok: okMg(p)
  modifies mgOp, mgOps, mgErr, mgSel, mgAll, clock
  ensures nothing: p.config.AutoExpire ==> err == nil && mgOps == old(mgOps)
  ensures error: !p.config.AutoExpire ==> err == mgErr
  ensures expired: !p.config.AutoExpire && err == nil ==> mgOps == old(mgOps) + 1 && mgOp == "removeall" && !mgAll && mgSel != nil && (forall k string :: {has(mgSel, k)} has(mgSel, k) == (k == p.config.ExpiredAtField)) && isTime(at(mgSel, p.config.ExpiredAtField), "$lte", clock)
