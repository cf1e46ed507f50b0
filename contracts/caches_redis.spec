package github.com/wujiu2020/strip/caches

# ---- redis: entries with a value and a lifetime in seconds (0: unlimited), by the commands' documentation ----
ghost rhas arr[string->bool]
ghost rval arr[string->string]
ghost rlife arr[string->int]
ghost rErr any
ghost taken int
ghost rcmds int
ghost rcmd string
ghost rkey string
ghost rcnt any
uninterp func rint(r *redis.Resp) int
uninterp func rnil(r *redis.Resp) bool
uninterp func rstr(r *redis.Resp) string
uninterp func secsF(d int) float64
# the whole number an argument shows
uninterp func secNum(v any) int
axiom forall x int :: {box(x, int)} secNum(box(x, int)) == x
axiom forall x int64 :: {box(x, int64)} secNum(box(x, int64)) == x
axiom forall d int :: {box(secsF(d), float64)} d % 1000000000 == 0 ==> secNum(box(secsF(d), float64)) == d / 1000000000
pure func ks(v any) string = as(v, string)

extern (time.Duration).Seconds(d) (f)
  ensures f == secsF(d)
extern (*github.com/mediocregopher/radix.v2/pool.Pool).Get(p) (c, err)
  modifies taken, rErr
  ensures rErr == err
  ensures err == nil ==> c != nil && taken == old(taken) + 1
  ensures err != nil ==> taken == old(taken)
  ensures err != redis.ErrRespNil
extern (*github.com/mediocregopher/radix.v2/pool.Pool).Put(p, c)
  modifies taken
  ensures taken == old(taken) - 1
extern (*github.com/mediocregopher/radix.v2/redis.Client).Cmd(c, cmd, args) (r)
  requires nn: c != nil
  requires keyed: cmd != "FLUSHDB" ==> len(args) > 0 && is(args[0], string)
  requires known: cmd == "GET" && len(args) == 1 || cmd == "SET" && (len(args) == 2 || len(args) == 4 && args[2] == box("EX", string) && secNum(args[3]) > 0) || cmd == "SETEX" && len(args) == 3 && secNum(args[1]) > 0 || cmd == "EXPIRE" && len(args) == 2 || cmd == "PERSIST" && len(args) == 1 || cmd == "EXISTS" && len(args) == 1 || cmd == "DEL" && len(args) == 1 || cmd == "INCRBY" && len(args) == 2 || cmd == "DECRBY" && len(args) == 2 || cmd == "FLUSHDB" && len(args) == 0
  modifies rhas, rval, rlife, rErr, rcmds, rcmd, rkey, rcnt
  ensures r != nil && fresh(r) && rErr == r.Err && r.Err != redis.ErrRespNil && rcmds == old(rcmds) + 1 && rcmd == cmd
  ensures len(args) > 0 ==> rkey == ks(args[0])
  ensures len(args) > 1 ==> rcnt == args[1]
  ensures r.Err != nil || cmd == "GET" || cmd == "EXISTS" ==> rhas == old(rhas) && rval == old(rval) && rlife == old(rlife)
  ensures r.Err == nil && cmd == "GET" ==> rnil(r) == !select(rhas, ks(args[0])) && (select(rhas, ks(args[0])) ==> rstr(r) == select(rval, ks(args[0])))
  ensures r.Err == nil && cmd == "EXISTS" ==> rint(r) == ite(select(rhas, ks(args[0])), 1, 0)
  ensures r.Err == nil && (cmd == "SET" || cmd == "SETEX") ==> rhas == update(old(rhas), ks(args[0]), true) && rval == update(old(rval), ks(args[0]), as(args[ite(cmd == "SET", 1, 2)], string)) && rlife == update(old(rlife), ks(args[0]), ite(cmd == "SETEX", secNum(args[1]), ite(len(args) == 2, 0, secNum(args[3]))))
  ensures r.Err == nil && cmd == "EXPIRE" ==> rval == old(rval) && rint(r) == ite(select(old(rhas), ks(args[0])), 1, 0) && (rint(r) == 1 && secNum(args[1]) > 0 ==> rhas == old(rhas) && rlife == update(old(rlife), ks(args[0]), secNum(args[1]))) && (rint(r) == 1 && secNum(args[1]) <= 0 ==> rhas == update(old(rhas), ks(args[0]), false)) && (rint(r) == 0 ==> rhas == old(rhas) && rlife == old(rlife))
  ensures r.Err == nil && cmd == "PERSIST" ==> rval == old(rval) && rhas == old(rhas) && rint(r) == ite(select(rhas, ks(args[0])) && select(old(rlife), ks(args[0])) != 0, 1, 0) && rlife == ite(rint(r) == 1, update(old(rlife), ks(args[0]), 0), old(rlife))
  ensures r.Err == nil && cmd == "DEL" ==> rval == old(rval) && rlife == old(rlife) && rint(r) == ite(select(old(rhas), ks(args[0])), 1, 0) && rhas == update(old(rhas), ks(args[0]), false)
  ensures cmd == "INCRBY" || cmd == "DECRBY" ==> forall k string :: {select(rhas, k)} k != ks(args[0]) ==> select(rhas, k) == select(old(rhas), k) && select(rval, k) == select(old(rval), k) && select(rlife, k) == select(old(rlife), k)
  ensures r.Err == nil && cmd == "FLUSHDB" ==> forall k string :: {select(rhas, k)} !select(rhas, k)
extern (*github.com/mediocregopher/radix.v2/redis.Resp).Str(r) (s, err)
  requires nn: r != nil
  ensures err == ite(r.Err != nil, r.Err, ite(rnil(r), redis.ErrRespNil, nil))
  ensures err == nil ==> s == rstr(r)
extern (*github.com/mediocregopher/radix.v2/redis.Resp).Int(r) (n, err)
  requires nn: r != nil
  ensures err == r.Err
  ensures n == ite(err == nil, rint(r), 0)

pure func okR(p *redisProvide) bool = p != nil && redis.ErrRespNil != nil && ErrMissedKey != nil && ErrMissedKey != redis.ErrRespNil
pure func rk(p *redisProvide, key string) string = p.RedisConfig.KeyPrefix + key
pure func rErrOf(e any) any = ite(e == redis.ErrRespNil, ErrMissedKey, e)

func (*redisProvide).Get(p, key) (value, err)
  props P18
  new
  requires ok: okR(p)
  modifies rhas, rval, rlife, rErr, rcmds, rcmd, rkey, rcnt, taken
  ensures value: err == nil ==> rErr == nil && select(rhas, rk(p, key)) && value == select(rval, rk(p, key))
  ensures missing: rErr == nil && !select(rhas, rk(p, key)) ==> err == ErrMissedKey
  ensures reported: rErr != nil && rErr != redis.ErrRespNil ==> err == rErr
  ensures nothing: rhas == old(rhas) && rval == old(rval) && rlife == old(rlife) && taken == old(taken)

func (*redisProvide).Set(p, key, val, params) (err)
  props P18
  new
  requires ok: okR(p) && fits(params)
  modifies rhas, rval, rlife, rErr, rcmds, rcmd, rkey, rcnt, taken
  ensures stored: err == nil ==> rhas == update(old(rhas), rk(p, key), true) && rval == update(old(rval), rk(p, key), shown(val)) && rlife == update(old(rlife), rk(p, key), want(params))
  ensures failed: err != nil ==> rhas == old(rhas) && rval == old(rval) && rlife == old(rlife)
  ensures reported: err == rErr && taken == old(taken)

func (*redisProvide).Touch(p, key, params) (err)
  props P18
  new
  requires ok: okR(p) && fits(params)
  modifies rhas, rval, rlife, rErr, rcmds, rcmd, rkey, rcnt, taken
  ensures touched: err == nil ==> select(rhas, rk(p, key)) && select(rlife, rk(p, key)) == want(params)
  ensures missing: rErr == nil && !select(old(rhas), rk(p, key)) ==> err == ErrMissedKey
  ensures reported: rErr != nil ==> err == rErrOf(rErr)
  ensures done: rErr == nil && select(old(rhas), rk(p, key)) ==> err == nil
  ensures kept: rhas == old(rhas) && rval == old(rval) && (forall k string :: {select(rlife, k)} k != rk(p, key) ==> select(rlife, k) == select(old(rlife), k)) && taken == old(taken)

func (*redisProvide).Delete(p, key) (err)
  props P18
  new
  requires ok: okR(p)
  modifies rhas, rval, rlife, rErr, rcmds, rcmd, rkey, rcnt, taken
  ensures deleted: rErr == nil ==> rhas == update(old(rhas), rk(p, key), false) && err == ite(select(old(rhas), rk(p, key)), nil, ErrMissedKey)
  ensures failed: rErr != nil ==> err == rErrOf(rErr) && rhas == old(rhas)
  ensures others: taken == old(taken) && rval == old(rval) && rlife == old(rlife)

func (*redisProvide).Has(p, key) (b, err)
  props P18
  new
  requires ok: okR(p)
  modifies rhas, rval, rlife, rErr, rcmds, rcmd, rkey, rcnt, taken
  ensures exists: rErr == nil ==> err == nil && b == select(rhas, rk(p, key))
  ensures failed: rErr != nil && rErr != redis.ErrRespNil ==> err == rErr && !b
  ensures nothing: rhas == old(rhas) && rval == old(rval) && rlife == old(rlife) && taken == old(taken)

func (*redisProvide).Incr(p, key, params) (err)
  props P18
  new
  requires ok: okR(p)
  modifies rhas, rval, rlife, rErr, rcmds, rcmd, rkey, rcnt, taken
  ensures asked: rcmds == old(rcmds) || rcmds == old(rcmds) + 1 && rcmd == "INCRBY" && rkey == rk(p, key) && secNum(rcnt) == ite(len(params) == 0, 1, params[0])
  ensures reported: err == rErrOf(rErr) && (rcmds == old(rcmds) ==> rErr != nil) && taken == old(taken)

func (*redisProvide).Decr(p, key, params) (err)
  props P18
  new
  requires ok: okR(p)
  modifies rhas, rval, rlife, rErr, rcmds, rcmd, rkey, rcnt, taken
  ensures asked: rcmds == old(rcmds) || rcmds == old(rcmds) + 1 && rcmd == "DECRBY" && rkey == rk(p, key) && secNum(rcnt) == ite(len(params) == 0, 1, params[0])
  ensures reported: err == rErrOf(rErr) && (rcmds == old(rcmds) ==> rErr != nil) && taken == old(taken)

func (*redisProvide).Clean(p) (err)
  props P18
  new
  requires ok: okR(p)
  modifies rhas, rval, rlife, rErr, rcmds, rcmd, rkey, rcnt, taken
  ensures cleaned: err == nil ==> forall k string :: {select(rhas, k)} !select(rhas, k)
  ensures reported: err == rErr && taken == old(taken)
