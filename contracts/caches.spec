package github.com/wujiu2020/strip/caches

# ---- P18: lifetimes ----
uninterp func shown(v any) string
extern github.com/wujiu2020/strip/utils.ToStr(value, args) (s)
  new
  ensures s == shown(value)

# the wanted lifetime in seconds, 0 for unlimited
pure func want(params []int) int = ite(len(params) == 0 || params[0] == 0, 60, ite(params[0] > 0, params[0], 0))
# lifetimes a time.Duration can hold
pure func fits(params []int) bool = len(params) > 0 ==> params[0] <= 9223372036

func getTimeoutDur(params) (t)
  props P18
  requires fits: fits(params)
  ensures wanted: t == want(params)*1000000000

func getTimeoutDurEx(params) (t)
  props P18
  requires fits: fits(params)
  ensures wanted: t == ite(want(params) == 0, 9999*86400*1000000000, want(params)*1000000000)

# ---- memcache ----
ghost mcOp string
ghost mcOps int
ghost mcKey string
ghost mcLife int
ghost mcText string
ghost mcCnt int
ghost mcErr any
ghost mcBytes string

extern (*github.com/bradfitz/gomemcache/memcache.Client).Get(c, key) (item, err)
  requires nn: c != nil
  modifies mcOp, mcOps, mcKey, mcErr, mcBytes
  ensures mcOp == "get" && mcOps == old(mcOps) + 1 && mcKey == key && mcErr == err
  ensures err == nil ==> item != nil && fresh(item) && bytesstr(item.Value) == mcBytes
extern (*github.com/bradfitz/gomemcache/memcache.Client).Set(c, item) (err)
  requires nn: c != nil && item != nil
  modifies mcOp, mcOps, mcKey, mcErr, mcText, mcLife
  ensures mcOp == "set" && mcOps == old(mcOps) + 1 && mcKey == item.Key && mcErr == err && mcText == bytesstr(item.Value) && mcLife == item.Expiration
extern (*github.com/bradfitz/gomemcache/memcache.Client).Touch(c, key, secs) (err)
  requires nn: c != nil
  modifies mcOp, mcOps, mcKey, mcErr, mcLife
  ensures mcOp == "touch" && mcOps == old(mcOps) + 1 && mcKey == key && mcErr == err && mcLife == secs
extern (*github.com/bradfitz/gomemcache/memcache.Client).Delete(c, key) (err)
  requires nn: c != nil
  modifies mcOp, mcOps, mcKey, mcErr
  ensures mcOp == "delete" && mcOps == old(mcOps) + 1 && mcKey == key && mcErr == err
extern (*github.com/bradfitz/gomemcache/memcache.Client).Increment(c, key, n) (v, err)
  requires nn: c != nil
  modifies mcOp, mcOps, mcKey, mcErr, mcCnt
  ensures mcOp == "incr" && mcOps == old(mcOps) + 1 && mcKey == key && mcErr == err && mcCnt == n
extern (*github.com/bradfitz/gomemcache/memcache.Client).Decrement(c, key, n) (v, err)
  requires nn: c != nil
  modifies mcOp, mcOps, mcKey, mcErr, mcCnt
  ensures mcOp == "decr" && mcOps == old(mcOps) + 1 && mcKey == key && mcErr == err && mcCnt == n

pure func okMc(p *mcProvide) bool = p != nil && p.McConfig.Client != nil && memcache.ErrCacheMiss != nil && ErrMissedKey != nil
pure func mcErrOf(e any) any = ite(e == memcache.ErrCacheMiss, ErrMissedKey, e)
# what memcached must be told for a lifetime: seconds up to 30 days, a unix time beyond, nothing past its 32 bits
pure func mcWant(n int, now int) int = let x = ite(n > 2592000, n + now / 1000000000, n) in ite(x > 2147483647, 2147483647, x)

func (*mcProvide).Get(p, key) (value, err)
  props P18
  new
  requires ok: okMc(p)
  modifies mcOp, mcOps, mcKey, mcErr, mcBytes
  ensures asked: mcOps == old(mcOps) + 1 && mcOp == "get" && mcKey == p.McConfig.KeyPrefix + key
  ensures error: err == mcErrOf(mcErr)
  ensures value: err == nil ==> value == mcBytes

func (*mcProvide).Set(p, key, val, params) (err)
  props P18
  new
  requires ok: okMc(p) && fits(params)
  modifies mcOp, mcOps, mcKey, mcErr, mcText, mcLife, clock
  ensures asked: mcOps == old(mcOps) + 1 && mcOp == "set" && mcKey == p.McConfig.KeyPrefix + key
  ensures stored: mcText == shown(val)
  ensures life: mcLife == mcWant(want(params), clock)
  ensures error: err == mcErr

func (*mcProvide).Touch(p, key, params) (err)
  props P18
  new
  requires ok: okMc(p) && fits(params)
  modifies mcOp, mcOps, mcKey, mcErr, mcLife, clock
  ensures asked: mcOps == old(mcOps) + 1 && mcOp == "touch" && mcKey == p.McConfig.KeyPrefix + key
  ensures life: mcLife == mcWant(want(params), clock)
  ensures error: err == mcErrOf(mcErr)

func (*mcProvide).Delete(p, key) (err)
  props P18
  requires ok: okMc(p)
  modifies mcOp, mcOps, mcKey, mcErr
  ensures asked: mcOps == old(mcOps) + 1 && mcOp == "delete" && mcKey == p.McConfig.KeyPrefix + key
  ensures error: err == mcErrOf(mcErr)

func (*mcProvide).Incr(p, key, params) (err)
  props P18
  requires ok: okMc(p)
  modifies mcOp, mcOps, mcKey, mcErr, mcCnt
  ensures asked: mcOps == old(mcOps) + 1 && mcOp == "incr" && mcKey == p.McConfig.KeyPrefix + key
  ensures count: len(params) == 0 || params[0] >= 0 ==> mcCnt == ite(len(params) == 0, 1, params[0])
  ensures error: err == mcErrOf(mcErr)

func (*mcProvide).Decr(p, key, params) (err)
  props P18
  requires ok: okMc(p)
  modifies mcOp, mcOps, mcKey, mcErr, mcCnt
  ensures asked: mcOps == old(mcOps) + 1 && mcOp == "decr" && mcKey == p.McConfig.KeyPrefix + key
  ensures count: len(params) == 0 || params[0] >= 0 ==> mcCnt == ite(len(params) == 0, 1, params[0])
  ensures error: err == mcErrOf(mcErr)

func (*mcProvide).Has(p, key) (b, err)
  props P18
  new
  requires ok: okMc(p)
  modifies mcOp, mcOps, mcKey, mcErr, mcBytes
  ensures asked: mcOps == old(mcOps) + 1 && mcOp == "get" && mcKey == p.McConfig.KeyPrefix + key
  ensures exists: b == (mcErr == nil)
  ensures error: err == ite(mcErr == memcache.ErrCacheMiss, nil, mcErr)
