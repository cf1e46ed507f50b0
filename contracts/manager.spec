package github.com/wujiu2020/strip/sessions

# ---- P16: the provider of sessions, as the manager uses it ----
uninterp func sidOf(s SessionStore) string
ghost provErr any
ghost creates int
ghost createdSid string
ghost reads int
ghost readSid string
ghost regens int
ghost regenOld string
ghost regenNew string
ghost destroys int
ghost destroyedSid string

iface (SessionStore).Sid(s) (r)
  ensures r == sidOf(s)
iface (SessionProvider).Create(p, sid, params) (sess, err)
  modifies provErr, creates, createdSid
  ensures provErr == err && creates == old(creates) + 1 && createdSid == sid
  ensures err == nil ==> sess != nil && sidOf(sess) == sid
iface (SessionProvider).Read(p, sid) (sess, err)
  modifies provErr, reads, readSid
  ensures provErr == err && reads == old(reads) + 1 && readSid == sid
  ensures err == nil ==> sess != nil && sidOf(sess) == sid
iface (SessionProvider).Regenerate(p, old1, sid) (sess, err)
  modifies provErr, regens, regenOld, regenNew
  ensures provErr == err && regens == old(regens) + 1 && regenOld == old1 && regenNew == sid
  ensures err == nil ==> sess != nil && sidOf(sess) == sid
iface (SessionProvider).Destroy(p, sid) (err)
  modifies destroys, destroyedSid
  ensures destroys == old(destroys) + 1 && destroyedSid == sid

# the request names a session: the last cookie of the name is signed and young enough
pure func sidValue(r *http.Request, jar int, name string) string = unesc(cookieVal(r, jar, name))
pure func named(r *http.Request, jar int, name string, p SessionProvider, now int) bool = hasCookie(r, jar, name) && escOK(cookieVal(r, jar, name)) && sealedOK(sidValue(r, jar, name), secretOf(p)) && timeOf(sidValue(r, jar, name)) + lifeOf(p)*1000000000 >= now

func NewSessionManager(provider) (m)
  props P16
  new
  requires nn: provider != nil
  panics when secretOf(provider) == ""
  ensures made: m != nil && fresh(m) && m.provider == provider

func (*SessionManager).ReadSidFromRequest(m, r, cookieName) (sid, created, ok)
  props P16
  new
  requires nn: m != nil && m.provider != nil && r != nil
  modifies macKey, macMsg, clock
  ensures named: ok == named(r, jar, cookieName, m.provider, clock)
  ensures content: ok ==> sid == textOf(sidValue(r, jar, cookieName)) && nanos(created) == timeOf(sidValue(r, jar, cookieName))
  ensures none: !ok ==> sid == ""

func (*SessionManager).WriteSessionCookie(m, config, r, w, sid, createdAt)
  props P16
  new
  requires nn: m != nil && m.provider != nil && config != nil && r != nil && w != nil
  modifies macKey, macMsg, sent, sentName, sentValue, sentAge, jar
  ensures none: sid == "" || secretOf(m.provider) == "" ==> sent == old(sent) && jar == old(jar)
  ensures sent: sid != "" && secretOf(m.provider) != "" ==> sent == old(sent) + 1 && sentName == config.CookieName && sentValue == sealed(secretOf(m.provider), sid, nanos(createdAt)) && sentAge == ite(config.CookieExpire >= 0, config.CookieExpire, 0)

func (*SessionManager).createSession(m, sid, params) (sess, err)
  props P16
  requires nn: m != nil && m.provider != nil
  modifies provErr, creates, createdSid
  ensures create: provErr == err && creates == old(creates) + 1 && createdSid == sid
  ensures made: err == nil ==> sess != nil && sidOf(sess) == sid

pure func ready() bool = bytesstr(_SESSION_ALPHABETS) == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ" && len(_SESSION_ALPHABETS) == 36 && len(utils.DefaultAlphabets) > 0

func (*SessionManager).Start(m, config, w, r) (sess, createdAt, err)
  props P16
  new
  requires nn: m != nil && m.provider != nil && config != nil && r != nil && w != nil
  requires started: secretOf(m.provider) != "" && ready()
  modifies macKey, macMsg, clock, sent, sentName, sentValue, sentAge, jar, randOK, mints, minted, provErr, creates, createdSid, reads, readSid
  maypanic
  ensures_panic !randOK
  # no id named by the request: a new one, sent back
  ensures new: mints == old(mints) || mints == old(mints) + 1 && reads == old(reads) && creates == old(creates) + 1 && createdSid == minted
  ensures attached: mints == old(mints) ==> reads == old(reads) + 1 && hasCookie(r, jar, config.CookieName) && readSid == textOf(sidValue(r, jar, config.CookieName)) && sealedOK(sidValue(r, jar, config.CookieName), secretOf(m.provider))
  ensures recreated: mints == old(mints) && creates != old(creates) ==> creates == old(creates) + 1 && createdSid == readSid
  ensures session: err == nil ==> sess != nil && sidOf(sess) == ite(mints == old(mints), readSid, minted)
  ensures cookie: mints != old(mints) && err == nil ==> sent == old(sent) + 1 && sentName == config.CookieName && sentValue == sealed(secretOf(m.provider), minted, nanos(createdAt))
  ensures quiet: mints == old(mints) || err != nil ==> sent == old(sent) && jar == old(jar)
  ensures reported: err == provErr

func (*SessionManager).Regenerate(m, config, w, r, params) (sess, createdAt, err)
  props P16
  new
  requires nn: m != nil && m.provider != nil && config != nil && r != nil && w != nil
  requires started: secretOf(m.provider) != "" && ready()
  modifies macKey, macMsg, clock, sent, sentName, sentValue, sentAge, jar, randOK, mints, minted, provErr, creates, createdSid, regens, regenOld, regenNew
  maypanic
  ensures_panic !randOK
  ensures fresh: mints == old(mints) + 1
  ensures session: err == nil ==> sess != nil && sidOf(sess) == minted
  ensures moved: regens != old(regens) ==> regens == old(regens) + 1 && regenNew == minted && hasCookie(r, old(jar), config.CookieName) && regenOld == textOf(sidValue(r, old(jar), config.CookieName)) && sealedOK(sidValue(r, old(jar), config.CookieName), secretOf(m.provider))
  ensures created: creates != old(creates) ==> creates == old(creates) + 1 && createdSid == minted
  ensures done: regens != old(regens) || creates != old(creates)
  ensures cookie: err == nil ==> sent == old(sent) + 1 && sentName == config.CookieName && sentValue == sealed(secretOf(m.provider), minted, nanos(createdAt))
  ensures quiet: err != nil ==> sent == old(sent) && jar == old(jar)
  ensures reported: err == provErr

func (*SessionManager).Destroy(m, config, w, r) (err)
  props P16
  new
  requires nn: m != nil && m.provider != nil && config != nil && r != nil && w != nil
  modifies macKey, macMsg, clock, sent, sentName, sentValue, sentAge, destroys, destroyedSid
  ensures named: destroys != old(destroys) ==> destroys == old(destroys) + 1 && sent == old(sent) + 1 && sentName == config.CookieName && sentAge == 0-1 && sentValue == "" && hasCookie(r, jar, config.CookieName) && destroyedSid == textOf(sidValue(r, jar, config.CookieName)) && sealedOK(sidValue(r, jar, config.CookieName), secretOf(m.provider))
  ensures unnamed: destroys == old(destroys) ==> sent == old(sent) && !named(r, jar, config.CookieName, m.provider, clock)
  ensures ok: err == nil

# ---- the provider over a cache ----
extern (github.com/wujiu2020/strip/utils.StrTo).Bytes(s) (b)
  ensures bytesstr(b) == s && fresh(b)
# the session sess stands for the entry sid
pure func stands(sess SessionStore, p *sessProvide, sid string) bool = is(sess, *sessData) && let m = as(sess, *sessData) in wfS(m) && m.store.Sid == sid && m.provider == p && !m.closed

func (*sessProvide).create(p, sid, params) (sess)
  props P16
  new
  requires wf: wfP(p)
  ensures made: stands(sess, p, sid) && fresh(as(sess, *sessData)) && as(sess, *sessData).changed == (len(params) > 0)
  ensures empty: len(params) == 0 || params[0] == nil ==> forall k string :: {has(sv(as(sess, *sessData)), k)} !has(sv(as(sess, *sessData)), k)
  ensures given: len(params) > 0 && params[0] != nil ==> sv(as(sess, *sessData)) == params[0]

func (*sessProvide).Create(p, sid, params) (sess, err)
  props P16
  new
  requires wf: wfP(p)
  ensures made: err == nil && stands(sess, p, sid) && fresh(as(sess, *sessData)) && as(sess, *sessData).changed == (len(params) > 0)
  ensures empty: len(params) == 0 || params[0] == nil ==> forall k string :: {has(sv(as(sess, *sessData)), k)} !has(sv(as(sess, *sessData)), k)
  ensures given: len(params) > 0 && params[0] != nil ==> sv(as(sess, *sessData)) == params[0]

func (*sessProvide).Read(p, sid) (sess, err)
  props P16
  new
  requires wf: wfP(p)
  requires distinct: ErrNotFoundSession != nil && ErrNotFoundSession != caches.ErrMissedKey && caches.ErrMissedKey != nil
  modifies lastErr, unmIn, unmOut, unmErr
  ensures stored: err == nil ==> select(stored, sid) && unmIn == select(storedVal, sid)
  ensures session: err == nil ==> stands(sess, p, sid) && !as(sess, *sessData).changed && (unmOut != nil ==> sv(as(sess, *sessData)) == unmOut)
  ensures missing: lastErr == caches.ErrMissedKey ==> err == ErrNotFoundSession && !select(stored, sid)
  ensures reported: lastErr != nil && lastErr != caches.ErrMissedKey ==> err == lastErr
  ensures undecoded: lastErr == nil ==> err == unmErr

func (*sessProvide).Regenerate(p, old1, sid) (sess, err)
  props P16
  new
  requires wf: wfP(p)
  requires distinct: ErrNotFoundSession != nil && ErrNotFoundSession != caches.ErrMissedKey && caches.ErrMissedKey != nil
  requires other: old1 != sid
  modifies lastErr, unmIn, unmOut, unmErr, stored, storedVal, saves, setVal, setLife
  ensures moved: err == nil ==> select(stored, sid) && select(storedVal, sid) == select(old(storedVal), old1) && select(old(stored), old1) && !select(stored, old1)
  ensures session: err == nil ==> stands(sess, p, sid) && unmIn == select(old(storedVal), old1) && (unmOut != nil ==> sv(as(sess, *sessData)) == unmOut)
  ensures life: err == nil ==> setLife == p.config.SessionExpire
  ensures others: forall k string :: {select(stored, k)} k != sid && k != old1 ==> select(stored, k) == select(old(stored), k) && select(storedVal, k) == select(old(storedVal), k)
  ensures missing: !select(old(stored), old1) ==> err != nil && stored == old(stored)
  # the data is never lost: it stays under the old id until it is stored under the new one
  ensures kept: select(old(stored), old1) ==> select(stored, old1) && select(storedVal, old1) == select(old(storedVal), old1) || select(stored, sid) && select(storedVal, sid) == select(old(storedVal), old1)

func (*sessProvide).Config(p) (c)
  props P16
  new
  requires nn: p != nil
  ensures copy: c != nil && fresh(c) && c.SecretKey == p.config.SecretKey && c.SessionExpire == p.config.SessionExpire
