From 7f2747b91922f837ee8572d1c1a60266b6b6c861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 01/46] fix: Flush commits the saved status and runs the before
 hooks

---
 response.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/response.go b/response.go
index 3ba24d6..9c712e8 100755
--- a/response.go
+++ b/response.go
@@ -116,6 +116,9 @@ func (rw *responseWriter) CloseNotify() <-chan bool {
 func (rw *responseWriter) Flush() {
 	flusher, ok := rw.ResponseWriter.(http.Flusher)
 	if ok {
+		// the underlying Flush sends a 200 header when none has been sent,
+		// commit the saved status code and run the before funcs first
+		rw.Write(nil)
 		flusher.Flush()
 	}
 }
-- 
2.43.0


From d495b21675b9171a92d592e2b1071a150e096586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 02/46] fix: method handlers derived from a shared one keep
 their own filters

---
 router_method.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/router_method.go b/router_method.go
index 18caec8..ecd66dd 100755
--- a/router_method.go
+++ b/router_method.go
@@ -49,20 +49,25 @@ func (h methodParams) Action(name string) MethodHandler {
 	// ensure controller has action
 	rc := h[0].(routerController)
 	rc.ensureHasAction(name)
-	h[0] = rc
 
-	h = append(h, action(name))
+	h = h.with(action(name))
+	h[0] = rc
 	return h
 }
 
 func (h methodParams) Filter(exempts ...interface{}) MethodHandler {
-	h = append(h, Filter(exempts...))
-	return h
+	return h.with(Filter(exempts...))
 }
 
 func (h methodParams) Exempt(exempts ...interface{}) MethodHandler {
-	h = append(h, Exempt(exempts...))
-	return h
+	return h.with(Exempt(exempts...))
+}
+
+// with returns a copy extended by v, handlers derived from the same one share nothing
+func (h methodParams) with(v Handler) methodParams {
+	res := make(methodParams, len(h), len(h)+1)
+	copy(res, h)
+	return append(res, v)
 }
 
 func Get(c Handler) MethodHandler {
-- 
2.43.0


From 5845435a44a0236f6a09b20d8827a9444103ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:47 +0000
Subject: [PATCH 03/46] fix: providers are keyed by their exact type, not by a
 name that distinct types share

---
 inject/inject.go          | 16 ++++++++--------
 inject/inject_provider.go | 26 +++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/inject/inject.go b/inject/inject.go
index 8930c7d..2a5dd68 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -43,25 +43,25 @@ type TypeProvider interface {
 }
 
 type provInvoker interface {
-	get(string) *providerInfo
+	get(provName) *providerInfo
 }
 
-type invokeStatus map[string]bool
+type invokeStatus map[provName]bool
 
-func (m invokeStatus) has(name string) bool {
+func (m invokeStatus) has(name provName) bool {
 	_, ok := m[name]
 	return ok
 }
 
-func (m invokeStatus) set(name string) {
+func (m invokeStatus) set(name provName) {
 	m[name] = false
 }
 
-type invokeCache map[string][]reflect.Value
+type invokeCache map[provName][]reflect.Value
 
 type injector struct {
 	// use for store provider
-	values map[string]*providerInfo
+	values map[provName]*providerInfo
 
 	// user for cache provider instance for current inject
 	caches invokeCache
@@ -71,7 +71,7 @@ type injector struct {
 
 func New() Injector {
 	return &injector{
-		values: make(map[string]*providerInfo),
+		values: make(map[provName]*providerInfo),
 		caches: make(invokeCache),
 	}
 }
@@ -265,7 +265,7 @@ func (inj *injector) apply(ptrStruct interface{}, status invokeStatus, level int
 	return nil
 }
 
-func (inj *injector) get(name string) *providerInfo {
+func (inj *injector) get(name provName) *providerInfo {
 	// get provider in current injector
 	if prov := inj.values[name]; prov != nil {
 		return prov
diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index bf23987..64a3a7a 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -11,11 +11,27 @@ type Provide []Provider
 
 type Dep map[int]string
 
-type providerInfo struct {
+// provName identifies a provider by its exact type and name
+type provName struct {
+	typ  reflect.Type
 	name string
+}
+
+func (n provName) String() string {
+	if n.typ == nil {
+		return n.name
+	}
+	if n.typ.Name() == "" {
+		return n.typ.String() + ":" + n.name
+	}
+	return n.typ.PkgPath() + ":" + n.typ.Name() + ":" + n.name
+}
+
+type providerInfo struct {
+	name provName
 
 	// depends of this provider
-	deps []string
+	deps []provName
 
 	// type of injerct value
 	typ reflect.Type
@@ -82,7 +98,7 @@ func newProvider(obj Object) (info *providerInfo) {
 	}
 
 	numIn := info.ptyp.NumIn()
-	deps := make([]string, 0, numIn)
+	deps := make([]provName, 0, numIn)
 
 	for i := 0; i < numIn; i++ {
 		typ := indirectType(info.ptyp.In(i))
@@ -184,8 +200,8 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 }
 
 // create unique name of type
-func createName(typ reflect.Type, name string) string {
-	return typ.PkgPath() + ":" + typ.Name() + ":" + name
+func createName(typ reflect.Type, name string) provName {
+	return provName{typ: typ, name: name}
 }
 
 // reflect indirect of reflect.Value
-- 
2.43.0


From 7b467155eb273d2fdf399fac75a63a751ca95bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:49 +0000
Subject: [PATCH 04/46] fix: invoking a function neither uses nor drops the
 cached value of its result type

---
 inject/inject.go          | 8 +++++---
 inject/inject_provider.go | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/inject/inject.go b/inject/inject.go
index 2a5dd68..36cf112 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -172,14 +172,16 @@ func (inj *injector) Invoke(prov interface{}) ([]reflect.Value, error) {
 	status := make(invokeStatus)
 
 	info := newProvider(Object{Value: prov})
+
+	// it is not a registered provider: without a name its result is neither
+	// taken from the cached value of its result type nor replacing that
+	info.name = provName{}
+
 	out, err := info.invoke(inj, status)
 
 	if err != nil {
 		return nil, fmt.Errorf("provider invoke err: %v", err)
 	}
-
-	// remove exists cache of provider
-	delete(inj.caches, info.name)
 	return out, nil
 }
 
diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index 64a3a7a..975cc51 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -193,7 +193,7 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 
 	// invoke provider function
 	out = p.pval.Call(in)
-	if p.ptyp.NumOut() > 0 {
+	if p.ptyp.NumOut() > 0 && p.name.typ != nil {
 		inj.caches[p.name] = out
 	}
 	return
-- 
2.43.0


From 1d400d3e23476aefa4e2dfeecc9e6ca44091d709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:51 +0000
Subject: [PATCH 05/46] fix: a dependency cycle is detected for providers that
 were built before

---
 inject/inject_provider.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index 975cc51..18f9033 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -3,7 +3,6 @@ package inject
 import (
 	"fmt"
 	"reflect"
-	"sync/atomic"
 )
 
 type Provider interface{}
@@ -48,8 +47,6 @@ type providerInfo struct {
 
 	// reflect value of provider value
 	val reflect.Value
-
-	done uint32
 }
 
 func newProvider(obj Object) (info *providerInfo) {
@@ -146,14 +143,9 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 		return
 	}
 
-	defer func() {
-		if err == nil {
-			atomic.AddUint32(&p.done, 1)
-		}
-	}()
-
 	// on process
 	status.set(p.name)
+	defer delete(status, p.name)
 
 	if p.value != nil {
 		out = []reflect.Value{p.val}
@@ -169,7 +161,7 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 		}
 
 		// avoid cycle dependencies
-		if atomic.LoadUint32(&prov.done) == 0 && status.has(prov.name) {
+		if status.has(prov.name) {
 			err = fmt.Errorf("provider cycle dependencies of dep <%s> by %v", dep, p.ptyp)
 			return
 		}
-- 
2.43.0


From 0a82df3558ca06f6fa9a70cb4e6d8015293af6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:53 +0000
Subject: [PATCH 06/46] fix: a provided value is converted for the parameter
 instead of panicking in the call

---
 inject/inject_provider.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index 18f9033..5d2b4f0 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -153,7 +153,7 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 	}
 
 	in := make([]reflect.Value, 0, len(p.deps))
-	for _, dep := range p.deps {
+	for i, dep := range p.deps {
 		prov := inj.get(dep)
 		if prov == nil {
 			err = fmt.Errorf("provider not found of dep <%s> by %v", dep, p.ptyp)
@@ -180,7 +180,13 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 			}
 		}
 
-		in = append(in, ot[0])
+		// same conversion as Find: a value may be provided through a pointer
+		arg := reflect.New(p.ptyp.In(i)).Elem()
+		if err = assignValue(ot[0], arg); err != nil {
+			return
+		}
+
+		in = append(in, arg)
 	}
 
 	// invoke provider function
-- 
2.43.0


From f546a678564318af80b2da5efd06f1e9c560c9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 07/46] fix: a path that only leads to other routes does not
 hide a matching param route

---
 router.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/router.go b/router.go
index 06636af..2394446 100755
--- a/router.go
+++ b/router.go
@@ -239,6 +239,11 @@ func (r *route) match(nextPaths []string, params *paramList) (rt *route) {
 				*params = append(*params, newParams...)
 			}
 		}
+
+		// a node where no route ends does not hide the param routes
+		if rt != nil && !rt.isEnd {
+			rt = nil
+		}
 	}
 
 	// second match paramRoutes
-- 
2.43.0


From c308f9b308949a71e1f6d29c916e2e996f6dde2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 08/46] fix: HEAD uses the GET action in force, also when GET
 is registered again

---
 router.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/router.go b/router.go
index 2394446..8a0b619 100755
--- a/router.go
+++ b/router.go
@@ -150,6 +150,10 @@ func (r *routeRoot) handle(ctx Context, rw http.ResponseWriter, req *http.Reques
 	}
 
 	routeAction := route.action[method]
+	if routeAction == nil && method == HEAD {
+		// default use GET route for HEAD method
+		routeAction = route.action[GET]
+	}
 	actionFunc := method.action()
 
 	if routeAction != nil {
@@ -329,11 +333,6 @@ func (r *route) configRoutes(args routeArgs) {
 		r.action[method] = newRouteAction(mArgs.ctroler, act, actFilters)
 	}
 
-	// default use GET route for HEAD method
-	if r.action[HEAD] == nil && r.action[GET] != nil {
-		r.action[HEAD] = r.action[GET]
-	}
-
 	if allMethod != nil {
 		act := string(allArgs.action)
 		if act == "" && !allArgs.ctroler.isFunc() {
-- 
2.43.0


From 992d8bc1a8b890232ea32f09abf1a97103be96ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 09/46] fix: an action is called with its own arguments, not
 those of the controller's checked action

---
 router_action.go | 36 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/router_action.go b/router_action.go
index 6337b31..17d9346 100755
--- a/router_action.go
+++ b/router_action.go
@@ -14,10 +14,6 @@ type routerController struct {
 	typ   reflect.Type
 	kind  reflect.Kind
 	pTyp  reflect.Type
-
-	// struct action
-	actionIn  []reflect.Type
-	actionOut []reflect.Type
 }
 
 func makeRouterController(value interface{}) (rc routerController) {
@@ -53,24 +49,12 @@ func (r *routerController) ensureHasAction(action string) {
 
 	m := reflect.New(r.typ).MethodByName(action)
 	if m.IsValid() {
-		r.cacheStructAction(m.Type())
 		return
 	}
 
 	panic(fmt.Sprintf("controller action `%s.%s` not exists", r.typ, action))
 }
 
-func (r *routerController) cacheStructAction(typ reflect.Type) {
-	r.actionIn = make([]reflect.Type, typ.NumIn())
-	for i := 0; i < typ.NumIn(); i++ {
-		r.actionIn[i] = typ.In(i)
-	}
-	r.actionOut = make([]reflect.Type, typ.NumOut())
-	for i := 0; i < typ.NumOut(); i++ {
-		r.actionOut[i] = typ.Out(i)
-	}
-}
-
 func (r *routerController) actionFuncExists(action string) bool {
 	_, ok := r.pTyp.MethodByName(action)
 	return ok
@@ -111,11 +95,18 @@ func (r *routerAction) wrapHandle(route *route, params paramList, action string)
 }
 
 func (r *routerAction) callStructFunc(ctx Context, params paramList, action string) []reflect.Value {
-	actionIn := r.controller.actionIn
+	if !r.controller.actionFuncExists(action) {
+		panic(fmt.Sprintf("not found action func: %s", action))
+	}
 
-	in := make([]reflect.Value, 0, len(actionIn))
-	for i := 0; i < len(actionIn); i++ {
-		typ := actionIn[i]
+	newStruct := reflect.New(r.controller.typ)
+
+	// one controller may answer with several actions, each with its own arguments
+	actionTyp := newStruct.MethodByName(action).Type()
+
+	in := make([]reflect.Value, 0, actionTyp.NumIn())
+	for i := 0; i < actionTyp.NumIn(); i++ {
+		typ := actionTyp.In(i)
 		value := reflect.Value{}
 
 		if len(params) > i {
@@ -133,11 +124,6 @@ func (r *routerAction) callStructFunc(ctx Context, params paramList, action stri
 		in = append(in, value)
 	}
 
-	if !r.controller.actionFuncExists(action) {
-		panic(fmt.Sprintf("not found action func: %s", action))
-	}
-
-	newStruct := reflect.New(r.controller.typ)
 	if val := indirectValue(r.controller.val); val.IsValid() {
 		newStruct.Elem().Set(val)
 	}
-- 
2.43.0


From 823f7dba0b42c3c3f94697de612865ce245431f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 10/46] fix: a read error at the start of a configuration
 source is returned

---
 config/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config/config.go b/config/config.go
index d2d5e8e..6b862a7 100755
--- a/config/config.go
+++ b/config/config.go
@@ -158,6 +158,9 @@ func (c *config) loadFromReader(r io.Reader) error {
 	// Handle BOM-UTF8.
 	// http://en.wikipedia.org/wiki/Byte_order_mark#Representations_of_byte_order_marks_by_encoding
 	mask, err := buf.Peek(3)
+	if err != nil && err != io.EOF {
+		return err
+	}
 	if err == nil && len(mask) >= 3 &&
 		mask[0] == 239 && mask[1] == 187 && mask[2] == 191 {
 		buf.Read(mask)
-- 
2.43.0


From 0b8c1864bd2317ffa8bcbfc98df929ae73df6e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 11/46] fix: Config.Find uses the default also when no
 configuration is imported

---
 config.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/config.go b/config.go
index 8b41b67..2a04595 100755
--- a/config.go
+++ b/config.go
@@ -59,14 +59,14 @@ func newConfig() *Config {
 }
 
 func (c *Config) Find(name string, defaultValue ...string) string {
+	value := ""
 	if c.Configer != nil {
-		value := c.Configer.Find(name)
-		if value == "" && len(defaultValue) > 0 {
-			return defaultValue[0]
-		}
-		return value
+		value = c.Configer.Find(name)
+	}
+	if value == "" && len(defaultValue) > 0 {
+		return defaultValue[0]
 	}
-	return ""
+	return value
 }
 
 func (c *Config) Bind(ptr interface{}, name string) {
-- 
2.43.0


From a061a97dd3e041fd9bcda5fb5468c319f709a072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 12/46] fix: text converts to uint at its full width

---
 app_util.go                 | 2 +-
 utils/converter_value_to.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/app_util.go b/app_util.go
index 3ce03b3..c3a067e 100755
--- a/app_util.go
+++ b/app_util.go
@@ -91,7 +91,7 @@ func (f StrTo) Int64() (int64, error) {
 
 // string to uint
 func (f StrTo) Uint() (uint, error) {
-	v, err := strconv.ParseUint(f.String(), 10, 32)
+	v, err := strconv.ParseUint(f.String(), 10, 64)
 	if err != nil {
 		return 0, err
 	}
diff --git a/utils/converter_value_to.go b/utils/converter_value_to.go
index 48656f4..b0ea893 100755
--- a/utils/converter_value_to.go
+++ b/utils/converter_value_to.go
@@ -80,7 +80,7 @@ func (v *Value) Uint() (uint, error) {
 	if ret, ok := v.value.(uint); ok {
 		return ret, nil
 	}
-	value, err := strconv.ParseUint(v.String(), 10, 32)
+	value, err := strconv.ParseUint(v.String(), 10, 64)
 	return uint(value), err
 }
 
-- 
2.43.0


From bf1cd09dcc12f78d999f82e4d702a4ebaecab546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 13/46] fix: converting text for a slice of an unsupported
 element type does not panic

---
 app_util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app_util.go b/app_util.go
index c3a067e..275889b 100755
--- a/app_util.go
+++ b/app_util.go
@@ -241,6 +241,8 @@ func convertStringAsType(str string, typ reflect.Type) (value reflect.Value) {
 				}
 			}
 			v = final
+		default:
+			return
 		}
 	default:
 		return
-- 
2.43.0


From 458684e590ea716710a8fc49873bc2050b779fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 14/46] fix: text converts for a target of any pointer type, as
 action argument and configuration field

---
 app_util.go      | 10 ++++++++++
 config.go        |  6 +-----
 router_action.go |  2 ++
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/app_util.go b/app_util.go
index 275889b..f3ed2bd 100755
--- a/app_util.go
+++ b/app_util.go
@@ -255,6 +255,16 @@ func convertStringAsType(str string, typ reflect.Type) (value reflect.Value) {
 	return
 }
 
+// wrap a value in the pointers of its target type
+func pointerTo(value reflect.Value, typ reflect.Type) reflect.Value {
+	if typ.Kind() != reflect.Ptr {
+		return value
+	}
+	ptr := reflect.New(typ.Elem())
+	ptr.Elem().Set(pointerTo(value, typ.Elem()))
+	return ptr
+}
+
 var (
 	dunno     = []byte("???")
 	centerDot = []byte("·")
diff --git a/config.go b/config.go
index 2a04595..28537d3 100755
--- a/config.go
+++ b/config.go
@@ -84,11 +84,7 @@ func (c *Config) Bind(ptr interface{}, name string) {
 		elm := val.Elem()
 		val = convertStringAsType(value, elm.Type())
 		if elm.CanSet() && val.IsValid() {
-			if elm.Kind() == reflect.Ptr {
-				elm.Set(reflect.New(elm.Type().Elem()))
-				elm = elm.Elem()
-			}
-			elm.Set(val)
+			elm.Set(pointerTo(val, elm.Type()))
 		}
 	}
 }
diff --git a/router_action.go b/router_action.go
index 17d9346..aac2e30 100755
--- a/router_action.go
+++ b/router_action.go
@@ -119,6 +119,8 @@ func (r *routerAction) callStructFunc(ctx Context, params paramList, action stri
 
 		if !value.IsValid() {
 			value = reflect.New(typ).Elem()
+		} else {
+			value = pointerTo(value, typ)
 		}
 
 		in = append(in, value)
-- 
2.43.0


From 61792125ba7157929c673a22ce61652b327747cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 15/46] fix: params: numbers bind at the width of their target
 type

---
 params/binder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/params/binder.go b/params/binder.go
index 3c5581f..d7f790a 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -66,7 +66,7 @@ var (
 			if len(val) == 0 {
 				return reflect.Zero(typ)
 			}
-			intValue, err := strconv.ParseInt(val, 10, 64)
+			intValue, err := strconv.ParseInt(val, 10, typ.Bits())
 			if err != nil {
 				return reflect.Zero(typ)
 			}
@@ -81,7 +81,7 @@ var (
 			if len(val) == 0 {
 				return reflect.Zero(typ)
 			}
-			uintValue, err := strconv.ParseUint(val, 10, 64)
+			uintValue, err := strconv.ParseUint(val, 10, typ.Bits())
 			if err != nil {
 				return reflect.Zero(typ)
 			}
@@ -96,7 +96,7 @@ var (
 			if len(val) == 0 {
 				return reflect.Zero(typ)
 			}
-			floatValue, err := strconv.ParseFloat(val, 64)
+			floatValue, err := strconv.ParseFloat(val, typ.Bits())
 			if err != nil {
 				return reflect.Zero(typ)
 			}
-- 
2.43.0


From f2e8d34a2b2d94cb837010e5ae431d94be15bfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 16/46] fix: params: ignore slice elements whose index is
 malformed or huge

---
 params/binder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index d7f790a..bb87ed1 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -61,6 +61,9 @@ var (
 	// automatically attempted when binding a time.Time.
 	TimeFormats = []string{}
 
+	// Slice elements with a larger index, or with an index that is not a number, are ignored.
+	MaxSliceIndex = 10000
+
 	IntBinder = Binder{
 		Bind: ValueBinder(func(val string, typ reflect.Type) reflect.Value {
 			if len(val) == 0 {
@@ -231,7 +234,11 @@ func bindSlice(params *Params, name string, typ reflect.Type) reflect.Value {
 		index := -1
 		leftBracket, rightBracket := len(name), strings.Index(key[len(name):], "]")+len(name)
 		if rightBracket > leftBracket+1 {
-			index, _ = strconv.Atoi(key[leftBracket+1 : rightBracket])
+			var err error
+			index, err = strconv.Atoi(key[leftBracket+1 : rightBracket])
+			if err != nil || index < 0 || index > MaxSliceIndex {
+				return
+			}
 		}
 		subKeyIndex := rightBracket + 1
 
-- 
2.43.0


From c4c9f96db73f0d5c7bb1a7ace12ead73961442c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 17/46] fix: params: a map entry without values does not panic

---
 params/binder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index bb87ed1..42da059 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -356,7 +356,7 @@ func bindMap(params *Params, name string, typ reflect.Type) reflect.Value {
 		}
 	} else {
 		for paramName, values := range params.Values {
-			if !strings.HasPrefix(paramName, name+"[") || paramName[len(paramName)-1] != ']' {
+			if len(values) == 0 || !strings.HasPrefix(paramName, name+"[") || paramName[len(paramName)-1] != ']' {
 				continue
 			}
 
-- 
2.43.0


From 49b70c3e504d08b13629043e2e8ad6e9e9b901a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 18/46] fix: params: numbers in a JSON map parameter keep their
 digits

---
 params/binder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index 42da059..cb572ec 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -350,7 +350,11 @@ func bindMap(params *Params, name string, typ reflect.Type) reflect.Value {
 	)
 	if v := params.Values.Get(name); v != "" {
 		raw := make(map[string]interface{})
-		_ = json.Unmarshal([]byte(v), &raw)
+		if json.Valid([]byte(v)) {
+			dec := json.NewDecoder(strings.NewReader(v))
+			dec.UseNumber() // keep numbers as they are written
+			_ = dec.Decode(&raw)
+		}
 		for key, value := range raw {
 			result.SetMapIndex(BindValue(key, keyType), BindValue(fmt.Sprint(value), valueType))
 		}
-- 
2.43.0


From d56f0efec4d3ed4a270786838b73f49984887c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 19/46] fix: params: a field promoted through a nil embedded
 pointer does not panic

---
 params/binder.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/params/binder.go b/params/binder.go
index cb572ec..b752d59 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -308,6 +308,24 @@ func nextKey(key string) string {
 	return key[:fieldLen]
 }
 
+// fieldByIndex finds a possibly promoted field, allocating embedded pointers on the way.
+// It returns the zero Value when an embedded pointer can not be set.
+func fieldByIndex(v reflect.Value, index []int) reflect.Value {
+	for _, i := range index {
+		if v.Kind() == reflect.Ptr {
+			if v.IsNil() {
+				if !v.CanSet() {
+					return reflect.Value{}
+				}
+				v.Set(reflect.New(v.Type().Elem()))
+			}
+			v = v.Elem()
+		}
+		v = v.Field(i)
+	}
+	return v
+}
+
 func bindStruct(params *Params, name string, typ reflect.Type) reflect.Value {
 	result := reflect.New(typ).Elem()
 	fieldValues := make(map[string]reflect.Value)
@@ -324,10 +342,11 @@ func bindStruct(params *Params, name string, typ reflect.Type) reflect.Value {
 
 		if _, ok := fieldValues[fieldName]; !ok {
 			// Time to bind this field.  Get it and make sure we can set it.
-			fieldValue := result.FieldByName(fieldName)
-			if !fieldValue.IsValid() {
+			field, ok := typ.FieldByName(fieldName)
+			if !ok {
 				continue
 			}
+			fieldValue := fieldByIndex(result, field.Index)
 			if !fieldValue.CanSet() {
 				continue
 			}
-- 
2.43.0


From 3282a93317d9cdc4ea406db58be13dae7a408e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 20/46] fix: params: binding into embedded struct pointers
 neither panics nor loses values

---
 params/params.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/params/params.go b/params/params.go
index 9d98e45..0ef2aa7 100755
--- a/params/params.go
+++ b/params/params.go
@@ -169,6 +169,10 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 
 				var newField reflect.Value
 				if field.IsNil() {
+					if !field.CanSet() {
+						// a nil pointer to an unexported struct can not be set
+						continue
+					}
 					newField = reflect.New(ftyp.Type.Elem())
 				} else {
 					newField = field
@@ -184,12 +188,17 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 					pointerMap[pointer] = true
 				}
 				if ok := p.bindValuesToStruct(inf, pointerMap); ok {
-					field.Set(newField)
+					exits = true
+					if field.CanSet() {
+						field.Set(newField)
+					}
 				}
 
 			} else if field.Kind() == reflect.Struct {
 				inf = field
-				p.bindValuesToStruct(inf, pointerMap)
+				if p.bindValuesToStruct(inf, pointerMap) {
+					exits = true
+				}
 			} else {
 				continue
 			}
-- 
2.43.0


From 42d0640959a77d9a4e774e56d9d1564f2c5e6d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 21/46] fix: params: the form view holds the body's values
 only, not the query again

---
 params/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/params/params.go b/params/params.go
index 0ef2aa7..8bc90c8 100755
--- a/params/params.go
+++ b/params/params.go
@@ -60,7 +60,7 @@ func ParseParams(params *Params, maxMemory int64) error {
 		if err := req.ParseForm(); err != nil {
 			return err
 		} else {
-			params.Form = req.Form
+			params.Form = req.PostForm
 		}
 
 	case "multipart/form-data":
-- 
2.43.0


From ad2db57aae15ea7c0329e1226bcd2bce29c23d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 22/46] fix: sessions: the cookie signature fixes where the
 text ends and the time begins

---
 sessions/utils.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sessions/utils.go b/sessions/utils.go
index 2bf3d3b..6bd87f4 100755
--- a/sessions/utils.go
+++ b/sessions/utils.go
@@ -25,7 +25,10 @@ func CreateSid() (sid string) {
 }
 
 func DecodeSecureValue(value string, secretKey string) (raw string, createdAt time.Time, ok bool) {
-	rawBytes, _ := base64.URLEncoding.DecodeString(value)
+	rawBytes, err := base64.URLEncoding.DecodeString(value)
+	if err != nil {
+		return
+	}
 	value = string(rawBytes)
 
 	parts := strings.SplitN(value, COOKIE_VALUE_SPLIT, 3)
@@ -41,18 +44,18 @@ func DecodeSecureValue(value string, secretKey string) (raw string, createdAt ti
 		return
 	}
 
-	vTime, _ := strconv.ParseInt(vCreated, 10, 64)
-	if vTime <= 0 {
+	vTime, err := strconv.ParseInt(vCreated, 10, 64)
+	if err != nil || vTime <= 0 || strconv.FormatInt(vTime, 10) != vCreated {
 		return
 	}
 
-	vRaw, err := url.QueryUnescape(vRaw)
+	vRaw, err = url.QueryUnescape(vRaw)
 	if err != nil {
 		return
 	}
 
 	h := hmac.New(sha1.New, []byte(secretKey))
-	_, err = h.Write([]byte(vRaw + vCreated))
+	_, err = h.Write([]byte(vRaw + COOKIE_VALUE_SPLIT + vCreated))
 	if err != nil {
 		return
 	}
@@ -75,7 +78,7 @@ func EncodeSecureValue(raw string, secretKey string, createdAt time.Time) (value
 	timeValue := strconv.FormatInt(createdAt.UnixNano(), 10)
 
 	h := hmac.New(sha1.New, []byte(secretKey))
-	if _, err := h.Write([]byte(raw + timeValue)); err != nil {
+	if _, err := h.Write([]byte(raw + COOKIE_VALUE_SPLIT + timeValue)); err != nil {
 		return
 	}
 
-- 
2.43.0


From 776a4408b3c15ea419c6369b60fb9eb74fdbce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 23/46] fix: sessions: values that could not be saved are saved
 by the next flush

---
 sessions/provider.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sessions/provider.go b/sessions/provider.go
index 6f3bd23..b5c40ff 100755
--- a/sessions/provider.go
+++ b/sessions/provider.go
@@ -113,8 +113,11 @@ func (m *sessData) Flush() error {
 		return nil
 	}
 
-	m.changed = false
-	return m.provider.save(m.store)
+	err := m.provider.save(m.store)
+	if err == nil {
+		m.changed = false
+	}
+	return err
 }
 
 // destory session values in store
-- 
2.43.0


From a58a475171e815bd63337855e07a057a108fd155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 24/46] fix: sessions: regenerating reports when the old
 session could not be removed

---
 sessions/provider.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sessions/provider.go b/sessions/provider.go
index b5c40ff..91e4559 100755
--- a/sessions/provider.go
+++ b/sessions/provider.go
@@ -186,7 +186,10 @@ func (p *sessProvide) Regenerate(old string, sid string) (sess SessionStore, err
 		return
 	}
 
-	p.Destroy(old)
+	err = p.Destroy(old)
+	if err != nil && err != caches.ErrMissedKey {
+		return
+	}
 	return p.Read(sid)
 }
 
-- 
2.43.0


From 5c44b5021f0b117cc0b44d67e3bac622cc935746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 25/46] fix: sessions: regenerating returns the provider's
 error instead of crashing

---
 sessions/manager.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sessions/manager.go b/sessions/manager.go
index 788bbec..95dfe36 100755
--- a/sessions/manager.go
+++ b/sessions/manager.go
@@ -116,9 +116,9 @@ func (m *SessionManager) Regenerate(config *CookieConfig, w http.ResponseWriter,
 	case ErrNotFoundSession:
 		// 未找到时创建新的
 		sess, err = m.createSession(sid, params...)
-		if err != nil {
-			return
-		}
+	}
+	if err != nil {
+		return
 	}
 
 	createdAt = time.Now()
-- 
2.43.0


From 5c81e366c9f296ebf4f8a42532aeeb8ac0c4545d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 26/46] fix: sessions: a remember cookie without its two parts
 is not recognised

---
 sessions/remember.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sessions/remember.go b/sessions/remember.go
index 490ae59..a0faef5 100755
--- a/sessions/remember.go
+++ b/sessions/remember.go
@@ -27,6 +27,7 @@ func (m *SessionManager) HasRemember(config *CookieConfig, r *http.Request) (psk
 
 	parts := strings.SplitN(value, COOKIE_VALUE_PARTS_SPLIT, 2)
 	if len(parts) != 2 {
+		ok = false
 		return
 	}
 
-- 
2.43.0


From ef964f431c1a1090c5bccf5ee947d6324e976d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 27/46] fix: random tokens over an alphabet of 256 bytes or
 more panicked or missed letters

---
 utils/rand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/rand.go b/utils/rand.go
index a1511ec..c02385f 100755
--- a/utils/rand.go
+++ b/utils/rand.go
@@ -26,7 +26,7 @@ func RandomCreateBytes(n int, alphabets ...byte) ([]byte, error) {
 		return nil, err
 	}
 	for i, b := range bytes {
-		bytes[i] = alphabets[b%byte(len(alphabets))]
+		bytes[i] = alphabets[int(b)%len(alphabets)]
 	}
 	return bytes, nil
 }
-- 
2.43.0


From a91463cb4bd791d02e079f88a6951873e9ca3585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 28/46] fix: touching a redis entry with an unlimited timeout
 deleted it

---
 caches/provider_redis.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/caches/provider_redis.go b/caches/provider_redis.go
index eff26b0..352d62e 100755
--- a/caches/provider_redis.go
+++ b/caches/provider_redis.go
@@ -71,7 +71,13 @@ func (p *redisProvide) Touch(key string, params ...int) (err error) {
 	}
 	defer p.Client.Put(conn)
 
-	resp := conn.Cmd("EXPIRE", key, timeout.Seconds())
+	var resp *redis.Resp
+	if timeout > 0 {
+		resp = conn.Cmd("EXPIRE", key, timeout.Seconds())
+	} else if resp = conn.Cmd("PERSIST", key); resp.Err == nil {
+		// PERSIST also answers 0 for a key that never expires
+		resp = conn.Cmd("EXISTS", key)
+	}
 	touched, err := resp.Int()
 	if err != nil {
 		err = p.handleError(err)
-- 
2.43.0


From 76c58f308c57711b66dfd7064981902d25b23d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 29/46] fix: memcache lifetimes over 30 days were taken as
 times long past

---
 caches/provider_memcache.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/caches/provider_memcache.go b/caches/provider_memcache.go
index 07e6b7b..9c1d015 100755
--- a/caches/provider_memcache.go
+++ b/caches/provider_memcache.go
@@ -1,6 +1,9 @@
 package caches
 
 import (
+	"math"
+	"time"
+
 	"github.com/bradfitz/gomemcache/memcache"
 	"github.com/wujiu2020/strip/utils"
 )
@@ -35,19 +38,17 @@ func (p *mcProvide) Get(key string) (value utils.StrTo, err error) {
 
 func (p *mcProvide) Set(key string, val interface{}, params ...int) (err error) {
 	key = p.KeyPrefix + key
-	timeout := getTimeoutDur(params...)
 	err = p.Client.Set(&memcache.Item{
 		Key:        key,
 		Value:      []byte(utils.ToStr(val)),
-		Expiration: int32(timeout.Seconds()),
+		Expiration: p.expiration(params...),
 	})
 	return
 }
 
 func (p *mcProvide) Touch(key string, params ...int) (err error) {
 	key = p.KeyPrefix + key
-	timeout := getTimeoutDur(params...)
-	err = p.Client.Touch(key, int32(timeout.Seconds()))
+	err = p.Client.Touch(key, p.expiration(params...))
 	err = p.handleError(err)
 	return
 }
@@ -99,6 +100,18 @@ func (p *mcProvide) GC() error {
 	return nil
 }
 
+// memcached takes more than 30 days as an absolute unix time
+func (p *mcProvide) expiration(params ...int) int32 {
+	secs := int64(getTimeoutDur(params...) / time.Second)
+	if secs > 30*24*60*60 {
+		secs += time.Now().Unix()
+	}
+	if secs > math.MaxInt32 {
+		secs = math.MaxInt32
+	}
+	return int32(secs)
+}
+
 func (p *mcProvide) handleError(err error) error {
 	if err == memcache.ErrCacheMiss {
 		return ErrMissedKey
-- 
2.43.0


From 775062fbc34b9990c6fe365bcb377e081bfe7789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:31 +0000
Subject: [PATCH 30/46] fix: mongo cache must not touch or count an entry whose
 lifetime has passed

---
 caches/provider_mgo.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/caches/provider_mgo.go b/caches/provider_mgo.go
index 95d82b1..117a753 100755
--- a/caches/provider_mgo.go
+++ b/caches/provider_mgo.go
@@ -108,7 +108,8 @@ func (p *mgoProvide) Touch(key string, params ...int) (err error) {
 		expiredAt := time.Now().Add(timeout)
 
 		er := c.Update(bson.M{
-			p.config.KeyField: key,
+			p.config.KeyField:       key,
+			p.config.ExpiredAtField: bson.M{"$gt": time.Now()},
 		}, bson.M{
 			"$set": bson.M{
 				p.config.ExpiredAtField: expiredAt,
@@ -139,7 +140,8 @@ func (p *mgoProvide) Incr(key string, params ...int) (err error) {
 
 	err = p.connect(func(c *mgo.Collection) error {
 		er := c.Update(bson.M{
-			p.config.KeyField: key,
+			p.config.KeyField:       key,
+			p.config.ExpiredAtField: bson.M{"$gt": time.Now()},
 		}, bson.M{
 			"$inc": bson.M{
 				p.config.ValueField: cnt,
@@ -159,7 +161,8 @@ func (p *mgoProvide) Decr(key string, params ...int) (err error) {
 
 	err = p.connect(func(c *mgo.Collection) error {
 		er := c.Update(bson.M{
-			p.config.KeyField: key,
+			p.config.KeyField:       key,
+			p.config.ExpiredAtField: bson.M{"$gt": time.Now()},
 		}, bson.M{
 			"$inc": bson.M{
 				p.config.ValueField: cnt,
-- 
2.43.0


From 1abb190463dfc0edec2abc561c646b233d806dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 31/46] fix: an action result of a kind that has no nil, as a
 string, panicked

---
 router_action_out.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/router_action_out.go b/router_action_out.go
index c8b574e..b79a035 100755
--- a/router_action_out.go
+++ b/router_action_out.go
@@ -66,7 +66,7 @@ func GenericOutFilter() interface{} {
 			body = out[len(out)-1]
 		}
 
-		if !body.CanInterface() || body.IsNil() {
+		if !body.CanInterface() || isNil(body) {
 			return
 		}
 
@@ -88,3 +88,12 @@ func GenericOutFilter() interface{} {
 		}
 	}
 }
+
+// isNil tells if v is nil, a value of a kind without nil never is
+func isNil(v reflect.Value) bool {
+	switch v.Kind() {
+	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice:
+		return v.IsNil()
+	}
+	return false
+}
-- 
2.43.0


From eae50a007757c3b22e096ae6f20b3689d6a1a1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:40 +0000
Subject: [PATCH 32/46] fix: apires: a raw text, bytes, stream or empty body is
 sent with its declared status

---
 utils/apires/raw.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/utils/apires/raw.go b/utils/apires/raw.go
index eda8301..128e5f5 100755
--- a/utils/apires/raw.go
+++ b/utils/apires/raw.go
@@ -17,22 +17,21 @@ func (r *RawBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Req
 		r.Status = http.StatusOK
 	}
 
-	if r.Status == http.StatusNoContent {
+	if r.Status == http.StatusNoContent || r.Body == nil {
 		rw.WriteHeader(r.Status)
 		return
 	}
 
-	if r.Body == nil {
-		return
-	}
-
 	var err error
 	switch v := r.Body.(type) {
 	case string:
+		rw.WriteHeader(r.Status)
 		_, err = rw.Write([]byte(v))
 	case []byte:
+		rw.WriteHeader(r.Status)
 		_, err = rw.Write(v)
 	case io.Reader:
+		rw.WriteHeader(r.Status)
 		buf := make([]byte, 4*1024)
 		_, err = io.CopyBuffer(rw, v, buf)
 		if c, ok := r.Body.(io.Closer); ok {
-- 
2.43.0


From 7b314671dfc9d65af26f65316e737cadd695b6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:41 +0000
Subject: [PATCH 33/46] fix: apires: writing a shared result or error does not
 change it

---
 utils/apires/raw.go | 17 +++++++++--------
 utils/apires/res.go | 16 +++++++++-------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/utils/apires/raw.go b/utils/apires/raw.go
index 128e5f5..fc9b5a1 100755
--- a/utils/apires/raw.go
+++ b/utils/apires/raw.go
@@ -13,32 +13,33 @@ type RawBody struct {
 }
 
 func (r *RawBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
-	if r.Status == 0 {
-		r.Status = http.StatusOK
+	status := r.Status
+	if status == 0 {
+		status = http.StatusOK
 	}
 
-	if r.Status == http.StatusNoContent || r.Body == nil {
-		rw.WriteHeader(r.Status)
+	if status == http.StatusNoContent || r.Body == nil {
+		rw.WriteHeader(status)
 		return
 	}
 
 	var err error
 	switch v := r.Body.(type) {
 	case string:
-		rw.WriteHeader(r.Status)
+		rw.WriteHeader(status)
 		_, err = rw.Write([]byte(v))
 	case []byte:
-		rw.WriteHeader(r.Status)
+		rw.WriteHeader(status)
 		_, err = rw.Write(v)
 	case io.Reader:
-		rw.WriteHeader(r.Status)
+		rw.WriteHeader(status)
 		buf := make([]byte, 4*1024)
 		_, err = io.CopyBuffer(rw, v, buf)
 		if c, ok := r.Body.(io.Closer); ok {
 			c.Close()
 		}
 	default:
-		err = writeJsonBody(r.Status, r.Body, ctx, rw, req)
+		err = writeJsonBody(status, r.Body, ctx, rw, req)
 	}
 	if err != nil {
 		var logger strip.Logger
diff --git a/utils/apires/res.go b/utils/apires/res.go
index c70377f..a3a4dbe 100755
--- a/utils/apires/res.go
+++ b/utils/apires/res.go
@@ -15,19 +15,21 @@ type ResBody struct {
 }
 
 func (r *ResBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
-	if r.Status == 0 {
-		r.Status = http.StatusOK
+	// a result may be shared by requests, it is not changed here
+	status, body := r.Status, r.Body
+	if status == 0 {
+		status = http.StatusOK
 	}
-	if r.Body == nil {
-		r.Body = struct{}{}
+	if body == nil {
+		body = struct{}{}
 	}
 
-	if r.Status == http.StatusNoContent {
-		rw.WriteHeader(r.Status)
+	if status == http.StatusNoContent {
+		rw.WriteHeader(status)
 		return
 	}
 
-	if err := writeJsonBody(r.Status, r.Body, ctx, rw, req); err != nil {
+	if err := writeJsonBody(status, body, ctx, rw, req); err != nil {
 		var logger strip.Logger
 		ctx.Find(&logger, "")
 		logger.Warn("response write failed:", err)
-- 
2.43.0


From 297b07c92678caba8d0fc8c4b448b67de287bf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 34/46] fix: the worker's Wait could return before the error of
 a failed task was recorded

---
 utils/worker.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/worker.go b/utils/worker.go
index dd68468..841a0cc 100755
--- a/utils/worker.go
+++ b/utils/worker.go
@@ -52,7 +52,9 @@ func (w *Worker) run(task interface{}) {
 		w.done()
 	case func() error:
 		err := t()
-		w.done()
+		<-w.pools
+		// Wait returns once the task is done, its error has to be known by then
+		defer w.wg.Done()
 		if err != nil {
 			w.rw.Lock()
 			if !w.closed {
-- 
2.43.0


From 122a5d81dc4f0cc1ae1c31c8bffec2580744e59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 35/46] fix: the static filter left the fallback file open

---
 static-serve/static.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/static-serve/static.go b/static-serve/static.go
index 5b58911..d97099c 100755
--- a/static-serve/static.go
+++ b/static-serve/static.go
@@ -138,6 +138,7 @@ func ServeFilter(prefix, directory string, opts ...StaticOption) interface{} {
 					err = er
 					return
 				}
+				defer f.Close()
 				err = nil
 			}
 			if err != nil {
-- 
2.43.0


From a72e088299b97b28a09ed0a3975c819a69d54122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 36/46] fix: the request logger cut a forwarded IPv6 address at
 its first colon

---
 request-logger/logger.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/request-logger/logger.go b/request-logger/logger.go
index e86c300..fbddff5 100755
--- a/request-logger/logger.go
+++ b/request-logger/logger.go
@@ -117,8 +117,12 @@ func realIp(req *http.Request) string {
 
 	parts := strings.Split(req.Header.Get(HeaderXForwardedFor), ",")
 	if len(parts) > 0 && parts[0] != "" {
-		parts = strings.Split(parts[0], ":")
-		return strings.TrimSpace(parts[0])
+		addr := strings.TrimSpace(parts[0])
+		// remove the port, an IPv6 address has one only behind its brackets
+		if idx := strings.LastIndex(addr, ":"); idx != -1 && (strings.Index(addr, ":") == idx || strings.HasSuffix(addr[:idx], "]")) {
+			addr = strings.TrimSpace(addr[:idx])
+		}
+		return addr
 	}
 
 	host := req.RemoteAddr
-- 
2.43.0


From 3745da9c53ef86bdec8036379d6e6e0d6f194572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 37/46] fix: the static filter's directory redirect could leave
 the host

---
 static-serve/static.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/static-serve/static.go b/static-serve/static.go
index d97099c..9d09b3e 100755
--- a/static-serve/static.go
+++ b/static-serve/static.go
@@ -106,8 +106,9 @@ func ServeFilter(prefix, directory string, opts ...StaticOption) interface{} {
 		if fi.IsDir() {
 			// redirect if missing trailing slash
 			if !strings.HasSuffix(req.URL.Path, "/") {
+				// a path that starts with two slashes would name another host
 				dest := url.URL{
-					Path:     req.URL.Path + "/",
+					Path:     "/" + strings.TrimLeft(req.URL.Path, "/") + "/",
 					RawQuery: req.URL.RawQuery,
 					Fragment: req.URL.Fragment,
 				}
-- 
2.43.0


From 49171ab2ba3f81c6f658347d7c416e6765313221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:48 +0000
Subject: [PATCH 38/46] fix: RealIp and RealHost cut an IPv6 address at its
 first colon

---
 params/real.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/params/real.go b/params/real.go
index 31493a9..3725467 100755
--- a/params/real.go
+++ b/params/real.go
@@ -14,19 +14,24 @@ func RealIp(req *http.Request) (realIp string) {
 
 	ips := strings.Split(req.Header.Get("X-Forwarded-For"), ",")
 	if len(ips) > 0 && ips[0] != "" {
-		rip := strings.Split(ips[0], ":")
-		realIp = rip[0]
+		realIp = strings.Trim(withoutPort(ips[0]), "[]")
 		return
 	}
 
-	ip := strings.Split(req.RemoteAddr, ":")
-	if len(ip) > 0 {
-		if ip[0] != "[" {
-			realIp = ip[0]
-			return
-		}
+	realIp = strings.Trim(withoutPort(req.RemoteAddr), "[]")
+	if realIp == "::1" {
+		realIp = "127.0.0.1"
 	}
-	return "127.0.0.1"
+	return
+}
+
+// withoutPort drops the port, if any; the colons inside an IPv6 address are not a port
+func withoutPort(addr string) string {
+	idx := strings.LastIndex(addr, ":")
+	if idx != -1 && (strings.Index(addr, ":") == idx || strings.HasSuffix(addr[:idx], "]")) {
+		addr = addr[:idx]
+	}
+	return addr
 }
 
 func RealHost(req *http.Request) (host string) {
@@ -34,11 +39,7 @@ func RealHost(req *http.Request) (host string) {
 	if host == "" {
 		host = req.Host
 	}
-	parts := strings.Split(host, ":")
-	if len(parts) > 0 {
-		host = parts[0]
-	}
-	return
+	return withoutPort(host)
 }
 
 func RealProto(req *http.Request) (proto string) {
-- 
2.43.0


From 38bd2904891b2a3480195860020bc0d1595130ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:51 +0000
Subject: [PATCH 39/46] fix: RealURL lost the encoding of the original path

---
 params/real.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/params/real.go b/params/real.go
index 3725467..7093da6 100755
--- a/params/real.go
+++ b/params/real.go
@@ -71,6 +71,8 @@ func RealURL(req *http.Request) (u *url.URL, err error) {
 	d.Scheme = RealProto(req)
 	d.Opaque = ins.Opaque
 	d.Path = ins.Path
+	d.RawPath = ins.RawPath
+	d.ForceQuery = ins.ForceQuery
 	d.RawQuery = ins.RawQuery
 	return &d, nil
 }
-- 
2.43.0


From b2a7731dc1335928e97ebc820fa30580c676c9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:02 +0000
Subject: [PATCH 40/46] fix: context values of types without a name, or with
 the same name, replaced each other

---
 utils/context.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/utils/context.go b/utils/context.go
index f2f28b5..d0281b1 100755
--- a/utils/context.go
+++ b/utils/context.go
@@ -13,12 +13,12 @@ var (
 type key string
 
 func CtxWithValue(ctx context.Context, value interface{}, extraName ...string) context.Context {
-	k := ctxValueToKey(value, extraName...)
+	k := ctxKey(value, extraName...)
 	return context.WithValue(ctx, k, value)
 }
 
 func CtxFindValue(ctx context.Context, value interface{}, extraName ...string) error {
-	k := ctxValueToKey(value, extraName...)
+	k := ctxKey(value, extraName...)
 	inf := ctx.Value(k)
 	tarElm := reflect.ValueOf(value).Elem()
 	if !tarElm.CanSet() {
@@ -51,6 +51,21 @@ func MustCtxFindValue(ctx context.Context, value interface{}, extraName ...strin
 	}
 }
 
+// typeKey tells types apart that share a name or have none
+type typeKey struct {
+	typ  reflect.Type
+	name key
+}
+
+func ctxKey(value interface{}, extraNames ...string) typeKey {
+	name := ctxValueToKey(value, extraNames...)
+	typ := reflect.TypeOf(value).Elem()
+	if typ.Kind() == reflect.Ptr {
+		typ = typ.Elem()
+	}
+	return typeKey{typ, name}
+}
+
 func ctxValueToKey(value interface{}, extraNames ...string) key {
 	val := reflect.ValueOf(value)
 	if val.Kind() != reflect.Ptr {
-- 
2.43.0


From dba8ba05b1cf23c6834a8264cf42262da7b4e64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:13 +0000
Subject: [PATCH 41/46] fix: reading a nil pointer kept in a context into a
 value panicked

---
 utils/context.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/context.go b/utils/context.go
index d0281b1..c5e259b 100755
--- a/utils/context.go
+++ b/utils/context.go
@@ -35,7 +35,9 @@ func CtxFindValue(ctx context.Context, value interface{}, extraName ...string) e
 	if tarElm.Kind() == reflect.Ptr && elm.Kind() != reflect.Ptr {
 		tarElm.Set(elm.Addr())
 	} else if tarElm.Kind() != reflect.Ptr && elm.Kind() == reflect.Ptr {
-		tarElm.Set(elm.Elem())
+		if !elm.IsNil() {
+			tarElm.Set(elm.Elem())
+		}
 	} else if tarElm.Kind() == reflect.Ptr && elm.Kind() == reflect.Ptr {
 		tarElm.Set(elm)
 	} else {
-- 
2.43.0


From fdc1d838e7e16de43e545c35c491c1b2d26d4585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:48 +0000
Subject: [PATCH 42/46] fix: Apply left a field empty without an error when the
 provided value does not fit it

---
 inject/inject.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inject/inject.go b/inject/inject.go
index 36cf112..894e338 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -239,7 +239,9 @@ func (inj *injector) apply(ptrStruct interface{}, status invokeStatus, level int
 					return fmt.Errorf("value not found for type %s:%v", provName, field)
 				}
 
-				assignValue(out[0], field)
+				if err := assignValue(out[0], field); err != nil {
+					return fmt.Errorf("provider value of type %s: %v", provName, err)
+				}
 			}
 
 			continue
-- 
2.43.0


From 897845fa2d0cda3357476542d4fb8e7df4e1847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:13 +0000
Subject: [PATCH 43/46] fix: a wildcard with a verb replaced the wildcard of
 the same name and its routes

---
 router.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/router.go b/router.go
index 8a0b619..64e2553 100755
--- a/router.go
+++ b/router.go
@@ -414,10 +414,10 @@ func (r *route) configRoutes(args routeArgs) {
 
 			} else if rt.pathParam.isWild {
 				if targetRoute.wildRoute != nil {
-					exists := targetRoute.wildRoute.pathParam.paramName
-					setting := rt.pathParam.paramName
+					exists := targetRoute.wildRoute.pathParam.path
+					setting := rt.pathParam.path
 					if exists != setting {
-						panic(fmt.Sprintf("route param conflict, please change `:%s` to `:%s`", setting, exists))
+						panic(fmt.Sprintf("route param conflict, please change `%s` to `%s`", setting, exists))
 					}
 				}
 
-- 
2.43.0


From 8e8df55fb95720d0fcb2b63eeec4119bd2fc7cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:27 +0000
Subject: [PATCH 44/46] fix: bind a date with hours and minutes

---
 params/binder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index b752d59..e0a3034 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -47,7 +47,7 @@ func ValueBinder(f func(value string, typ reflect.Type) reflect.Value) func(*Par
 
 const (
 	DEFAULT_DATE_FORMAT            = "2006-01-02"
-	DEFAULT_DATETIME_FORMAT        = "2006-01-02 15:0"
+	DEFAULT_DATETIME_FORMAT        = "2006-01-02 15:04"
 	DEFAULT_DATETIME_FORMAT_SECOND = "2006-01-02 15:04:05"
 )
 
-- 
2.43.0


From aaea948bfc1b445d1aaf3fc1a392b8178afa8d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:29 +0000
Subject: [PATCH 45/46] fix: utils.ToStr wrote []byte(nil) for every value of
 another type

---
 utils/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/converter.go b/utils/converter.go
index 4ff74b7..f30be53 100755
--- a/utils/converter.go
+++ b/utils/converter.go
@@ -177,7 +177,7 @@ func ToStr(value interface{}, args ...int) (s string) {
 			// TODO should use reflect rewrite
 			s = string(v)
 		} else {
-			s = fmt.Sprintf("%#v", v)
+			s = fmt.Sprintf("%#v", value)
 		}
 	}
 	return s
-- 
2.43.0


From ff3eded4d1cccd546145853571462f38f03e1adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:30 +0000
Subject: [PATCH 46/46] fix: SliceValue.Set added the whole text once per value

---
 utils/helpers/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/helpers/config.go b/utils/helpers/config.go
index b3f5d84..b27681a 100755
--- a/utils/helpers/config.go
+++ b/utils/helpers/config.go
@@ -16,7 +16,7 @@ func (s *SliceValue) Set(v string) error {
 	for _, p := range strings.Split(v, ",") {
 		p = strings.TrimSpace(p)
 		if p != "" {
-			*s = append(*s, v)
+			*s = append(*s, p)
 		}
 	}
 	return nil
-- 
2.43.0

