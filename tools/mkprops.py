#!/usr/bin/env python3
# writes properties.jsonl (kept as a script only because JSONL is awkward to edit by hand)
import json,os
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("P01","Routing finds the best matching pattern, with its captured values",
 "A request path is given to a registered pattern if and only if some registered pattern matches it segment by segment (a literal matches itself, a parameter matches one segment and, when it carries a verb suffix, only a segment ending in that suffix, a wildcard matches all remaining segments). Among several matches a literal segment is preferred to a parameter and a parameter to a wildcard, position by position, falling back to the next choice when the preferred one cannot be completed. The captured values are exactly the text covered by the chosen pattern's parameter and wildcard segments, in path order, and contain nothing from abandoned choices.",
 ["inputs","configurations"],"for every tree of registered patterns and every request path of any length",
 "tests route a handful of fixed paths through one small tree; the claim ranges over every tree, every path length and every pattern of failed choices on the way",
 ["router.go"],[("route.match","router.go"),("pathParam.matchParamRoute","router.go"),("pathParam.set","router.go"),("paramList.values","router.go")])

p("P02","A matched path is answered by the action registered for its method",
 "For a matched path the action run is the one registered for the request's method (compared in upper case); failing that the catch-all-methods registration whose controller offers an action named after the method or declares a fixed one; failing that the any-method registration; failing that, or when no pattern matches, the not-found handlers run and no action does. HEAD requests use the GET action of the pattern when no HEAD action is registered. A function controller registered for all methods answers every method.",
 ["inputs","configurations"],"for every matched route node, request method string and combination of registrations",
 "tests issue a few methods against a few controllers; precedence must hold for every combination of exact, All and Any registrations and for arbitrary method names",
 ["router.go","router_method.go"],[("routeRoot.handle","router.go"),("method.action","router_method.go"),("route.configRoutes","router.go"),("routerController.actionFuncExists","router_action.go")])

p("P03","Each route runs the inherited filters plus its own minus its exemptions",
 "The filters attached to an action are the filters of the enclosing routers, then the route's own, then the method's own, in declaration order and each at most once, minus those exempted at the route or method level. Exempting or adding filters on one route or method never changes the filters of another.",
 ["inputs","configurations"],"for every list of filters, exemptions and every existing slice sharing storage with it",
 "tests check a few small filter lists; order, duplication and aliasing between sibling routes depend on list lengths and slice capacities that tests do not vary",
 ["router_filter.go","router_util.go","router.go"],[("filters.append","router_filter.go"),("filters.remove","router_filter.go"),("calcRouterArgs","router_util.go"),("route.configRoutes","router.go")])

p("P04","Filters run in order, each once, and stop as soon as the response is written",
 "While handling a request the filters are invoked in list order followed by the action, each at most once, whether the chain advances by itself or a filter asks for the rest of the chain. After a filter has run and the response status is set, nothing further in that chain is invoked by the framework, and an error invoking one of them surfaces instead of being dropped.",
 ["inputs","histories"],"for every number of filters, every position and every pattern of explicit continuation, writing and absent action",
 "tests use two or three filters; the order and at-most-once claim is about every length and every mix of explicit continuation and early writing",
 ["context.go"],[("context.run","context.go"),("context.Next","context.go"),("context.handler","context.go")],[("index","position of the chain")])

p("P05","The response header is committed once, with the final status and after the hooks",
 "The status line is sent to the client at most once, at the first body write or flush, with the last status set before it (200 if none), after every registered before-write hook has run exactly once in reverse order of registration. Setting a status only records it, zero is rejected, the written flag is true exactly when a status has been recorded, the reported size is the number of body bytes the connection accepted, and a hijacked connection never receives a status line.",
 ["histories","inputs"],"for every sequence of status, hook registration, write and hijack operations",
 "tests write one response each; the protocol must hold after every sequence of operations and for any number of hooks",
 ["response.go"],[("responseWriter.Write","response.go"),("responseWriter.WriteHeader","response.go"),("responseWriter.callBefore","response.go"),("responseWriter.Before","response.go"),("responseWriter.Hijack","response.go")],[("status/size/once/hijacked/beforeFuncs","response progress")])

p("P06","A panic in a handler becomes a logged 500, never an escape or a second response",
 "With the recovery filter installed, any panic with a non-nil value raised by later filters or the action is absorbed and logged; if nothing was written the status becomes 500, and if a status was already set it is left alone. The body with panic details is produced only in development mode, and when no panic happens the filter changes nothing.",
 ["inputs","fault_sequences"],"for every panic value and every state of the response when the panic happens",
 "no existing test panics in a handler; the claim covers every panic value, run mode and response state",
 ["recovery.go"],[("RecoveryFilter","recovery.go")])

p("P07","Dependency lookup returns the nearest provider; scopes do not interfere",
 "Looking a type and name up in a scope yields the provider registered last for that exact type and name in that scope, otherwise the nearest enclosing scope's, otherwise a not-found error. Registering in a scope changes only that key of that scope, leaves every other key and scope untouched, and discards the value cached for the key there.",
 ["inputs","histories"],"for every chain of scopes, registration history and key",
 "tests register a few providers in one or two scopes; nearest-scope resolution and non-interference quantify over all keys, histories and nesting depths",
 ["inject/inject.go","inject/inject_provider.go"],[("injector.get","inject/inject.go"),("injector.ProvideAs","inject/inject.go"),("injector.Find","inject/inject.go"),("createName","inject/inject_provider.go")])

p("P08","A dependency is built at most once per scope, from its declared dependencies",
 "Resolving a dependency calls its provider function at most once per scope and afterwards returns the cached result; the function receives one argument per declared parameter, each the resolved value of the dependency declared at that position. A missing dependency or a cycle among dependencies being built is reported as an error without calling the function, a failed build is not cached, and a plain value provider always yields that value.",
 ["inputs","histories"],"for every dependency graph, scope and order of lookups",
 "tests resolve three or four providers; graphs, orders of resolution and cycles of any length are out of their reach",
 ["inject/inject_provider.go","inject/inject.go"],[("providerInfo.invoke","inject/inject_provider.go"),("newProvider","inject/inject_provider.go"),("injector.Invoke","inject/inject.go")])

p("P09","Configuration lookup order: environment, own file, parents, default",
 "A configuration key resolves to the non-empty environment variable derived from its section and key, otherwise to the value in the source itself (the default section when none is named), otherwise to what its parent source resolves, and otherwise to the empty string, for which the caller's default is used. A listed section is a copy, and changing it changes no configuration.",
 ["inputs","configurations","histories"],"for every key string, environment, source content and depth of parents",
 "the config package's own tests cannot run here (missing fixtures); precedence is over every key, environment and chain",
 ["config/config.go","config.go"],[("config.Find","config/config.go"),("config.setValue","config/config.go"),("config.ListSection","config/config.go"),("convertToEnvKey","config/config.go"),("Config.Find","config.go")])

p("P10","Configuration files parse line by line without ever crashing",
 "Reading a configuration source never panics, whatever its bytes: each line is blank, a comment, a section header, a key and value, or makes the load fail with an error. A key line stores exactly one value under the current section and changes no other key, blank and comment lines change nothing, a header selects its section and creates it if absent, and a read error is returned to the caller.",
 ["inputs"],"for every byte sequence delivered by the reader, and every read error",
 "the tests that parse files cannot run here; crash freedom and line isolation must hold for every byte sequence",
 ["config/config.go"],[("config.loadFromReader","config/config.go"),("config.setValue","config/config.go")])

p("P11","Text converts to a typed value exactly, or reports an error",
 "Converting text to a boolean or numeric type yields exactly the value the text denotes when it is in range for that type at its full width, and an error otherwise; nothing is truncated or wrapped. Converting text for a typed target (action argument or configuration field) yields that value, zero when the text is malformed, the text itself for strings and byte slices, and leaves unsupported target types untouched instead of crashing.",
 ["inputs"],"for every text and every supported target type",
 "tests convert a few literals; width limits and malformed text need every type at its bounds",
 ["app_util.go","utils/converter.go","utils/converter_value_to.go","config.go"],[("StrTo.*","app_util.go"),("convertStringAsType","app_util.go"),("StrTo.*","utils/converter.go"),("Value.*","utils/converter_value_to.go"),("Config.Bind","config.go")])

p("P12","Binding a request parameter is exact or zero and never crashes the request",
 "Binding a named request parameter to a number, boolean, string, pointer, slice, map or struct yields the value its text denotes at the target's width, and the zero value when the parameter is absent, empty, malformed or out of range. No parameter name or value a client can send makes binding panic.",
 ["inputs"],"for every set of request parameters, parameter name and supported target type",
 "the params tests cannot run here; crash freedom and exactness quantify over every client-chosen key and value",
 ["params/binder.go","params/params.go"],[("IntBinder/UintBinder/FloatBinder","params/binder.go"),("bindSlice","params/binder.go"),("bindMap","params/binder.go"),("bindStruct","params/binder.go"),("Bind","params/binder.go")])

p("P13","The unified parameter view is exactly query, then route, then form values",
 "For every name the unified view lists the query string values, then the route values, then the body form values, each in its original order, and contains nothing else and loses nothing. Building the view does not alter the separate query, route and form views.",
 ["inputs"],"for every combination of query, route and form parameters, including names present in several of them",
 "the params tests cannot run here; the equation must hold for every combination of the three sources",
 ["params/params.go"],[("Params.calcValues","params/params.go"),("ParseParams","params/params.go")])

p("P14","Signed cookie values round-trip and nothing unsigned is accepted",
 "Encoding a non-empty text with a secret and a time and decoding it with the same secret returns exactly that text and time. A value is accepted only if its signature is the one the secret produces for exactly the text and time it carries, so a value with any altered text, time or signature is rejected, and no input makes decoding crash.",
 ["inputs"],"for every text, secret, time and every candidate cookie value",
 "the sessions tests cannot run here (they need databases) and check a few values; authenticity is a claim about every forged value",
 ["sessions/utils.go"],[("EncodeSecureValue","sessions/utils.go"),("DecodeSecureValue","sessions/utils.go"),("GetRawFromSecureValue","sessions/utils.go")])

p("P15","A session store behaves as a map and is saved exactly when changed",
 "Setting, reading, testing, deleting and clearing session values behave as on a map, listed values are a copy, and nothing done to one key changes another. Flushing saves the current values if they changed since the last successful save and the session was not destroyed, and does nothing otherwise; a failed save is reported and retried by the next flush. Destroying removes the stored entry and nothing is saved afterwards.",
 ["histories","fault_sequences"],"for every sequence of session operations and every failure of the backing store",
 "session tests need live databases; map behaviour and save-on-change are claims about every operation sequence",
 ["sessions/provider.go","sessions/store_dummy.go"],[("sessData.*","sessions/provider.go"),("sessProvide.*","sessions/provider.go"),("dummyStore.*","sessions/store_dummy.go")],[("changed/closed","save state")])

p("P16","Starting, regenerating and destroying sessions honour only valid cookies",
 "A request is attached to the session id in its cookie only if the last cookie of that name carries a correctly signed value younger than the session lifetime; otherwise a new id is created and sent back in a signed cookie. Regenerating always moves to a fresh id, with the old data kept and no longer reachable under the old id, and sends its cookie; destroying removes the stored session and expires the cookie; errors of creating, reading or regenerating are returned and never crash, and the data of a session being regenerated is not lost.",
 ["inputs","histories","fault_sequences"],"for every cookie header, configuration, time and provider outcome",
 "session tests need live databases; the claim ranges over all cookies, ages and provider failures",
 ["sessions/manager.go","sessions/utils.go","sessions/provider.go"],[("SessionManager.Start","sessions/manager.go"),("SessionManager.Regenerate","sessions/manager.go"),("SessionManager.Destroy","sessions/manager.go"),("SessionManager.ReadSidFromRequest","sessions/manager.go"),("getCookie","sessions/utils.go"),("isExpired","sessions/utils.go")])

p("P17","Remember-me accepts only unexpired tokens issued for that user and salt",
 "A remember-me cookie is recognised only if it is correctly signed, younger than the configured lifetime and has the issued two-part form, and it then yields exactly the user key and token it was issued with. The token is valid for a user key and salt exactly when it was issued for that key under that secret and salt and has not expired; empty keys, salts or tokens are never valid.",
 ["inputs"],"for every cookie, user key, salt, secret and time",
 "session tests need live databases and use one user; validity quantifies over every token, user and salt",
 ["sessions/remember.go","sessions/utils.go"],[("SessionManager.HasRemember","sessions/remember.go"),("SessionManager.ValidRemember","sessions/remember.go"),("createRememberCookieValue","sessions/remember.go")])

p("P18","Cache operations use the prefixed key, the stated lifetime, one missing error",
 "Every redis and memcache operation acts on the configured prefix followed by the caller's key, every mongo operation on the document of that key; values are stored and counted as given. The lifetime is the given number of seconds when positive, one minute when zero or absent, and unlimited when negative, for both storing and touching. A missing or expired key is reported by get, touch and delete with the one missing-key error whatever the backend, testing for presence reports false without error, other backend errors are passed on, and every pooled connection taken is given back.",
 ["inputs","fault_sequences"],"for every key, prefix, lifetime argument and backend reply",
 "cache tests need live databases; prefixing, lifetimes and error mapping hold for every argument and reply",
 ["caches/caches.go","caches/provider_memcache.go","caches/provider_redis.go","caches/provider_mgo.go"],[("getTimeoutDur","caches/caches.go"),("mcProvide.*","caches/provider_memcache.go"),("redisProvide.*","caches/provider_redis.go"),("mgoProvide.*","caches/provider_mgo.go")])

p("P19","Number codes decode to what was encoded and random tokens have the asked shape",
 "Encoding a non-negative decimal number over an alphabet of at least two distinct bytes and decoding the result gives the number back. Random tokens have exactly the requested length and use only bytes of the given alphabet, for any alphabet of 1 to 256 bytes; a new session id has exactly its fixed length over the session alphabet.",
 ["inputs"],"for every number, alphabet and length",
 "no running test covers them; round trip and alphabet membership are claims about all numbers, lengths and alphabets",
 ["utils/rand.go","sessions/utils.go"],[("NumberEncode/NumberDecode","utils/rand.go"),("RandomCreateBytes","utils/rand.go"),("CreateSid","sessions/utils.go")])

p("P20","What an action returns is what the client receives",
 "An action's trailing integer result becomes the status and the result before it (or the last result when there is no integer) becomes the body: text and bytes verbatim, a reader copied in full and closed when closable, a result object or handler invoked once, nothing for a nil result. The filter writes nothing when the response was already written or no result was provided, and no documented result shape crashes.",
 ["inputs"],"for every list of results of every kind an action may return",
 "tests return two or three shapes; the documented shapes times nil, typed-nil and empty values are not covered",
 ["router_action_out.go"],[("GenericOutFilter","router_action_out.go")])

p("P21","API results send the declared status and body, and API errors are never mutated",
 "An API result writes its declared status (200 when unset) once and its body as JSON, text, bytes or stream; a no-content status carries no body, and an encoding failure still yields a well-formed response. Deriving an error with other data or message returns a new error with the same status and code whose own response body is itself, and leaves the original unchanged; two errors are equal exactly when status and code agree.",
 ["inputs"],"for every status, body and chain of derivations",
 "there are no tests of these types; immutability and status propagation are claims about all values",
 ["utils/apires/error.go","utils/apires/res.go","utils/apires/raw.go"],[("ResError.*","utils/apires/error.go"),("ResBody.Write/writeJsonBody","utils/apires/res.go"),("RawBody.Write","utils/apires/raw.go")])

p("P22","Responses are compressed only for clients that accept it, and then consistently",
 "A response is compressed exactly when the request's accepted encodings mention gzip; then the encoding and vary headers are set, any stated content length is dropped before the first byte, a content type is set, every body byte goes through one compressor, and the compressor is closed once the rest of the chain has finished, even when it panics. Otherwise the filter changes nothing.",
 ["inputs","histories","fault_sequences"],"for every request header, sequence of writes and way the handler ends",
 "tests make one compressed response; header consistency and closing on panic concern every write sequence",
 ["gzip/gzip.go"],[("All","gzip/gzip.go"),("gzipResponseWriter.Write","gzip/gzip.go"),("gzipResponseWriter.close","gzip/gzip.go")])

p("P23","Static files are served only below the prefix and directory, for allowed methods",
 "The static filter acts only on GET and HEAD (unless any method is allowed), only on paths equal to the prefix or continuing it at a slash, and not on skipped prefixes; otherwise it leaves the request alone. Every file it opens is opened through the one configured root directory, a directory without trailing slash is redirected to its path with one on the same host, with one its index file is served (not found if there is none), a missing file is answered by the fallback file if configured and as not found otherwise, and every file opened is closed, even when writing the answer panics.",
 ["inputs","configurations"],"for every method, path, prefix, skip list and file system content",
 "one test sends one wrong path; prefix boundaries, skip lists and closing concern every path and file system",
 ["static-serve/static.go"],[("ServeFilter","static-serve/static.go")])

p("P24","The logger emits a message exactly when its level passes both thresholds",
 "A message is printed once when its level is within both the logger's and the global threshold and not at all otherwise; it starts with its level tag and configured prefix. In flat mode the printed message is a single line, and a request logger's messages always carry its request id, whatever prefix is set later.",
 ["inputs","configurations"],"for every level, threshold, prefix and message text",
 "there are no logger tests; thresholds and line flattening are claims about every message and level",
 ["log.go"],[("baseLogger.write/writef/print","log.go"),("reqLogger.SetPrefix","log.go")])

p("P25","Each request gets one request id, echoed on request and response",
 "A request's own id is kept when it has 10 to 32 characters and replaced by a fresh one otherwise; the same id (after the configured filter) is put on the request header, the response header and the request logger. Decoding a generated id returns the parts it was made from, and malformed ids decode to zeros without crashing. The client address is the real-ip header, else the first forwarded address, else the connection's host.",
 ["inputs"],"for every header value and id text",
 "one test covers a few address headers; the id rules concern every header length and malformed id",
 ["request-logger/logger.go","request-logger/reqid.go"],[("ReqLoggerFilter","request-logger/logger.go"),("realIp","request-logger/logger.go"),("NewReqId/DecodeReqId","request-logger/reqid.go")])

p("P26","The concurrent worker reports the error of a failed task",
 "When a task given to the limited worker fails, waiting for completion returns that task's error and no later task is started; at most the configured number of tasks run at once and every accepted task runs exactly once.",
 ["schedules","fault_sequences"],"for every interleaving of running tasks, waiting and closing",
 "the worker tests run a few schedules; the claim quantifies over all interleavings",
 ["utils/worker.go"],[("Worker.run/RunTask/Wait","utils/worker.go")])
p("P27","A matched action runs on its own controller copy with the captured values",
 "An action of a struct controller is called exactly once, as the method the registration named, on a fresh copy of the registered controller whose dependencies were filled from the request's injector before the call; its i-th parameter gets the value captured by the i-th parameter segment of the path, converted to the parameter's type (through a pointer where it is one), and the type's zero value where nothing was captured or the type is not supported. The registered controller is never changed by a request. The values the action returns are what the response is made from. A method that does not exist, or a dependency that cannot be resolved, panics without the action being called. A function controller is invoked once through the injector.",
 ["inputs","histories"],"for every controller and method signature, every captured text and every sequence of requests",
 "the signatures x captured texts are unbounded, and state leaking from one request's controller to the next shows only over histories",
 ["router_action.go","app_util.go"],[("routerAction.callStructFunc","router_action.go"),("makeRouterController/ensureHasAction","router_action.go")])
p("P28","The request's real address, host, scheme and URL are those the client used",
 "The real IP is X-Real-Ip where set, else the first address of X-Forwarded-For, else the connection's remote address, in the last two without port and brackets and with IPv6 addresses whole (the IPv6 loopback as 127.0.0.1); the real host is X-Forwarded-Host or the request's host without its port; the scheme is X-Forwarded-Proto, the URL's, or http; the URI is X-Original-URI or the request's own. The real URL combines them with the path, encoding and query of that URI in a fresh URL, leaves the request unchanged, and a malformed URI is an error without a URL.",
 ["inputs"],"for every request and every content of the forwarding headers",
 "addresses, hosts and URIs come from the network in unbounded variety (IPv6, ports, encodings) and there is no test of them",
 ["params/real.go"],[("RealIp/RealHost/RealProto/RealURI/RealURL","params/real.go")])
p("P29","A value kept in a context is found again by its exact type and name only",
 "What CtxWithValue stores for a type and an optional name is what CtxFindValue later finds for that type and name, until it is stored again; values of other types (also unnamed types and types of the same name) or other names, and foreign context keys, are not touched. A pointer target shares the stored value, a value target gets a copy, however the value was stored; a nil stored value leaves the target alone without an error; a value never stored is CtxValueNotFound (a panic in MustCtxFindValue) and leaves the target alone. Targets that are no pointer, nil, of a basic type or pointers of more than two levels panic.",
 ["inputs","histories"],"for every type, name, and history of stores in a context chain",
 "the test reads two types; collisions show only between particular pairs of types and names",
 ["utils/context.go"],[("CtxWithValue/CtxFindValue/MustCtxFindValue","utils/context.go")])
p("P30","Applying an injector to a struct fills exactly the fields that ask for it",
 "After a successful Apply every settable field of the struct tagged for injection holds what the scope resolves for the field's type (through pointers) and tag name, taken from the nearest scope that has it; so do the tagged fields of nested structs, to three levels. No other field is changed. A field whose provider is missing, fails or gives a value that fits neither the field nor what it points to is an error, as is anything that is not a struct.",
 ["inputs","histories"],"for every struct type and tag placement, scope chain and set of providers",
 "struct shapes x tags x scopes are unbounded; the tests fill two fixed structs",
 ["inject/inject.go"],[("injector.Apply/apply","inject/inject.go"),("assignValue","inject/inject.go")])
p("P31","Every request is served in a scope of its own, once, and completed",
 "Each request gets a fresh scope behind the application's: in it the request, its response writer and its context are found, through the injector as well as through the request's context, which still carries the server's values and cancellation. What a request provides is seen by its own handlers only, never by the application or by another request, also for requests served at the same time or from within another. The chain is started once with the application's filters and the router, and when it returns the response is completed.",
 ["inputs","schedules","histories"],"for every application, request, set of concurrent or nested requests, and whatever handlers provide or replace",
 "the tests serve one request at a time; isolation is about pairs of requests and about what is never visible",
 ["app.go","context.go"],[("Strip.ServeHTTP","app.go"),("newContext/newNestContext","context.go"),("GetContext/ReplaceContext","context.go")])
p("P32","Configuration files apply in order and decode into the fields that name them",
 "LoadConfigFiles lets later files win over earlier ones, key by key: default, then the program's, then override files, in each the program's, the current and the given directory, the mode's file after the plain one, and the added files last; files that are missing or broken change nothing, and the application uses the result. Decode gives every field with a conf tag the configured value of that name (section::name within a tagged struct), also through embedded structs at any depth; a field without a value, without a tag or tagged - keeps what it held. Anything but a pointer to a struct panics.",
 ["inputs","histories"],"for every struct type, tag placement, set of files, contents, directories and mode",
 "the tests decode no struct and load no file set; precedence and exactness are about all combinations",
 ["config/config_parse.go","utils/helpers/config.go"],[("Decode/parseSection","config/config_parse.go"),("LoadConfigFiles","utils/helpers/config.go")])
p("P33","Any order and shape of route declarations gives the same table",
 "Routes can be registered in any order, nested or flat, in one call or several: the same patterns (whose verbs are no endings of one another), methods and filters give the same table. A pattern registered again adds its methods, the latest action of a method counts, and nothing registered earlier is lost. Two parameters or two wildcards of different names at one place, a wildcard that is not the last of its pattern, an empty path, a controller that is neither a struct nor a function, and an action the controller lacks panic when they are declared, never when a request comes.",
 ["inputs","histories"],"for every set of patterns, methods and filters, every order, nesting and split into calls, and every malformed declaration",
 "the tests register one fixed table in one order; independence of order and nesting is about all of them",
 ["router.go","router_params.go","router_handlers.go"],[("configRoutes","router.go"),("pathParam.set","router.go"),("calcRouterArgs","router.go")])
p("P34","Values become text that reads back as the same value",
 "ToStr writes booleans and numbers of every size so that StrTo reads the same value back - floats with exactly the digits that takes - and strings and bytes as they are; in the root package also behind pointers, in utils integers in any base asked for (an argument, ten by default), floats with the precision asked for, and other values in Go syntax. ToInt64 returns every integer value and refuses the rest. StrTo.Strings gives the parts between the delimiters (a comma by default), none dropped, without surrounding space. Cache values and session ids are written this way.",
 ["inputs"],"for every value of every such type, every base and every delimiter",
 "the tests convert a few small values; the caches hand back whatever the text holds, so one value written wrong is data lost",
 ["app_util.go","utils/converter.go"],[("ToStr/StrTo.Strings","app_util.go"),("ToStr/ToInt64/argInt.Get","utils/converter.go")])
p("P35","A JSON body is decoded whole, as sent, or reported",
 "BindJsonBody reads the whole request body and decodes the JSON value it starts with into the target exactly as encoding/json does, keeping numbers as text when asked. An empty body gives no error and leaves the target alone. A body that cannot be read gives the reading error and leaves the target alone; one that does not decode gives an error that quotes the body, at most its first 512 bytes.",
 ["inputs","faults"],"for every body, target, option and reading error",
 "the tests send no JSON body",
 ["params/params.go"],[("Params.BindJsonBody","params/params.go")])
p("P36","A list flag collects every value given, in order",
 "Setting a SliceValue adds the comma separated values of the text, without surrounding space and without empty ones, in their order behind those it holds, each value as one element, and changes nothing it holds. Unique keeps the first of each value in order, and its text is the values joined by commas.",
 ["inputs","histories"],"for every list, every text and every sequence of Set and Unique",
 "no test sets a list",
 ["utils/helpers/config.go"],[("SliceValue.Set/Unique","utils/helpers/config.go")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), [x["id"] for x in P if len(x["title"])>80])
