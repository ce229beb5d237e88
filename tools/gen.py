#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (and checks them against the schemas when jsonschema is there)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, race=False, note="", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, race=race, note=note, state=state))

R="router/path/"
prop("C01","A request runs exactly the handler of one matching pattern, or gets 404",
 "A request is handled by exactly one handler when some pattern registered for its method matches its path, and that handler belongs to one of the matching patterns; when none matches, no handler runs and the answer is 404. A literal segment matches an equal path segment, {v} and * match any one segment, {v:re} a segment in which the regular expression finds a match, a segment with * or ? by the glob rules, ** in front of other segments matches any run of segments including none, and a final ** one segment or more.",
 ["inputs","configurations"],"Every table of valid patterns (any mix of segment kinds, several ** included) for any methods, and every request path of at most 19 segments.",
 "The tests try about a hundred fixed table/path pairs; whether a match is found depends on how the patterns of the whole table share prefixes and where ** sits, which is a combinatorial space.",
 [R+"matcher.go",R+"pattern.go","router/router.go"],[("trie search",R+"matcher.go: Matcher.Match"),("segment match",R+"pattern.go: matchUrlPathSegment")],["router.Router.ServeHTTP"])
prop("C02","The most specific matching pattern is selected",
 "Among the patterns registered for the method that match the path, the selected one is the most specific: of two matching patterns, compared at the first segment in which they differ, literal comes before constrained variable, then variable, then glob segment, then *, then **, and a pattern that goes on comes before one that ends there. Two different constrained variables, or two different globs, in the same place are not ranked against each other by this rule.",
 ["inputs","configurations"],"Every table of patterns and every request path that at least two of them match.",
 "The tests contain a handful of overlapping tables; overlap between patterns with several wildcards and shared prefixes is what decides, and it grows combinatorially.",
 [R+"matcher.go",R+"encode.go"],[("children order",R+"matcher.go: AddPattern"),("search order",R+"matcher.go: Match")],["router.Router.ServeHTTP"])
prop("C03","Routing does not depend on the order of registration",
 "The handler that answers a request and the path variables it sees are the same for every order in which the same patterns were registered. Registering further patterns that do not match a request never changes which of its matching patterns answers it when the specificity ranking decides between them.",
 ["inputs","histories","configurations"],"Every table of patterns, every permutation of its registration, every request.",
 "The tests register each table in one order; the number of orders is factorial and a wrong order only shows for certain overlaps.",
 [R+"matcher.go"],[("children order",R+"matcher.go: AddPattern")],["router.Router.Handle","router.Router.ServeHTTP"])
prop("C04","Path variables carry the text of their path segments",
 "Inside the handler, reading a variable of the selected pattern yields exactly the text of the request path segment it stands for, for one consistent laying of the pattern over the path, and reading a name that is not in the pattern yields the empty string. This holds with ** and other wildcards before, between and after the variables and with .., repeated slashes or long segments in the path.",
 ["inputs","configurations"],"Every table, path and variable name.",
 "The tests read variables of a few fixed patterns; which segment a variable is bound to depends on the expansion of ** and on the positions computed while parsing.",
 [R+"matching_context.go",R+"matcher.go"],[("PathVar",R+"matching_context.go: PathVar"),("segment types",R+"matcher.go: Match")],["path.MatchingContext.PathVar"])
prop("C05","Duplicate patterns are refused, all others are accepted",
 "Registering for one method a pattern that differs from a registered one only in the names of its variables, in a trailing slash, or (in a case-insensitive router) in the letter case of literal and glob segments always panics, whatever was registered in between; every other valid pattern is accepted, and the same pattern for another method is no duplicate. A refused registration changes the answer to no request.",
 ["histories","inputs"],"Every sequence of registrations.",
 "The tests try fixed pairs; a duplicate is only noticed if the trie merges the right nodes whatever else it holds.",
 [R+"matcher.go","router/router.go"],[("AddPattern",R+"matcher.go: AddPattern")],["router.Router.Handle"])
prop("C06","No pattern or URL string can crash or hang pattern handling",
 "Parsing any string as a pattern ends with a pattern or an error; adding accepted patterns to a table and matching any URL path against it always returns, without a panic, a pattern that was added or none. A path with more than 19 segments matches no pattern.",
 ["inputs"],"Every string as a pattern, every string as a URL path (up to hundreds of kilobytes).",
 "Totality over all strings cannot be sampled by the fixed malformed patterns of the tests.",
 [R+"pattern.go",R+"encode.go",R+"matching_context.go",R+"matcher.go"],[("ParsePattern",R+"pattern.go"),("ParseURLPath",R+"matching_context.go")],["path.ParsePattern","path.Matcher.AddPattern","path.Matcher.Match"])
prop("C07","Glob segments match by the * and ? rules",
 "A pattern segment with wildcards matches a request segment exactly when the whole segment can be obtained by replacing every * with any text, possibly empty, and every ? with exactly one character; other characters match themselves (ignoring letter case in a case-insensitive router).",
 ["inputs"],"Every glob and every segment.",
 "Backtracking over several * has unboundedly many shapes; the tests hold a few dozen pairs.",
 [R+"pattern.go"],[("glob match",R+"pattern.go: regexSegmentMatch")],["router.Router.ServeHTTP"])
prop("C08","Equivalent spellings of a path are answered alike",
 "Empty path segments (repeated or trailing slashes) are ignored and .. removes the segment before it (and nothing at the root) before routing, and a percent-encoded character stands for the character itself (an encoded slash included), so all spellings of a path get the same handler with the same variables. A path with more than 19 segments is answered with 404.",
 ["inputs"],"Every table, path and spelling of it, and every path length.",
 "The tests parse about fifteen fixed paths and never route an over-long one.",
 [R+"matching_context.go","router/router.go"],[("ParseURLPath",R+"matching_context.go")],["router.Router.ServeHTTP"])
prop("C09","Case-insensitive routing ignores letter case, case-sensitive routing does not",
 "A case-insensitive router answers two paths that differ only in letter case with the same handler, and answers every path that a case-sensitive router with the same table answers (unless a constraint rules a letter out, and then in both cases). A case-sensitive router tells them apart exactly where a literal, a glob or a constraint does, and path variables keep the letter case of the request.",
 ["inputs","configurations"],"Every table and path, both configurations.",
 "The tests have a few case-insensitive literals; constraints, globs and merged nodes have to agree on the mode.",
 [R+"pattern.go",R+"matcher.go","router/router.go"],[("fold compare",R+"pattern.go: matchUrlPathSegment")],["router.NewRouter","router.Router.ServeHTTP"])
prop("C10","Method dispatch, handler errors and writer errors",
 "Only handlers registered for the request's method can run (methods compare without letter case) and a method without handlers gets 404; a handler that returns an error yields status 500 and that error, possibly wrapped (errors.Is finds it), is passed to the error log function, and an error while writing a response is passed to it as well; without an error log function in the configuration these errors go to the standard logger. A request that ends without an error logs nothing, and a failing request leaves later requests unaffected.",
 ["histories","inputs","fault_sequences"],"Every table over all methods and every sequence of requests in which handlers succeed, fail or fail to write.",
 "The tests issue single requests to fixed routers.",
 ["router/router.go"],[("ServeHTTP","router/router.go: ServeHTTP")],["router.Router.ServeHTTP","errLogFunc"])

G="gofre.go"
prop("C11","Middlewares run in the documented order around the handler",
 "For every request the common middlewares run in the order they were added, then the middlewares of the handler in the order given, then the handler, and they unwind in the opposite order; nil middlewares are skipped. Common middlewares apply to exactly the handlers registered after them, and a middleware that answers or fails without calling the next one keeps the rest from running.",
 ["configurations","histories"],"Every list of common and per-handler middlewares, with any of them short-circuiting, and every interleaving of adding middlewares and registering handlers.",
 "The tests use one fixed stack of middlewares.",
 [G],[("wrapMiddleware",G),("CommonMiddlewares",G)],["gofre.MuxHandler.HandleRequest","gofre.MuxHandler.ServeHTTP"])
prop("C12","Sub-muxes inherit settings, concatenate prefixes and isolate middlewares",
 "A mux obtained with Clone or with RouteUsingPathPrefix and a non-empty prefix starts with its parent's common middlewares and serves the same route table, and middlewares added later to one of them are never applied to handlers registered on another. RouteUsingPathPrefix concatenates the new prefix to the parent's prefix, with exactly one slash between two parts, and a handler registered on a mux answers exactly under that mux's full prefix.",
 ["histories"],"Every history of Clone, RouteUsingPathPrefix, CommonMiddlewares and Handle* calls over a tree of muxes.",
 "The tests derive one mux and look at its fields; sharing through slices only shows in particular histories.",
 [G],[("Clone",G),("RouteUsingPathPrefix",G),("resolvePath",G)],["gofre.MuxHandler"])
prop("C13","Concurrent requests do not influence each other",
 "When requests are served concurrently, each gets the status, headers, cookies and body, and its handler sees the path variables, that it would get alone; and serving them involves no data race. This includes requests that fail, are compressed, or carry headers and cookies.",
 ["schedules","inputs"],"Every set of requests to one mux served in parallel, under any interleaving.",
 "No test serves two requests at once; segment buffers, header maps and cookie maps are pooled and shared between requests.",
 ["router/router.go","response/response.go","response/headers.go","middleware/security.go"],[("segments pool","router/router.go"),("header and cookie pools","response/response.go")],["gofre.MuxHandler.ServeHTTP"],race=True)

A="auth/auth.go"
prop("C14","A permission implies exactly what its scope and access cover",
 "A permission implies another (whose scope has no wildcard) exactly when its access bits include all of the other's and its scope covers the other's: every level of the scope equals the other's level or is *, and the other may have further levels only if the scope's last level is *. A scope with more levels than the other's never covers it. The levels of a scope are separated by auth.ScopeSeparator, whatever it is set to.",
 ["inputs"],"Every pair of scopes of up to three levels and every pair of access masks.",
 "The tests have about fifteen pairs.",
 [A],[("Implies",A+": Permission.Implies")],["auth.Permission.Implies"])
prop("C15","Role, group and user permissions: denial wins inside a role",
 "A role grants a permission exactly when one of its allowed permissions implies it and none of its denied permissions does; a group or user grants it exactly when one of its roles (of its groups) does. HasRole is true exactly when a role of that name is among them, and the order of permissions, roles and groups never matters.",
 ["inputs","configurations"],"Every user with any groups, roles and allowed and denied permissions, and every requested permission.",
 "The tests have single roles with one or two permissions.",
 [A],[("HasPermission",A)],["auth.Role","auth.Group","auth.User"])
prop("C16","Permissions survive printing and parsing",
 "Parsing the printed form of any permission with at most three scope levels (separated by auth.ScopeSeparator) gives the same permission back, in which the accesses read, create, update, delete, add, remove, disable, enable and approve are the bits 1, 2, 4 to 256; text without an access part, with an access that is not a decimal number of 32 bits, or with more than three scope levels is refused with an error. Parsing any string neither panics nor yields a scope that differs from the text before the last colon.",
 ["inputs"],"Every permission and every string.",
 "The tests parse about six strings.",
 [A],[("ParsePermission",A),("NewPermission",A)],["auth.ParsePermission","auth.Permission.String"])
prop("C17","The authorization middleware lets through exactly the authorized",
 "A handler behind AuthorizeAll runs only if a security principal is in the context and has every requested permission, behind AuthorizeAny only if it has at least one; otherwise ErrUnauthorizedRequest is returned and the handler does not run. An authorized request reaches the handler unchanged, and an error of a permission supplier is returned without running the handler.",
 ["inputs","configurations","histories"],"Every principal (or none), every list of requested permissions, and every sequence of requests through the same middleware.",
 "The tests have four cases each and one request per middleware.",
 ["middleware/authz.go",A],[("Authorize","middleware/authz.go")],["middleware.AuthorizeAll","middleware.AuthorizeAny","middleware.Authorize"])
prop("C18","The principal supplier decides who the request acts as",
 "The principal returned by the supplier is the one that handlers and authorization below see for that request; with no principal the context's existing one stays, and an error of the supplier is returned and stops the request. No request ever sees the principal of another one.",
 ["inputs","histories"],"Every sequence of requests with any supplier outcomes through one mux.",
 "The tests make single calls with fixed principals.",
 ["middleware/auth.go","middleware/authz.go"],[("SecurityPrincipalSupplier","middleware/auth.go")],["middleware.SecurityPrincipalSupplier","auth.GetSecurityPrincipalFromContext"])

M="middleware/cors.go"
prop("C19","CORS admits exactly the configured cross-origin requests",
 "A cross-origin request whose origin is not allowed, whose method (for a preflight: requested method) is not allowed, or whose preflight names a header that is not allowed is refused with ErrAccessDenied, as are an invalid or empty origin, a preflight with an empty requested method and a POST without media type; every other cross-origin request is admitted. A refused request does not run the handler. Methods and header names compare without letter case, origins exactly; requests without Origin and same-origin requests are never refused.",
 ["inputs","configurations"],"Every CORS configuration and every request method, origin, host, media type and preflight header list.",
 "The tests try each helper with a few fixed inputs; the decision is a product of configuration and request fields.",
 [M],[("request classification",M+": getRequestType"),("checks",M)],["middleware.Cors"])
prop("C20","CORS response headers reflect the configuration, never more",
 "An admitted request's response carries Access-Control-Allow-Origin equal to * when any origin is allowed and otherwise the request's own origin (nothing or an empty value if it has none) with Origin listed in Vary; credentials, exposed headers and (for OPTIONS) max-age, allowed methods and allowed headers appear exactly as configured. The status, body and other headers of the wrapped response stay, and existing Vary entries are kept (or collapse to *).",
 ["inputs","configurations"],"Every configuration, admitted request and wrapped response.",
 "The tests check three fixed configurations of a helper.",
 [M],[("headers",M+": addStandardCorsHeaders"),("Vary",M+": addVaryHeader")],["middleware.Cors"])
C="middleware/csrf.go"
prop("C21","A state-changing request needs a fresh CSRF nonce, once",
 "Behind the CSRF middleware a request other than GET, HEAD, TRACE and OPTIONS reaches the handler only if it presents, in the header or else as a request parameter (query or form body), a nonce that the middleware issued earlier, that has not expired and that no earlier request used; otherwise it gets ErrAccessDenied and the handler does not run. Every request that reaches the handler finds a new nonce in its context, different from all others and carrying at least 96 bits of randomness, which is accepted later exactly once; GET, HEAD, TRACE and OPTIONS requests never use a nonce up. The nonce that a request uses up is out of the cache when its handler runs, so that no other process that shares the cache accepts it meanwhile.",
 ["histories","inputs"],"Every history of safe and state-changing requests with issued, reused, stale, foreign, empty and missing nonces.",
 "The tests send single requests against a prepared cache.",
 [C,"cache/cache.go"],[("nonce check",C),("nonce cache","cache/cache.go")],["middleware.CSRFPrevention"])
prop("C22","Concurrent requests cannot share one CSRF nonce",
 "When several state-changing requests present the same nonce at the same time, at most one of them reaches the handler (and one does, if the nonce is valid), while requests with different valid nonces all pass; all nonces handed out are different. Nothing races.",
 ["schedules"],"Every set of concurrent requests over shared and distinct nonces.",
 "No test issues concurrent requests; checking and removing a nonce are separate steps.",
 [C,"cache/cache.go"],[("check then remove",C)],["middleware.CSRFPrevention"],race=True)
S="middleware/security.go"
prop("C23","Security headers are exactly the configured ones on every response",
 "Every successful response behind the middleware (other than a hijacked connection) carries Strict-Transport-Security (with the configured max-age, includeSubDomains and preload) if enabled and the request is secure, X-Frame-Options with the configured value if enabled (by default the directive of the configured option, DENY if there is none, followed by the URI for ALLOW-FROM), X-Content-Type-Options nosniff and X-XSS-Protection 1; mode=block if enabled, and none of these headers otherwise than the wrapped response sets them itself. The values are the same for every request and handler that share the middleware, and errors pass through unchanged.",
 ["configurations","histories","inputs"],"Every configuration, every response type and every sequence of secure and plain requests.",
 "The tests use single requests and a few configurations.",
 [S],[("headers",S)],["middleware.SecurityHeaders"])
prop("C24","A panic below PanicRecover becomes an error, nothing else changes",
 "If the handler or a middleware below panics with any value, PanicRecover returns a non-nil error (so the router answers 500 and stays usable); if not, response and error are passed through unchanged.",
 ["inputs","fault_sequences"],"Every panic value (including nil and runtime errors), position of the panicking middleware and sequence of requests.",
 "The test panics once with one value.",
 ["middleware/panic.go","router/router.go"],[("recover","middleware/panic.go")],["middleware.PanicRecover"])
prop("C25","Errors map to the documented status codes",
 "Behind ErrJsonResponse or ErrResponse a bad-request error gives 400, an object-not-found error 404, ErrUnauthorizedRequest 401, ErrWrongCredentials and ErrAccessDenied 403 and any other error 500, with the error's text in the JSON body under error, and the error goes no further. Without an error the response passes unchanged.",
 ["inputs","fault_sequences"],"Every error value and message and every response.",
 "The tests try fixed messages; the JSON body has to carry any message.",
 ["middleware/errors.go","errors/errors.go"],[("Error2HttpStatusCode","middleware/errors.go")],["middleware.ErrResponse","middleware.ErrJsonResponse"])
prop("C26","The request dumper logs valid JSON and changes nothing",
 "For every successful request the dumper emits exactly one log entry, valid JSON whose request part shows the request as it was before the handler ran (method, URI, URL, protocol, host, remote address, length, transfer encoding, whether it is secure, headers, cookies and, if it was parsed before, form) and whose response part shows the response's status, headers and cookies, with the times of the start and the end in milliseconds; the response received by the client is byte for byte what it would be without the dumper, the handler sees the same request, body and form included, and errors pass through without an entry.",
 ["inputs"],"Every request and response (headers, cookies, bodies, response types).",
 "The test checks one request.",
 ["middleware/dump.go"],[("dump","middleware/dump.go")],["middleware.RequestDumper"])

prop("C27","Compression never changes the content of a response",
 "Decoding the body of a compressed response by its Content-Encoding gives exactly the body that the same request gets without compression, with the same status, cookies and other headers except length and encoding. This holds for every response type and level, for bodies written in any pieces, for empty bodies and for handlers that set a length themselves, flush in between, or send informational (1xx) responses and trailers, which arrive unchanged; a Content-Encoding that the response has already stays as it is; the announced Content-Length, if any, is the number of bytes sent; a long, repetitive body is sent shorter than it is, unless the level is 0.",
 ["inputs","configurations"],"Every response (type, status, headers, body, chunking), compression level and Accept-Encoding.",
 "The tests compress two short texts.",
 ["response/compress.go","middleware/compress.go"],[("compressing writer","response/compress.go")],["middleware.CompressResponse"])
prop("C28","Compression is applied only when the client asked for it",
 "A response carries a Content-Encoding added by the compression middleware only if Accept-Encoding asks for it: gzip (preferred) if gzip or compress is listed, deflate if deflate is, in any letter case, position and spacing, and never a coding with q=0; a body that is not empty and has no encoding of its own is encoded when one of them is listed without parameters. If none of gzip, compress and deflate is listed the response is sent as without the middleware. A level outside -1 to 9 makes the middleware return an error.",
 ["inputs","configurations"],"Every Accept-Encoding value and level.",
 "The tests parse a few fixed header values.",
 ["response/compress.go"],[("negotiation","response/compress.go: getCompressionAlgorithmFromHeaderValue")],["middleware.CompressResponse"])
H="response/headers.go"
prop("C29","Status, headers and cookies of a response reach the client",
 "For every response type (redirects, adapted handlers and hijacked connections aside) the client receives exactly the response's status code, every header of the response with its value (the type's Content-Type unless a header overrides it, and X-Content-Type-Options nosniff unless set otherwise) and every cookie of the response, and no other cookies; a status outside 100-999 is reported as an error. Headers and cookies added by middlewares through Headers() and Cookies() count as the response's own. Which of two spellings of one header wins is not specified.",
 ["inputs"],"Every response type, status, header map and cookie set, passed to the constructor or added later.",
 "The tests write one fixed header and cookie per type.",
 [H,"response/response.go","response/json.go","response/text.go","response/raw.go","response/streaming.go","response/template.go"],[("write",H+": HttpHeadersResponse.Write")],["response.HttpResponse.Write"])
prop("C30","The body sent is the payload of the response",
 "The body of a text or HTML response is its payload byte for byte, of a stream response the bytes of its reader however they arrive, of a raw response what its function writes, of a template response what the template renders for the data, and of a JSON response a JSON document equal to the payload ({} for no payload; the error's message with its first letter upper-cased for an error response). A reader, writer function or template that fails makes Write report an error.",
 ["inputs","fault_sequences"],"Every payload, reader chunking, template and failure point.",
 "The tests write one short payload per type.",
 ["response/text.go","response/json.go","response/streaming.go","response/raw.go","response/template.go"],[("writers","response/")],["response.HttpResponse.Write"])
prop("C31","Pooled header and cookie maps never leak between responses",
 "Whatever sequence of responses is created, modified and written, also when a response is written more than once or has been written before it is modified, the first time a response is written it is sent with exactly the headers and cookies set on it, and any later time with at least those set since and none that were never set on it, never with those of another response. Two live responses never share a header or cookie map.",
 ["histories"],"Every history of creating, modifying, writing and re-writing responses.",
 "The tests write single responses; sharing through a pool needs a history of several.",
 ["response/response.go",H],[("pools","response/response.go"),("release",H+": Write")],["response.HttpHeaders","response.HttpCookies"])
E="response/sse.go"
prop("C32","An event stream is received as the events that were generated",
 "A standard event-stream parser fed with the body of an SSE response delivers exactly the generated events, in order, each with its name, last id, retry time and data (the data lines joined by newlines), whatever characters the data contains, line breaks included. An event never runs into or splits off another one.",
 ["inputs","histories"],"Every sequence of events with any data lines; names and ids without line breaks or NUL.",
 "The tests print a few fixed events.",
 [E],[("event format",E+": ServerSentEvent.String")],["response.SSEHttpResponse"])
prop("C33","Event streams are delivered promptly and stop with the client",
 "Every event is flushed to the client before the next one is awaited, also behind the compression middleware; the response has content type text/event-stream and Cache-Control no-cache (unless the application sets these headers itself), and the generator gets the client's Last-Event-Id and the request context. After the request is cancelled or a write fails no further event is sent, and a request that is not HTTP/2 is refused with 500 and an error.",
 ["histories","fault_sequences"],"Every sequence of events, cancellation point, write failure point and set of wrapping middlewares.",
 "The test runs one generator to its end on a recorder that does not distinguish flushed from buffered data.",
 [E,"response/compress.go"],[("flush",E+": Write"),("flush","response/compress.go: Flush")],["response.SSEHttpResponse"])
prop("C34","A standard http.Handler behaves the same behind the framework",
 "Status, headers, body, cookies, trailers and informational (1xx) responses produced by any http.Handler or HandlerFunc are the same whether it is served directly or through the framework's adaptor, apart from headers and cookies that middlewares add on the adapted response, and the handler gets the original request.",
 ["inputs"],"Every sequence of calls a handler makes on its ResponseWriter and every request.",
 "The tests adapt one trivial handler.",
 ["response/adaptor.go","handler/handler.go"],[("adaptor","response/adaptor.go")],["handler.Handler2Handler","handler.HandlerFunc2Handler"])
prop("C35","One cookie per name, path and domain; the last one wins",
 "A cookie set holds, after any sequence of additions of valid cookies, exactly one cookie for each combination of name, path and domain, the one added last, and cookies that differ in one of these never replace each other; nil cookies are ignored.",
 ["histories","inputs"],"Every sequence of additions.",
 "The tests add two or three cookies.",
 ["response/response.go"],[("Add","response/response.go: HttpCookies.Add")],["response.HttpCookies","response.NewHttpCookie"])
prop("C36","A redirect keeps its target, headers and cookies",
 "A redirect response is sent with its status (301, 302 or 303) and the Location that http.Redirect computes for its URL and the request, together with all headers (other than Location) and cookies that the handler or middlewares put on it.",
 ["inputs"],"Every URL (absolute, rooted, relative, with query), request, header map and cookie set.",
 "The test checks the Location of one URL.",
 ["response/redirect.go"],[("Write","response/redirect.go")],["response.RedirectHttpResponse"])
prop("C37","Static assets serve the files of the asset directory and nothing else",
 "A GET below the assets path answers with the content of exactly the file that the rest of the path names inside the asset directory (or the requested range of it, or 304 if it is not modified), and with 404 if there is neither a file nor a directory of that name (what a directory or its index.html answers is not specified, but it comes from inside); whatever the path contains (dot segments, repeated or encoded slashes), no content from outside the directory is ever sent. The assets path is the context path followed by the mapping path, in every spelling that the router takes for it (repeated slashes, dot segments, escapes, letter case if the paths are matched case-insensitively).",
 ["inputs","configurations"],"Every directory tree, context path, mapping path and request path.",
 "The tests do not request an asset.",
 [G],[("file server",G+": NewMuxHandler")],["gofre.NewMuxHandler","gofre.MuxHandler.ServeHTTP"])
O="auth/oauth/"
prop("C38","The OAuth2 callback accepts only states that were issued and unexpired",
 "With a cache configured, the authorize endpoint exchanges the code and runs the handler only if its state parameter is one that the initiate endpoint issued and that has not expired, the provider named in the path is configured and no error parameter is present; otherwise an error is returned (unauthorized, or bad request for the provider) and neither the provider nor the handler is called; the first time such a state is presented the request is not refused. Every state is new and cannot be guessed, whatever the application does with math/rand. When it runs, the handler finds the provider's access token and, if user details are requested, the provider's user as the security principal in its context, and a provider error is returned instead.",
 ["histories","fault_sequences","configurations"],"Every history of initiate and authorize requests over one or several providers, with issued, foreign, expired and missing states and failing providers.",
 "The tests run each endpoint once against mocks.",
 [G,O+"oauth2.go"],[("HandleOAUTH2WithCustomPaths",G)],["gofre.MuxHandler.HandleOAUTH2"])
prop("C39","Provider answers become a token or user, or an error, never a panic",
 "For any HTTP answer of GitHub's or Google's endpoints, fetching the access token yields the token, type, scopes and (Google) refresh token and lifetime that a 2xx JSON answer states, and fetching the user yields its e-mail address (else its login or id) and name, with the provider as its identity platform; any answer that lacks a token or an identity, is not JSON, or is not 2xx gives an error. The request sent goes to the configured (by default the provider's public) endpoint and carries the client credentials and code, or the bearer token, as given, and asks for JSON; the body of every answer is closed, and a configured endpoint that is no URL gives an error.",
 ["inputs","fault_sequences"],"Every status and body an endpoint may answer with, and every failure of the connection.",
 "There are no tests of the providers; the body is outside input.",
 [O+"github.go",O+"google.go"],[("FetchAccessToken",O),("FetchAuthenticatedUser",O)],["oauth.GitHubProvider","oauth.GoogleProvider"])
prop("C40","The initiate redirect carries the provider's parameters faithfully",
 "The initiate endpoint redirects to the authorize endpoint of the selected provider with client id, redirect URI (website URL, mux prefix, authorize path and provider name), a new state, the configured scopes plus the user-info scopes exactly when user details are requested, and the optional parameters that are configured, each decoding to the configured value, no other parameters, and never the client secret. Building it never changes the provider's configuration.",
 ["inputs","configurations","histories"],"Every provider configuration (any characters), any sequence of calls.",
 "There are no tests of the providers' URLs.",
 [O+"github.go",O+"google.go",G],[("InitiateUrl",O)],["oauth.Provider.InitiateUrl","gofre.MuxHandler.HandleOAUTH2"])
prop("C41","The in-memory cache is a set of keys with expiry",
 "A key is contained exactly if its last addition was not followed by a removal and its lifetime has not passed; adding it again restarts the lifetime, other keys are unaffected, and removing an absent key does nothing.",
 ["histories"],"Every sequence of additions with any lifetime (zero and negative included), removals and queries, as time passes.",
 "There are no tests of the cache.",
 ["cache/cache.go"],[("InMemory","cache/cache.go")],["cache.InMemory"])
prop("C42","The in-memory cache can be used by concurrent requests",
 "Concurrent additions, removals and queries on one cache never race or crash, and each key behaves as in some sequential order of the operations on it: an addition that has completed is seen until a removal starts.",
 ["schedules"],"Every set of concurrent operation sequences over shared and private keys.",
 "There are no tests of the cache; CSRF protection and OAuth2 use it from concurrent requests.",
 ["cache/cache.go"],[("InMemory","cache/cache.go")],["cache.InMemory"],race=True)
prop("C43","Middlewares compose with every response type",
 "Any stack of the provided middlewares (panic recovery, error response, CORS, security headers, compression, dumper, CSRF, authorization) and of middlewares of the application that add headers and cookies to the response around any response type, connection hijacking and adapted handlers included, answers an admitted request with the status, decoded body, headers and cookies of the bare response plus the headers and cookies of the middlewares in the stack; what is sent on a hijacked connection stays as it is.",
 ["configurations","inputs"],"Every stack of middlewares and every response type.",
 "The tests apply one middleware to a text response.",
 ["middleware/","response/"],[("Headers()","response/"),("middlewares","middleware/")],["gofre.MuxHandler.ServeHTTP"])
prop("C44","A request's path variables outlive other requests",
 "A handler, and the response it returns while it is written, see the path variables of their own request for as long as the request is being served, also when other requests are served meanwhile by the handler or the response itself, and when those or earlier ones fail or panic. A clone of the matching context made in that time keeps these values, and the request, for ever after.",
 ["histories","fault_sequences","inputs"],"Every table, and every history of nested requests that are answered, fail or panic in the handler or while the response is written.",
 "The tests look at a context right after matching; the segments are kept in pooled buffers that other requests reuse.",
 ["router/router.go",R+"matching_context.go"],[("segments pool","router/router.go: ServeHTTP"),("Clone",R+"matching_context.go")],["path.MatchingContext.PathVar","path.MatchingContext.Clone"])
prop("C45","Templates of the configured files render as html/template does",
 "With resources configured and no template given, the mux renders the files that the pattern (by default resources/templates/*.html) selects exactly as html/template does, with safe marking text as HTML, on the mux and all muxes derived from it; NewMuxHandler returns an error if there are no such files or one is malformed. A given template is used as it is, and the default assets directory resources/assets is served at /assets below the context path.",
 ["inputs","configurations"],"Every set of template files, file pattern, data and tree of muxes.",
 "The tests replace the template by a mock.",
 [G],[("setDefaults",G),("ExecutableTemplate",G)],["gofre.NewMuxHandler","gofre.MuxHandler.ExecutableTemplate"])
prop("C46","Debug endpoints answer as the standard ones, behind the common middlewares",
 "After EnableDebugEndpoints a GET of debug/vars or of debug/pprof with the name of a profile (or cmdline, symbol, profile, trace or none for the index) below the mux's prefix answers as the standard library's handler does, for every spelling of the path that is routed there; other names and methods are not answered by them. The common middlewares added before run for each of these requests, and one that refuses keeps the profile from being sent.",
 ["configurations","inputs"],"Every prefix, list of common middlewares, letter case mode, endpoint and spelling.",
 "The tests look for 200 at fixed paths without prefix or middlewares.",
 [G],[("EnableDebugEndpoints",G)],["gofre.MuxHandler.EnableDebugEndpoints","gofre.MuxHandler.ServeHTTP"])
prop("C47","Concurrent OAuth2 logins do not interfere",
 "When many users log in at the same time through one mux, each initiate redirect has a state of its own and exactly the configured client, redirect URI and scopes, and each callback runs the handler exactly once with the token and user of its own code; a login that fails or is never finished changes nothing for the others, and neither the providers nor the configuration are modified. Nothing races.",
 ["schedules","histories"],"Every set of concurrent logins over one or several providers, some of them failing.",
 "The tests run each endpoint once, one after the other; providers, configuration and cache are shared by all requests.",
 [G,O+"oauth2.go",O+"github.go",O+"google.go"],[("HandleOAUTH2WithCustomPaths",G)],["gofre.MuxHandler.HandleOAUTH2"],race=True)
prop("C48","What a middleware passes on is what the next one gets",
 "A handler and every middleware get the context that the middleware around them passed on, outermost the request's own: values, deadline, cancellation and its cause arrive through every provided middleware and hold until the response is written, and the outer contexts stay as they are. They also get the request passed on (method, URL, headers, and the body as it was sent, unless a CSRF nonce has to be looked for in it) and the path variables. Nothing put into the context of one request is seen by another one.",
 ["configurations","histories","inputs"],"Every stack of own and provided middlewares and every sequence of (nested) requests.",
 "The tests call each middleware alone, with an empty context.",
 ["middleware/","router/router.go"],[("middlewares","middleware/"),("ServeHTTP","router/router.go: ServeHTTP")],["handler.Handler"])
prop("C49","A hijacked connection belongs to the application",
 "The callback of a hijack response is called exactly once: with the client's connection and a buffer from which every byte that the client sends after its request can be read, those that arrived with the request included. What the application writes reaches the client as written, nothing else is ever sent, and the connection stays open until the application closes it, also after the request has been handled and behind any of the provided middlewares. If the connection cannot be hijacked the callback gets the error and no connection. All of this holds as well for an adapted http.Handler that hijacks its ResponseWriter itself, also after it has answered 101 with its own headers.",
 ["inputs","histories","configurations","fault_sequences"],"Every sequence of bytes sent in both directions, every stack of middlewares, and connections that cannot be hijacked.",
 "The test calls Write with a stub that returns nothing.",
 ["response/hijack.go","response/compress.go"],[("Write","response/hijack.go"),("Hijack","response/compress.go")],["response.NewHttpHijackConnectionResponse"])
prop("C50","Earlier requests, later routes and other servers do not matter",
 "At every moment a router or mux answers a request as a new one with the same routes would: which handler runs, with which path variables, the status and what is logged depend only on the request and on the routes registered by then, not on requests served before (also when their handlers failed or panicked, or ran other requests meanwhile), on whether a route was registered before or after the first request, nor on the other routers and muxes of the process and their letter-case rules.",
 ["histories","configurations","inputs"],"Every interleaving of registrations and requests over every set of servers in one process.",
 "The tests build a router, serve a request or two and discard it; whatever is kept between requests or shared between routers needs a history to show.",
 ["router/router.go","router/path/",G],[("ServeHTTP","router/router.go: ServeHTTP"),("Handle","router/router.go: Handle"),("Match","router/path/matcher.go")],["router.Router.ServeHTTP","gofre.MuxHandler.ServeHTTP"])
prop("C51","Settings that are made are used, the others have their documented defaults",
 "However a mux or router is created, each setting that is made is in effect and each one that is not has its documented default: case-sensitive paths, context path \"/\", errors to the standard logger, no resources; with resources, the templates resources/templates/*.html, the assets ./resources/assets below the path assets. No setting depends on another one being made. Config() of the mux and of the ones derived from it returns the settings in effect, as a copy: changing it changes nothing.",
 ["configurations"],"Every combination of settings made and not made, and every way to create a mux or router.",
 "The tests create a handful of fixed configurations.",
 [G,"router/router.go"],[("setDefaults",G),("NewMuxHandler",G)],["gofre.NewMuxHandler","gofre.NewMuxHandlerWithDefaultConfig","gofre.NewMuxHandlerWithDefaultConfigAndTemplateSupport","gofre.NewDefaultResourcesConfig","gofre.MuxHandler.Config"])

PBT = "property-based testing (rapid, shrinking): "
TECH = {}
for ids, how in {
  "C01 C02 C03 C07 C08": "generated pattern tables and paths against a reference matcher",
  "C04": "generated routes, values and paths; substitution round trip and reference matcher",
  "C05 C06": "generated patterns and registration sequences against a reference parser, metamorphic over registration order",
  "C09": "metamorphic relation over method and path spellings, against the reference matcher",
  "C10 C17 C18 C24 C25": "stateful histories with injected failures and panics against a model",
  "C11 C12": "stateful histories of registrations against a model of the middleware order and prefixes",
  "C13": "generated concurrent histories under the race detector, differential against the same requests served alone",
  "C14 C15": "generated permissions and principals against a set-theoretic model, metamorphic over order",
  "C16": "parse and print round trip over generated texts against a reference parser",
  "C19 C20": "stateful request sequences against a model of the admission decision and headers",
  "C21 C38": "stateful histories with a virtual clock and failing cache or providers against a model of the issued tokens",
  "C22": "generated concurrent histories under the race detector, invariants over the history",
  "C23 C26 C27 C28 C34 C43": "differential against the same response without the middleware or framework, plus a model of what is added",
  "C29 C30 C31 C35": "generated responses (and histories of their use) against a model of what has to be sent",
  "C32": "generated event streams, round trip through a parser written from the standard",
  "C33": "generated schedules, cancellations and write failures with invariants over what the client has received",
  "C36": "differential against http.Redirect over generated responses",
  "C37": "generated directory trees and hostile paths against a model of the served files",
  "C39": "generated and faulty provider answers (stub transport) against a model",
  "C40": "generated configurations, URL decoding round trip and frame condition on the configuration",
  "C41": "stateful histories over real time with tolerance windows against a model",
  "C44": "generated histories of nested and failing requests, differential against the same requests served alone",
  "C45": "generated template files and data, differential against html/template",
  "C46": "generated configurations and requests, differential against the standard handlers",
  "C49": "generated exchanges over hijacked TCP connections against the script of the exchange",
  "C50": "stateful histories of registrations and requests over several servers against a reference matcher, differential against a new server",
  "C51": "generated configurations and directory trees against a model of the defaults, differential against html/template",
  "C48": "generated stacks of middlewares and request histories against a model of what is passed on",
  "C47": "generated concurrent histories of logins under the race detector against a model (stub providers)",
  "C42": "generated concurrent histories under the race detector, linearizability checking (porcupine)",
}.items():
    for i in ids.split(): TECH[i] = PBT + how

def main():
    have = set(sys.argv[1:]) or None
    impl = os.popen("grep -oh 'register(\"C[0-9]*\"' %s/harness/*.go" % V).read()
    claimed = {x.split('"')[1] for x in impl.split()}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
              "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
              "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] not in claimed:
            na.append({"property": p["id"], "reason": "the check is not built yet"})
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py " + p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
          "technique": TECH[p["id"]], "level": "exploration",
          "level_note": p["note"] or "Generated-input search with a reference model written from the property, through the public API of the working tree; it shows the presence of violations, not their absence, within the generators' bounds (DESIGN.md)."})
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: everything goes through the exported API. Replay a violation with: python3 run.py <id> --replay <file>."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
    try:
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for l in open(os.path.join(V, "properties.jsonl")): jsonschema.validate(json.loads(l), s)
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        print("valid,", len(P), "properties,", len(checks), "claimed")
    except ImportError:
        print("written (jsonschema not available)")
main()
