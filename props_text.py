LOCKS = "static analysis: interprocedural lockset (must/may) dataflow over SSA, lock-order graph and blocking effects"
PROXY = "api/proxy.go"
prop("C01", "Only requests the cache can answer faithfully are answered from it",
 "A request is answered from the cache only if it is a GET, the requested resource type is one the cache holds and every query parameter is one the cache implements (labelSelector, timeoutSeconds, timeout, limit); every other request goes to the API server. In turn a GET of a cached type is sent to the API server only because of a query parameter outside that set or a selector that does not decode.",
 ["inputs", "configurations"], "every request (method, path, any set of query parameters in any order) and every configuration of cached types",
 "the handler test samples a handful of URLs; the set of parameters, methods and types is unbounded and Go iterates the parameters in random order",
 [PROXY, "server/route.go"], [("gate of the request handler", PROXY)],
 "Decided for all paths of the handler with every parameter order (loop summary). Trusts the library models of net/http and net/url; what the store answers to the membership question is decided by C12.")
prop("C02", "The cache is read for exactly the resource the path names",
 "Every cache read takes group, version, resource type, namespace and object name from the path variables of that name. A path that names an object is answered with exactly the object read or, if there is none, with a 404 status; a path that names none is answered with a list whose kind is the configured one and whose apiVersion is the version, prefixed with the group and a slash if there is one.",
 ["inputs"], "every request path and cache content",
 "tests sample few paths and only compare whole bodies of one configured type",
 [PROXY, "server/route.go", "common/config.go"], [("path variables into cache reads", PROXY)],
 "Decided on all paths of the handler. JSON encoding is trusted.")
prop("C03", "Each request is routed to the cluster it names",
 "Single reads and forwarded requests use the cluster the request names: a marker of the delete options, else a marker of the query (cluster, or a prefixed fieldManager or resourceVersion), else the first cluster of its search, else the configured default. A request for a cluster that is not configured is answered 404 and sent nowhere.",
 ["inputs", "configurations"], "every request naming at most one cluster and every set of configured clusters",
 "tests cover a few markers with one cluster; precedence, all marker forms and absence must hold for every request",
 [PROXY], [("choice of the cluster", PROXY)],
 "Decided on all paths with the loop over the query summarised. Requests carrying several different markers at once are outside the property (their choice depends on map order).")
prop("C04", "Forwarded requests and their answers keep their meaning",
 "A forwarded request keeps the method, the path and - unless it is a GET - the body it came with, also when the body was read to look for a marker, and a patch keeps its content type. The bytes the API server answers are what the client gets; a status error of the API server is answered as that very status with its code, and any other failure is reported as an error and never as a success.",
 ["inputs", "fault_sequences"], "every request that is forwarded and every answer or failure of the API server",
 "tests use few bodies and an API server that always succeeds; every method, body and failure has to be passed on",
 [PROXY], [("building of the upstream request and handling of its answer", PROXY)],
 "Decided for every way a forward can be built and every return after it. The REST client library is trusted.")
prop("C05", "Cluster markers never reach the API server and nothing else is removed",
 "A forwarded request loses exactly its cluster markers: query parameters whose value is a marker, and the first dry-run entry of delete options if it is a marker; only the timeout of a watch and the label selector may otherwise be changed in its query. A label selector that could be read and holds more than the search is forwarded without the search and with everything else in it; one that holds nothing else stays as it came, and is taken away only from a watch and only if it is <none>. The client helpers that mark get, create, update, patch and delete options write just the markers the proxy understands and refuse to overwrite a value the caller has set.",
 ["inputs"], "every forwarded request, with any parameters and any delete options, and every options value and cluster name given to the helpers",
 "tests check a few markers; a marker that slips through turns a delete into a rejected dry run",
 [PROXY, "page/page.go"], [("cleaning of markers", PROXY), ("writers of markers", "page/page.go")],
 "Decided on all paths with the loop over the query summarised. How a selector is parsed is C23; how the library writes one (FormatLabelSelector) is trusted.")
prop("C06", "A list that names no cluster shows the default cluster only",
 "A list read of the cache whose search names no cluster is restricted to exactly the configured default cluster; a list whose search names clusters is not restricted any further.",
 ["inputs", "configurations"], "every list request and every configured default cluster",
 "the tests have one cluster; a missing restriction only shows with several, an added one only for particular searches",
 [PROXY, "page/page.go"], [("default cluster of list reads", PROXY)],
 "Decided on all paths of the handler. What GetClusters reads from a search and Clusters writes to it is decided by C25.")
prop("C07", "Label selectors filter cached lists exactly",
 "A list request with label requirements is answered with exactly those objects the search selects in the cache whose labels the requirements match, each once and in the order of the cache, before any page is cut; the entry of the selector that carries the search is itself no requirement, and no other entry is dropped or changed.",
 ["inputs"], "every label selector and every content of the cache",
 "the tests use few selectors on few objects; the filter has to be exact for every selector and object, and independent of the page asked for",
 [PROXY, "kube/kube.go"], [("label filter of lists", PROXY)],
 "Decided on all paths of the handler with the loops over requirements and objects summarised. How a selector is parsed is decided by C23, how the library matches labels is trusted.")
prop("C08", "Pages are exact, and never beyond the end",
 "For every page number and page size a list holds exactly the objects (page-1)*size up to page*size of the full result, all of them if page or size is not positive; the remaining count is the number of objects after the page; a page of number two or more that starts behind the last object is answered with an error, and no other request is. This holds for the page cut by the cache and for the one cut after the label filter, without overflow for any 64 bit page and size.",
 ["inputs"], "every page number and size (64 bit) and every length of the result",
 "tests try a few small pages; off-by-one and overflow at the ends need particular combinations of page, size and total",
 [PROXY, "store/memory/memory.go"], [("page cut after the label filter", PROXY), ("page cut by the cache", "store/memory/memory.go")],
 "Decided with linear arithmetic over products of page and size (polyhedra over monomials), for results of up to 2^59 objects.")
MEM = "store/memory/memory.go"
prop("C09", "Query results are totally ordered by the sort terms, then by identity",
 "The objects of a cache query are ordered by its comma separated sort terms, the first that differs deciding: each term compares the values of its index entry, as text or - only if it says !int - as numbers, ascending or - only if it says desc - descending. Objects equal in all terms are ordered by cluster, namespace and name, so pages of one query never overlap. A key the objects do not have, an unknown type or order and a value compared as a number that is none make the query fail; blank terms are ignored.",
 ["inputs"], "every sort string and every set of indexed objects",
 "the result of a sort has to be right for every input; a comparison that is no strict order only shows for particular sets of objects",
 [MEM], [("parsing of sort terms and comparison", MEM)],
 "Decided on all paths of the comparison for sort terms of any number (loop summarised), by equivalence over the atoms of a total order. sort.Slice is trusted; NaN values are outside.")
prop("C10", "A cache query returns exactly the stored objects that match",
 "A query of a resource type returns every object of that type that is stored in any cluster, in the namespace asked for (or in any, if none is asked for), whose index the search matches - each once, and no other object; the number of all of them is the total. An error of the search is the error of the result and not an object left out silently.",
 ["inputs", "histories"], "every query and every content of the store",
 "tests query a few objects; completeness must hold for every nesting of clusters, namespaces and objects",
 [MEM], [("collection of matching objects", MEM)],
 "Decided over the three nested iterations of a query, summarised; the iteration helpers of the store are followed.")
prop("C11", "Search conditions are matched by their exact meaning",
 "An object matches a search if and only if it matches every one of its conditions. A condition key=value holds if the quoted index entry of that key contains the value (so a value given in quotes has to equal it), a text without a key if some quoted entry contains it; a value or text after an exclamation mark negates its condition; a condition with the advanced prefix holds if its selector matches the index; an empty condition holds always. A key the index does not have and a selector that is missing or does not parse are errors, nothing else is, and a condition in error does not match.",
 ["inputs"], "every index and every list of search conditions",
 "table tests fix a few conditions; quoting, negation and missing keys combine",
 ["page/page.go"], [("Match and its forms of conditions", "page/page.go")],
 "Decided on all paths of one condition, and for lists of up to three conditions by comparison with the single matches. Splitting the search string into conditions is not part of it.")
prop("C12", "Every operation of the cache concerns exactly one object, cluster and type",
 "Adding, changing or deleting an object changes exactly the entry of its type, cluster, namespace and name in the cache - it sets it to the object given, respectively removes it - and removes or replaces no other; missing clusters and namespaces are created, existing ones are kept. A lookup answers the object stored under exactly the type, cluster, namespace and name asked for, and nothing only if there is none. Purging a cluster removes all objects of that type and cluster and no object of another. No operation dereferences a type, cluster or namespace that is not there: reading a type the cache does not have answers nothing or an error. A type counts as cached if and only if the cache has it; a new cache has exactly the types it was given index configurations for.",
 ["histories", "inputs"], "every history of operations, as each of them is decided for every state of the store and every object",
 "tests add and read a few objects in one cluster and namespace; that no operation touches a neighbour is a statement about every pair of objects",
 [MEM], [("operations of the memory store", MEM)],
 "Decided on all paths of each operation by following every map that is changed to the keys that lead to it from the store. Objects that are no Kubernetes objects (no metadata) are outside; concurrent operations are C17.")
prop("C13", "What is indexed and annotated is the object's own data",
 "The index stored with an object holds its cluster, namespace, name and whether it is being deleted, whatever else is configured, and for every configured key the configured text, or the configured template or path applied to that very object and nothing left from another. The object gains the cluster annotation and the index annotation (that index as JSON) and loses none of its annotations.",
 ["inputs", "configurations"], "every object and every configured index",
 "tests index a few objects with well formed templates; the index must be right for every object, also where keys collide or templates fail",
 [MEM, "utils/utils.go"], [("building of the index", MEM)],
 "Decided on all paths of adding and changing, with the loop over the configured index summarised. text/template, jsonpath and JSON encoding are trusted.")
W = "watcher/watcher.go"
prop("C14", "Watch events reach the store as what they are, for every type and cluster",
 "One stream is opened for every configured resource type and every configured cluster: with the client configuration of that cluster, at the watch path of exactly that group, version and type, decoding with a scheme that knows the kind of the type and that no other stream changes. Every added, modified and deleted event of a stream is applied to the cache as an addition, change or deletion of exactly the object it carries, under the type and cluster of its stream; no other event is. The streams use the client configurations, types and store the watcher was made with.",
 ["histories", "configurations"], "every configuration of types and clusters and every sequence of events a stream delivers",
 "no test runs the watcher; a lost or mixed up event only shows for a particular type, cluster or order",
 [W], [("streams and dispatch of their events", W)],
 "Decided on all paths of the stream goroutine with its loops summarised. Decoding by client-go and its delivery of events are trusted; that streams start is decided up to the go statement.")
prop("C15", "A reconnected stream purges once, and only when it delivers",
 "Objects of a type and cluster are purged only after the new stream has delivered something, so that they stay visible while the API server is unreachable; they are purged at most once per stream, for exactly its type and cluster, and always before the first event of the stream is applied, so that objects deleted during the outage do not stay.",
 ["fault_sequences", "histories"], "every sequence of connections, failures and events",
 "needs a connection that breaks and comes back at particular points, which the tests never produce",
 [W], [("first event of a stream", W)],
 "Decided on all paths of the stream goroutine with its loops summarised. A stream that ends before it delivers an event may purge (its end is the first thing it delivers).")
prop("C16", "Streams are reopened after every failure until the watcher is stopped",
 "Every stream is reopened whenever it could not be opened or ended, after a pause, and is released before, but not as long as it delivers; an ended stream is not read again. After Stop no stream is opened and nothing is read, and every wait for an event ends with the stop.",
 ["fault_sequences", "schedules"], "every sequence of failing and ending streams and every moment of the stop",
 "liveness under faults: tests never let a stream fail, end or be stopped",
 [W], [("reconnect loop", W)],
 "Decided on the loops of the stream goroutine: their exits imply the stop, every iteration opens, pauses and releases. Timing (how long a pause is, how fast the stop acts) is not decided.")
prop("C17", "Shared state is only used under its lock, and locks cannot deadlock",
 "Every field that is changed after its struct was built (the maps of the store, the store and clients of the server, the channels of the watcher and the fake server) is read and changed only with the lock of its struct held, for writing if it is changed, and neither the maps nor a copy of the lock get out; package variables are changed only under a lock or atomically. Every lock is released on every path, as it was taken, no two locks are taken in different orders or twice, and none is held while waiting for a channel, a connection, a request or a sleep.",
 ["schedules"], "every interleaving of requests, watch events and reloads",
 "data races and deadlocks need an interleaving; the tests run one goroutine",
 [MEM, "server/server.go", "common/config.go", "pkg/client/fake/fake_ckube.go", W, "utils/fs_watcher.go"], [("locks of the cache", MEM), ("replaceable state of the server", "server/server.go"), ("configuration snapshot", "common/config.go")],
 "Decided by an interprocedural must/may lockset analysis of all functions reachable from the entry points, call contexts joined; which lock belongs to a field is inferred from the struct that holds both.", technique=LOCKS)
TAINT = "static analysis: interprocedural alias/taint dataflow over SSA (references into the cache) with a mutation-effect rule"
SRV, ROUTES = "server/server.go", "server/route.go"
prop("C18", "Readers of the cache never change what is cached",
 "What the cache hands out - the objects of a lookup or a query, and the index entries a query visits - is only read: no request handler and no read of the store writes into such an object, changes a map or slice of it, or calls one of its setters. A response to one client therefore never changes what another sees, and a query leaves the cache as it was.",
 ["inputs", "histories", "schedules"], "every request and every object in the cache, as the rule holds for every instruction that can get such a reference",
 "the cache hands out pointers; an edit of one response only shows in a later request for the same object, and as a race",
 [PROXY, MEM, "api/extend/deploy2service.go", "page/page.go"], [("handlers using results of the store", PROXY), ("reads of the store", MEM)],
 "Decided flow-insensitively for the whole repository: references are followed through assignments, containers, closures and calls. Library functions are taken to change their arguments only if they are known to or are named as mutators.", technique=TAINT)
prop("C19", "Without the configured token nothing of the cluster is served",
 "If a token is configured, a request is answered from the cache, from a cluster or with the services of a deployment only if its Authorization header contains the token; every other request for them gets status 401 (as the code of the answer and of the status in it) and nothing else happens for it. With the token, or if none is configured, it is served. The liveness and metrics paths are served without a token. The token is read once per request, so a reload in between cannot let it through.",
 ["inputs", "configurations", "schedules"], "every request, every route and every configured token, with reloads at any moment",
 "no test runs the server with a token; a route registered without the requirement, or a second read of the token during a reload, shows for one path or moment only",
 [SRV, ROUTES, "common/config.go"], [("check before the handler", SRV), ("routes that require it", ROUTES)],
 "Decided for every registered route (the registration is executed symbolically) on all paths of the function that answers it. Routes added by the caller of NewMuxServer (only the fake server does) are outside.")
prop("C20", "Every result of a handler becomes the answer it stands for",
 "What a handler returns determines the answer: nothing is added if it returned nothing, bytes and strings are sent as they are, a status is sent as JSON with its own code, an error or a panic is answered 500 and never ends the server, everything else is sent as JSON with 200, and what is sent as JSON is declared as JSON; the middleware calls the handler once and passes on all it writes. Each request is served with the store and the clients of the last reload, together, and before the first reload with those the server was made with. Running serves the registered routes at the address given, stopping shuts down the server that runs, waiting for requests under way, and fails if none does.",
 ["inputs", "fault_sequences", "schedules"], "every route, every kind of result, panics at any point of a handler and reloads at any moment",
 "tests call the handlers directly; the code between a handler and its client, and what a request is served with after a reload, is never run",
 [SRV, ROUTES], [("answering of a request", SRV), ("replacing of the store", SRV)],
 "Decided for every registered route on all paths of the function that answers it, per dynamic type of the result; net/http, gorilla/mux and JSON encoding are trusted.")
prop("C34", "Paths reach the handler, and bind the names, the Kubernetes API gives them",
 "A GET of an API path that names a collection or an object (core or group API, namespaced or not) reaches the proxy with exactly its group, version, namespace, type and name bound; sub-resources and every other path and method reach the proxy as well, without being taken for a list or an object they do not name. The two paths for the services of a deployment reach that handler with cluster, namespace and deployment bound; the liveness and metrics paths are answered by the server itself and the liveness answer is 200. Routes the server is made with are all registered on the router that is served, before its own.",
 ["inputs"], "every path and method, by classes: each literal of a template or any other segment per position, with and without a trailing slash",
 "no test goes through the router; one template with swapped names or placed too early takes requests from others",
 [ROUTES, SRV], [("table of routes", ROUTES), ("registration of routes", SRV)],
 "Decided on the templates registered by symbolic execution of the registration, compared with the grammar of API paths for every class of paths; the matching rules of gorilla/mux are modelled, templates with regular expressions are not understood (reported as undecided).")
prop("C21", "A reload replaces everything or nothing, and follows every change",
 "Every change of a watched file (all files the configuration is read from) leads to a new load of the same files. When the load succeeds the new configuration, store, clients and watcher replace the old ones together and the previous watcher, and only it, is stopped; when any step fails nothing is replaced, reset or stopped and the program goes on serving what it had. A first load that fails ends the program with a failure; one that succeeds is served.",
 ["fault_sequences", "histories"], "every sequence of file events, every step of a load that can fail, on the first load and on reloads",
 "the program's main function is never run by a test; a failing step in the middle of a reload or a second reload are histories no test builds",
 ["cmd/cacheproxy/main.go"], [("reloading", "cmd/cacheproxy/main.go"), ("watching of files", "utils/fs_watcher.go")],
 "Decided on all paths through the start and one arbitrary reload (the running watcher is tracked as a loop-carried value, so over any number of reloads); what os, clientcmd and the JSON/YAML decoders return is unknown. Whether a file event is reported at all is C22.")
prop("C32", "Every cluster and resource configured is connected as it is configured",
 "Each context of the kubeconfig in use (-k, or the default one) gets a config for the watcher and a client for the server built from this kubeconfig and this context, under its name; the current context is the default cluster. Without a kubeconfig, and only then, the service account serves the one cluster, named as configured or \"default\". Each configured proxy is watched and stored under its own group, version and resource with its own indexes. A context that cannot be used fails the load.",
 ["configurations"], "every configuration file and kubeconfig, any number of proxies and contexts, on the first load and on reloads",
 "tests build stores and watchers by hand; how the program derives them from its files is not run by any test",
 ["cmd/cacheproxy/main.go"], [("loading of the configuration", "cmd/cacheproxy/main.go")],
 "Decided by value flow: every entry of every map and list handed to the watcher, the store and the server is traced to an element of a decoded file, and every element is shown to get one; clientcmd and the decoders are trusted.")
prop("C22", "No change of a watched file goes unnoticed, however often it is replaced",
 "All files given are watched or starting fails. For every event with a write, removal or rename among its operations a notification naming the file is delivered, or the watcher was closed meanwhile; it is never dropped. A removed or renamed file is watched again: at once, or, while it does not exist, by trying again on every tick, and when that succeeds its change is reported. Errors of the underlying watcher are read and end nothing; watching ends only when the watcher is closed, which closes the channel of notifications, frees a notification nobody takes, and never closes a channel twice or under its sender.",
 ["histories", "fault_sequences"], "every set of operations an event can carry, every sequence of events, errors, ticks and failing re-additions",
 "tests touch a file and wait seconds; replaced, missing and reappearing files, combined operations and a slow reader are not run",
 ["utils/fs_watcher.go"], [("file watcher", "utils/fs_watcher.go")],
 "Decided on all paths of one arbitrary iteration for each of the 31 sets of operations; the map of missing files is tracked as a loop-carried value. What fsnotify reports is trusted; changes between a removal and the re-addition are covered by the notification that follows.")
PAGE, LABEL = "page/page.go", "kube/label.go"
prop("C23", "A selector string is read with every one of its requirements",
 "The label selector ParseToLabelSelector returns has one requirement per requirement of the string, with its key, its values and the operator that means the same: equality (two different values for one key both stay required), in, not in and not equal, exists, does not exist. A string that does not parse, or has an operator a label selector cannot express, is an error, and never a selector with fewer requirements.",
 ["inputs"], "every selector string: any number of requirements, any keys and values, every operator",
 "tests parse a few strings; dropping or changing a requirement only widens or narrows what is listed, for combinations of operators and repeated keys nobody writes in a test",
 [LABEL], [("parsing of selectors", LABEL)],
 "Decided for one arbitrary requirement with an arbitrary history of labels, per operator; that the loop visits all requirements is decided on its bounds. The parser of apimachinery is trusted.")
prop("C24", "A page put into list options arrives at the server as it was",
 "QueryListOptions leaves the options as they are for an empty page; otherwise their label selector holds exactly one entry for ckube.daocloud.io/query, the page given, next to every label and every other requirement that was there; no other option changes. A selector that does not parse or cannot be written out is an error. The proxy reads the page from that entry only, in the encoding it is written in, and never uses one that does not decode.",
 ["inputs"], "every page, every selector already in the options, with or without an older page",
 "encoder and decoder live in different packages that no test joins; a lost requirement or a padding mismatch shows for some lengths of the text only",
 [PAGE, PROXY], [("encoding of pages", PAGE), ("decoding of pages", PROXY)],
 "Decided by value flow through the options writer and through the handler of the proxy up to the decoder; base64, JSON and FormatLabelSelector are trusted. What the handler does with the page is C05-C11.")
prop("C25", "Restricting a search keeps every other condition of it",
 "Namespaces and Clusters replace the requirement for their key by one for exactly the names given and keep every other requirement, label and part of the search; an empty cluster name, a search that does not parse and a selector that cannot be written out are errors that leave the search as it is. SetSearchSelector replaces the one part SearchSelector reads; SetSearchWithParts writes every part with its separators doubled; GetClusters returns the values of the requirement for clusters.",
 ["inputs", "histories"], "every search, any number of parts and requirements, any list of names, repeated calls",
 "tests restrict empty or tiny searches; conditions lost next to others widen the result silently",
 [PAGE], [("methods of a page", PAGE)],
 "Decided on all paths of each method, the others taken as units; every loop over parts or requirements is decided for one arbitrary element, and that none is left out on its bounds.")
prop("C35", "A long value split into label values is put together again unchanged",
 "SplittingValue returns a value of at most 63 bytes alone or splits it: the pieces cover it from start to end without gap or overlap, at least two, each with a number that goes up by one in four digits or more, none empty or longer than a label value may be. MergeValues puts the texts of all pieces together in the order of the numbers, takes a single value as it is, and fails only for pieces without a number. The encoded page has no character a label value may not have.",
 ["inputs"], "every value up to 9999 pieces (about 550 kB), every Unicode text in a page",
 "tests split a few lengths and ASCII text; the boundaries, offsets that outgrow their digits and characters whose base64 has a plus sign are not among them",
 [LABEL, PAGE], [("splitting and merging", LABEL), ("encoding of pages", PAGE)],
 "Contiguity, lengths and termination are linear arithmetic over one arbitrary iteration; the characters are decided by the classes the program tells apart (all of ASCII and every boundary it compares with). The 63 byte limit and the alphabet of base64 are part of the rule; sort.Strings, fmt and JSON are trusted.")
prop("C36", "A search is cut into its parts at single separators only",
 "SearchParts reads the search from its first byte to its last. It cuts at every separator that is not doubled and nowhere else, halves doubled ones, and returns all parts that are not empty, in order, the last included.",
 ["inputs"], "every search string, any number of parts and separators anywhere",
 "tests use a few strings; a separator at the end of the scan or two in a row at a boundary decide whether conditions merge or vanish",
 [PAGE], [("parts of a search", PAGE)],
 "Decided for one arbitrary iteration of the scan by whether the byte and the next one are separators; that nothing is left out by linear arithmetic on the position.")
EXT, SUBSET = "api/extend/deploy2service.go", "utils/subset.go"
prop("C26", "The services of a deployment are those that select its pods",
 "The answer holds exactly the cached services of the namespace and cluster of the request (the default cluster if it names none) whose selector, if any, is a subset of the labels of a pod owned by a ReplicaSet of exactly this deployment, looked for among all cached pods there; none if there is no such pod. A failing read of the cache is the answer instead.",
 ["inputs"], "every request and cache content: any number of pods and services, any owners, labels and selectors",
 "the test has one pod and one service; deployments whose names contain each other, pods without owner and several services decide whether foreign ones leak in",
 [EXT, SUBSET], [("services of a deployment", EXT), ("subset of labels", SUBSET)],
 "Decided on all paths for one arbitrary pod and service, that none is passed over on the bounds of the loops. The search of the pods by a name that contains the deployment's is taken as leaving none of its pods out (the API cuts generated names at 58 characters).")
prop("C30", "No request, object or argument makes an operation go out of range",
 "No index, slice, integer division, single-valued type conversion or assignment into a map of the repository can panic, whatever requests, selectors, paging parameters, object contents or command lines come in; and no result of a call that failed, of a conversion or of a look-up that found nothing is dereferenced.",
 ["inputs"], "every request, search text, page, object, command line and configuration that reaches the operation",
 "the tests send well-formed input; the process dies, or a request is lost, on the one that is not (a search ending in a separator, an option without its value, an invalid selector)",
 [PAGE, MEM, PROXY, "kube/label.go", "server/server.go", "cmd/ckube-plugin/main.go", "pkg/client/fake/fake_ckube.go", "watcher/watcher.go"],
 [("search parts and matching", PAGE), ("paging and sorting", MEM), ("requests and tables", PROXY), ("pieces of selectors", "kube/label.go")],
 "Decided for every such operation of the repository (examples and the fake's constructors aside) by differences of values along the dominating branches, with induction over loops, and where that is not enough by linear arithmetic under the path condition, per calling context. Trusted: what the standard library says of lengths and positions, that a request's parameters have at least one value per key, that the server's own response writers can flush, and that only the types watched are cached. Not decided: nil pointers that do not come with an error or a flag, positions kept in a map (the columns of a table), channels closed twice.")
prop("C31", "A forwarded watch passes every byte on in order, each line at once",
 "While a forwarded watch runs, all bytes its API server sends reach the client unchanged, in order and once: a finished line before more is read, the rest when the stream ends, the last byte also when it comes along with the end. It ends only with its stream, its client or after half an hour, then nothing is added, the stream is closed and the forward cancelled, also while nothing is sent. The answer is JSON and each write is flushed.",
 ["histories", "schedules", "fault_sequences"], "every sequence of reads of any size and error, at every point the client may leave",
 "tests do not run a watch through the proxy; a line held back, a byte read along with the end, or a forward that outlives its client show only in some timings",
 [PROXY, SRV], [("passing on of a watch", PROXY), ("flushing writer", SRV)],
 "Decided on all paths of one arbitrary iteration: what is read is traced to the client's writer, directly or through a buffer that is only emptied once written. Reading in other ways than Read, bufio lines or io.Copy is reported as undecided. The client library and net/http are trusted.")
CONF = "common/config.go"
prop("C27", "The configuration in force is the one last given, whole",
 "InitConfig puts every field of the configuration given into force, \"default\" as the default cluster if it names none. GetConfig returns every field of what is in force. GetGVRKind returns the list kind of an entry with exactly this group, version and resource, and none only if there is no such entry.",
 ["configurations", "inputs"], "every configuration, any number of entries, every group, version and resource",
 "tests set one configuration; entries that share a resource but not the group or version, and a reload, decide whether the kind of another resource is answered",
 [CONF], [("configuration in force", CONF)],
 "Decided field by field by value flow, and for one arbitrary entry of the list with the ways to leave the loop; the atomic pointer is trusted.")
prop("C28", "A client works out the number of all objects from any page it gets",
 "The total MakeupResPaginate puts into a page is what the list says remains (nothing if it does not) plus the items listed, plus, if page and page size are given, the items of the pages before; the rest of the page stays as it is. GetObjectCluster returns the annotation the cache writes the cluster of an object to.",
 ["inputs"], "every page, page size and remaining count, any list type",
 "tests use two or three pages; the first, last, unpaged and negative ones and a list without a remaining count differ only in one summand",
 [PAGE], [("total of a page", PAGE), ("cluster of an object", PAGE)],
 "Equality of polynomials over the integers, per case of the path condition; that the proxy reports what remains in this way is C08. Overflow of the counts is not modelled; reflect is trusted.")
prop("C29", "The metric of a namespace's objects is what the cache holds of it",
 "After each object added, changed or removed, and after cleaning a cluster, the gauge ckube_resources_total with the labels of that cluster, group, version, resource and namespace is set to the number of objects the cache then holds there; it is never counted up and down. When a reload replaces the cache, and only then, the numbers of the cache before it are dropped.",
 ["histories"], "every history of additions, changes, removals (also repeated or of unknown objects) and cleanings",
 "no test reads a metric; swapped labels or a count that drifts after a relist show only on a dashboard",
 [MEM, "utils/prommonitor/metrics.go"], [("operations of the store", MEM), ("declaration of the metric", "utils/prommonitor/metrics.go")],
 "Decided for every change of the nested maps on all paths of each operation: the value set is traced to the length of the very map changed, the labels by position to the declared names. Two operations on one namespace of one cluster at once are not ordered against each other.")

prop("C37", "Objects of the cache are decoded and encoded member by member",
 "A decoded object has the version and kind of its JSON, the metadata that decode from the member metadata, and as data all members without these three; numbers are kept as they are written. Its encoding holds the members of its data and those of its type and metadata, each once, also if one of the two parts is empty. A copy has the same type, metadata and members.",
 ["inputs"], "every object with any members of any value",
 "tests decode no object of the cache's own type; an integer beyond 2^53 or an object without data differs in nothing else",
 ["watcher/watcher.go"], [("decoding, encoding and copying of objects", "watcher/watcher.go")],
 "Decided by value flow on all paths of the codec; the encoding of a single value by encoding/json is trusted (N02).")

prop("C33", "What cannot be answered is answered as a failure",
 "The proxy answers a list, a table or an object only if the query of the cache and the label selector it comes from reported no error. Every status it answers has kind Status and version v1, is a Failure with an error code, or the status the API server sent, and the code written to the client is that of the status, after its JSON content type. An object that is not in the cache is reported with reason NotFound.",
 ["inputs", "fault_sequences"], "every request and every failure of the cache, of a selector, a cluster or the API server",
 "tests look at the code of a few failures; a failed query answered as an empty list, or a status clients do not recognise, shows only with such a failure",
 [PROXY], [("statuses and failed reads", PROXY)],
 "Path conditions of each return of the handler against the errors of what it read; value flow into the fields of every status.")

TOOLS = ["cmd/ckube-plugin/main.go", "cmd/ckubecli/main.go"]
prop("C38", "The command line tools ask for exactly what their options say",
 "The kubectl plugin runs kubectl once, with its own streams and every argument it got, in order, but --clusters and the value after it. With clusters given, the value of -l or --selector of a get is replaced by (or, if there is none, -l is added with) the selector page.QueryListOptions makes from that value and a page restricted to exactly those clusters, and a create gets the field manager made for its one cluster. Invalid clusters or selectors, several clusters for a create and other subcommands end with a failure without running kubectl; a failure of kubectl is one of the plugin, with its status. ckubecli prints exactly the selector made from its options (page, size, sort, search, clusters), or fails.",
 ["inputs"], "every list of arguments, with the options at any place, and every result of the calls",
 "no test runs the tools; a position that is off by one or an argument lost shows for some orders of arguments only, and widens what kubectl gets",
 TOOLS, [("kubectl plugin", TOOLS[0]), ("ckubecli", TOOLS[1])],
 "Decided on all paths of both programs, the loop over the arguments for one arbitrary argument. The forms --clusters=x, --selector=x and -lx are not options of the plugin; what kubectl does is outside, as are os/exec and flag.")

FAKE = "pkg/client/fake/fake_ckube.go"
prop("C39", "The server for tests changes what the path names and tells every watch",
 "The fake server of pkg/client/fake: POST, PUT and DELETE of a Kubernetes path (core or group, namespaced or not, with or without a name) reach one change handler, GET of the watch paths the watch handler. POST adds the object of the body if no object of that type, cluster, namespace and name is there, else 400; PUT modifies and DELETE removes one that is there, else 404; an unreadable body is 500, an unreadable selector of a watch 400; 200 is answered when the change is done, and nothing is changed otherwise. The cluster is the one the options marker names, else the configured default; a watch is of the clusters the marker in its selector names, in a label or an expression, else of all. Its cache and configuration are those of the configuration given. Every change, and only a change, is offered without waiting to the Events() channel and to every registered watch, with action, group, version, resource, cluster, namespace, name and the object. A watch is registered before its client hears of it, writes at once, a line each, exactly the events of its group, version, type, namespace and clusters, and is forgotten when the client is gone. The store changed is the store served, also after Clean.",
 ["inputs", "schedules"], "every request to the fake server, every order of changes and watches",
 "projects that test against this server rely on it; its own tests use one type and one watch, and a lost event or a wrong cluster shows for some requests and orders only",
 [FAKE], [("the fake server", FAKE)],
 "Decided on all paths of the constructor, both handlers and the middleware; routes are evaluated from their registrations. An event is dropped when a channel is full (it is offered without waiting): how many fit is outside, as is what net/http delivers.")

# not applicable
prop("N01", "The cache finally shows what the API server holds",
 "Once the objects of a configured type stop changing, the cache holds exactly the objects the API server of each cluster holds, with their last content.",
 ["schedules", "histories", "fault_sequences"], "every history of changes, disconnections and schedules of the streams",
 "needs delivery by the network and fair scheduling over unbounded histories",
 ["watcher/watcher.go", MEM], [("streams into the store", "watcher/watcher.go")])
notapp("N01", "liveness over the network, the API server and the scheduler; no static argument over this repository bounds them. The safety parts are C12 and C14 to C16.")
prop("N02", "Every object leaves the cache with the content it came with",
 "The JSON of an object answered from the cache equals the JSON the API server sent, apart from the annotations ckube adds.",
 ["inputs"], "every Kubernetes object",
 "objects are arbitrary JSON, numbers and nesting included",
 ["watcher/watcher.go", MEM], [("decoding and encoding of objects", "watcher/watcher.go")])
notapp("N02", "equality of encodings of arbitrary JSON values through reflection-driven codecs of the library: a question about runtime values, not about flow in this source. Which members the own codec of the cache takes and gives is C37.")
prop("N03", "A search written into a page is the search that is read from it",
 "For every search, the parts written with SetSearchWithParts are exactly the parts SearchParts reads.",
 ["inputs"], "every list of search parts",
 "strings are unbounded and separators may occur anywhere in them",
 ["page/page.go"], [("writer and reader of search parts", "page/page.go")])
notapp("N03", "equality of two composed string functions on all strings; no static abstraction in reach is exact for it. C25 decides the writer, C36 the reader, each by its own rule.")
prop("N04", "Answers take bounded time and memory",
 "A list answered from the cache takes time and memory proportional to the objects of its type.",
 ["inputs", "schedules"], "every request and content of the cache",
 "depends on sizes and load at run time",
 [MEM, PROXY], [("queries", MEM)])
notapp("N04", "runtime quantity; no sound static bound in reach.")
