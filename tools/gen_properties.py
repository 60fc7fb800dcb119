#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
S = "dask-gateway-server/dask_gateway_server/"
B = S + "backends/"
K = B + "kubernetes/"
G = "dask-gateway-server/dask-gateway-proxy/"
CL = "dask-gateway/dask_gateway/"
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=hook)))

p("C01", "Work queue: no concurrent processing, merged duplicates, nothing lost",
  "An item put in the work queue is handed out at least once after that put, duplicate puts made before it is handed out are merged into one, and no item is ever held by two consumers at once, even if it is re-added while being processed. A delayed put hands the item out no earlier than, and promptly at, the earliest time asked for. Cancelling a waiting consumer at any moment never strands a queued item while another consumer waits, and closing wakes every waiter and fails every later get.",
  ["schedules", "histories"], "every interleaving of producers, consumers, cancellations, delayed puts, completions and close",
  "Seven tests each run one fixed order of operations with one or two consumers; cancellation between wake-up and resume, re-adds during processing with several consumers and delayed puts racing with direct ones are never combined.",
  [S + "workqueue.py"], [("dirty/processing sets and the ready deque", "workqueue.WorkQueue._put/_get/task_done"), ("earliest-delay timers", "workqueue.WorkQueue.put_after"), ("waiter futures", "workqueue.WorkQueue.get")],
  ["WorkQueue.put/put_after/put_backoff/get/task_done/close call and return events"],
  [("queue contents", "items waiting, being processed, or scheduled", "workqueue.WorkQueue")])

p("C02", "Failing reconciliations are retried forever with bounded backoff",
  "An item's n-th consecutive failure is retried after min(base_delay * 2**n, max_delay) counted per item, a success resets it, and this holds for any number of failures. A reconciliation that keeps failing (for instance because the database or the Kubernetes API is unavailable for hours) never stops the reconcilers: every other cluster goes on being served, and the failing one is completed once the fault clears.",
  ["fault_sequences", "histories"], "every sequence of failures and successes, of any length, over any number of items",
  "The backoff test stops after a handful of failures of one item; no test keeps a fault up long enough to reach the cap, and none looks at the other clusters while one fails.",
  [S + "workqueue.py", B + "db_base.py"], [("exponential per-item backoff", "workqueue.Backoff.backoff"), ("catch, requeue with backoff, always task_done", "db_base.DBBackendBase.reconciler_loop")],
  ["delays returned for each failure", "times at which reconciliations are retried", "progress of unrelated clusters during the fault"])

p("C03", "Cluster status only moves forward and the API always answers",
  "The status a user sees for a cluster only moves PENDING, RUNNING, STOPPING and then STOPPED or FAILED; the terminal states never change again, a cluster whose stop was acknowledged is never seen PENDING or RUNNING afterwards and reaches a terminal state, and stop_time is set exactly in the terminal states. For every known cluster, at any moment, get and list answer successfully and agree with each other, and a list with a status filter returns exactly the user's clusters in those statuses (by default the pending and running ones). A cluster its user asked to stop before anything failed ends STOPPED, one that fails on its own ends FAILED.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of start, stop, heartbeat, status-check and timeout events with the backend calls in flight, under any backend failures",
  "The lifecycle tests each drive one backend failure with nothing else in flight; a status check, a stop request and a start completing concurrently are never overlapped.",
  [B + "db_base.py", S + "models.py", S + "routes.py"], [("(status, target) to public status map", "db_base.Cluster._status_map"), ("cluster reconciler", "db_base.DBBackendBase.reconcile_cluster"), ("status/timeout loops", "db_base.DBBackendBase.check_clusters_loop, _check_timeouts")],
  ["responses of GET /api/v1/clusters/{name}, GET /api/v1/clusters/, DELETE"],
  [("status, target", "actual and wanted state of each cluster", "db_base.Cluster")])

p("C04", "Everything a backend starts is stopped before its cluster is reported stopped",
  "Each scheduler and worker the backend started, or began to start, has its stop called, with the last state that its start reported, before its cluster is reported STOPPED or FAILED, and nothing of a cluster is started after that. Within one run of the gateway nothing is started twice, a start is never called on something already being stopped, and after a shutdown with stop_clusters_on_shutdown nothing is left running. When workers are not stopped in bulk with the cluster, each worker's stop is called before its scheduler's.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of starts, stops, failures at any stage of a start, timeouts, heartbeats and gateway shutdown",
  "Each test stops one cluster at one stage of its start and checks one stop call; overlap of worker starts, scale-downs, timeouts and shutdown is not exercised and leaks are not counted.",
  [B + "db_base.py"], [("start with checkpointed state and timeout", "db_base._cluster_to_submitted, _worker_to_submitted"), ("workers first, then the scheduler", "db_base._cluster_to_closing, is_cluster_ready_to_close, _cluster_to_stopped, _worker_to_stopped"), ("shutdown waits for all", "db_base.DBBackendBase.cleanup")],
  ["calls of do_start_cluster/do_start_worker/do_stop_cluster/do_stop_worker and the states yielded", "status reported by the API"])

p("C05", "The number of workers converges to the requested count, within the limit",
  "Once requests and failures cease, the number of live workers of a running cluster equals the last count its scheduler asked for, replacing workers that failed or died and stopping surplus pending ones first. While nothing fails and the count never decreases, exactly the largest count requested are ever started, however heartbeats and starts overlap, and a cluster limited to n workers never has more than n wanted at once, whatever count its scheduler claims. Workers closed by a scale-down are not replaced and their later disappearance is not taken as a failure.",
  ["schedules", "histories", "inputs"], "every sequence of heartbeat reports and scale requests overlapping with worker starts, connections, deaths and closures",
  "The scaling tests go 0-5-1 once with a well-behaved scheduler; reports that race with starts in flight, deaths and hostile counts are not tried.",
  [B + "db_base.py"], [("heartbeat bookkeeping", "db_base.DBBackendBase.on_cluster_heartbeat"), ("create missing workers", "db_base.DBBackendBase._check_cluster_scale")],
  ["worker starts and stops at the backend", "heartbeats sent by a simulated scheduler"],
  [("count", "workers wanted", "db_base.Cluster"), ("workers", "known workers and their targets", "db_base.Cluster.workers")])

p("C06", "A cluster fails after repeated worker start failures, and only then",
  "When worker_start_failure_limit consecutive workers of a cluster fail to start (an error or time-out in the start call, or a failed status check before connecting), the cluster is marked failed and cleaned up; a worker that connects resets the count. Workers that started properly, or that were stopped on purpose while still pending, never count, so a cluster whose workers do not fail to start is never failed for this reason.",
  ["histories", "schedules", "fault_sequences"], "every order of worker start failures, successes, scale changes and status checks",
  "One test makes every start fail; mixtures of successes, failures, scale-downs and slow status checks are not covered.",
  [B + "db_base.py"], [("failure counter", "db_base._worker_to_submitted, check_workers_loop, on_cluster_heartbeat, _check_cluster_scale")],
  ["worker start outcomes at the backend", "cluster status"])

p("C07", "Dead clusters and stuck workers are found in time, live ones never killed",
  "A cluster whose scheduler never connects is failed within cluster_start_timeout, one whose running scheduler stops heartbeating within cluster_heartbeat_timeout, one whose scheduler process dies before connecting at the next status check, and a worker that does not connect within worker_start_timeout is stopped and replaced, each plus the period of the check. A cluster that connects in time and heartbeats within the timeout is never failed for it, however slow its backend's status checks or however many other clusters are dead, restored or failing at the same time. An error in one check, or one odd cluster, never stops the checks of the others.",
  ["fault_sequences", "histories", "configurations"], "every pattern of heartbeats, deaths and connection times over many clusters, every choice of timeouts and periods, with status checks that are slow or fail",
  "Tests use one cluster, one timeout and one cause of death each.",
  [B + "db_base.py"], [("timeout loop", "db_base._check_timeouts"), ("status loops", "db_base.check_clusters_loop, check_workers_loop"), ("last heartbeat", "db_base.on_cluster_heartbeat")],
  ["virtual time of each status change", "heartbeats sent", "backend stop calls"])

p("C08", "A gateway restarted after a crash at any point resumes every cluster",
  "If the gateway process dies at any point and is restarted on the same database, every cluster whose creation was acknowledged is still known with its name, owner, options, token and credentials, and running clusters stay running, are routed again and keep accepting their heartbeats. Work interrupted half way is completed: stops are finished, starts are either taken over or cleaned up with the last state recorded, so nothing whose start had been recorded is started twice or left running after its cluster is reported stopped. Clusters that reached a terminal state stay there and nothing is restarted for them.",
  ["crash_points", "histories"], "every point between two database transactions or backend calls of every history, including crashes during recovery",
  "One test restarts the gateway once, after an orderly shutdown with everything idle.",
  [B + "db_base.py"], [("write-through data manager", "db_base.DataManager"), ("requeue of unfinished objects at start", "db_base.DBBackendBase.setup")],
  ["database file and backend resources at the crash point, API answers and backend calls after restart"])

p("C09", "The database always matches memory and holds secrets only encrypted",
  "After every operation, reloading the database gives exactly the clusters and workers, with all their attributes, that the running gateway holds in memory, and a failed transaction changes neither. Outside an in-memory database, cluster tokens and TLS keys are never stored in clear, start-up without encryption keys is refused, data written under any configured key is readable while that key is configured (so keys can be rotated), and unreadable without it.",
  ["histories", "configurations", "fault_sequences"], "every sequence of creations, updates, batch updates and cleanups, any key list and rotation, and a failure of any statement",
  "Tests encode and reload one cluster with one key list.",
  [B + "db_base.py"], [("update memory inside the transaction", "db_base.DataManager.create_*/update_*/cleanup_expired"), ("Fernet encryption", "db_base.DataManager.encrypt/decrypt"), ("key validation", "db_base._db_encrypt_keys_validate")],
  ["state reloaded from the database file compared with memory", "bytes of the database file"])

p("C10", "Only finished clusters older than the limit are forgotten, and they all are",
  "Cleanup removes exactly the clusters that stopped longer ago than the configured age, with all their workers, from memory and from the database, whatever else is going on; clusters still running or stopped more recently are never removed. A removed cluster answers not found and appears in no list, and the running gateway does this once every cleanup period, even after a cleanup failed.",
  ["histories", "configurations"], "every population of clusters in every state, every age limit and cleanup period",
  "One test with six clusters calls the cleanup function twice by hand.",
  [B + "db_base.py"], [("expiry query and index removal", "db_base.DataManager.cleanup_expired"), ("periodic task", "db_base.cleanup_db_loop")],
  ["clusters returned by the API and rows in the database before and after each cleanup"])

p("C11", "Users reach only their own clusters, a cluster token only its own cluster",
  "No request can view, stop, scale or adapt another user's cluster, and a list contains only the caller's clusters; a cluster's API token authorises heartbeats and shutdown of that cluster only, and nothing else. Requests without valid credentials are refused before anything happens, and the names, options, credentials or tokens of a cluster never appear in a response to anyone but its owner. TLS credentials are given to the owner only while the cluster runs, and cluster tokens are never returned at all.",
  ["inputs", "histories"], "every combination of user, endpoint, method, cluster and Authorization header, well-formed or not, in every cluster state",
  "Authorisation has no test beyond the owner's own use; no test sends another user's name, another cluster's token or a malformed header.",
  [S + "routes.py", S + "models.py", S + "auth.py"], [("authentication wrapper", "routes._wrap_authenticated"), ("owner check", "models.User.has_permissions"), ("response contents", "models.Cluster.to_dict")],
  ["status code, body and effects of every HTTP request"])

p("C12", "Authentication identifies exactly the user whose credentials were accepted",
  "A request is served as user u only if it carries credentials the authenticator accepted for u, or a cookie issued to u less than cache_max_age ago; an expired, unknown or altered cookie gives nothing and credentials are then checked again. With JupyterHub, a rejected, unknown or out-of-scope token, or a hub failure, never yields a user, a service is never confused with a user of the same name, and with a configured password a wrong one is always refused. Malformed credentials are refused as unauthorised.",
  ["inputs", "histories", "fault_sequences"], "every sequence of requests with valid, invalid, expired and foreign credentials and cookies, every hub response",
  "Tests log in one user with a good and a bad password and one hub user; cookies' expiry, mixing users and hub failures are not tested.",
  [S + "auth.py"], [("cookie cache", "auth.UserCache"), ("cookie first, then authenticate", "auth.Authenticator.authenticate_and_handle"), ("hub checks", "auth.JupyterHubAuthenticator.authenticate"), ("basic auth", "auth.SimpleAuthenticator.authenticate")],
  ["user seen by the handler for each request", "cookies issued"])

p("C13", "Scale and adapt requests are clipped to the limit and delivered, or refused",
  "An accepted scale or adapt request is delivered to that cluster's own scheduler, authenticated with its token, with exactly the values requested clipped to the cluster's worker limit, and the answer says so if they were clipped; counts that are not non-negative integers are refused with nothing delivered. Delivery is retried up to the configured number of attempts through transient failures; if all fail the cluster is marked failed and the request refused, and a request for a cluster that is not running is refused and not delivered.",
  ["inputs", "fault_sequences"], "every count, bounds and limit, including wrong types, and every pattern of scheduler failures",
  "Three requests against one limit are tested; refused values and unreachable schedulers are not.",
  [S + "routes.py", B + "base.py"], [("clip", "routes.scale_cluster, adapt_cluster"), ("retry then fail", "backends.base.Backend.forward_message_to_scheduler")],
  ["HTTP responses", "messages received by a scripted scheduler endpoint"])

p("C14", "Only options that satisfy the administrator's specification are ever applied",
  "A cluster request is accepted exactly when every given option is an exposed one and satisfies its declared type, bounds and choices; missing ones take their declared default. What is recorded for the cluster is exactly the validated options, what configures it is exactly the handler's result on the transformed options (or the options themselves without a handler), and no request, nor any change its handler makes, alters the defaults or the options of another. What the client library lets a user set and the server's specification agree: the specification survives the JSON round trip and the client accepts or rejects a value as the server would.",
  ["inputs"], "every option specification and every requested value, including NaN, infinities, wrong types and mutable values",
  "Tests check a few values around the bounds of each field type.",
  [S + "options.py", CL + "options.py", B + "base.py"], [("field validation", "options.Field.validate and subclasses"), ("parse and transform", "options.Options.parse_options/get_configuration"), ("client fields", "dask_gateway.options")],
  ["accepted or rejected values, recorded options and resulting configuration against an independent validator"])

p("C15", "A cluster's resource limits hold for every configuration",
  "For every accepted cluster configuration, whether values come from the configuration file, from options or both, the scheduler's resources plus the maximum number of workers times a worker's resources stay within the cluster's memory and core limits, and the worker limit never exceeds the one configured. The worker limit is the largest such number (none if nothing limits it), configurations whose scheduler alone exceeds a limit are refused, and sizes with K, M, G, T suffixes mean binary multiples.",
  ["inputs", "configurations"], "every combination of configured and overridden resource values, in any order",
  "A dozen fixed combinations are tested, all given as constructor arguments.",
  [B + "base.py", S + "traitlets.py"], [("limit computation and cross validation", "backends.base.ClusterConfig"), ("size parsing", "traitlets.MemoryLimit")],
  ["attributes of constructed configurations against an arithmetic model"])

p("C16", "The proxy's routing table follows the gateway's through any fault",
  "After any sequence of route additions and removals, proxy crashes and restarts, dropped connections, lagging watchers and gateway restarts, once these cease the proxy routes exactly according to the gateway's current table, which holds exactly the routes of the running clusters and the gateway itself. Watch updates are applied in order with none lost or duplicated, a proxy that lags behind the retained events (or knows events the gateway does not) does a full refresh, which replaces its whole table, and only requests bearing the proxy token are given the table.",
  ["histories", "fault_sequences", "schedules"], "every sequence of route changes interleaved with disconnections, restarts and lag, for any retained-event limit",
  "Tests add and remove two routes and restart the proxy once.",
  [S + "proxy/core.py", G + "cmd/dask-gateway-proxy/main.go", G + "internal/proxy/proxy.go"], [("event log with offset", "proxy.core.Proxy._append_event/_events_after"), ("full table and watch", "proxy.core.Proxy.routes_handler"), ("reset/watch loop", "Go proxy watchRoutes")],
  ["responses of the routes endpoint as seen by a model watcher", "where the real proxy binary sends requests"],
  [("routes, events, offset", "current table and retained change log", "proxy.core.Proxy")])

p("C17", "HTTP requests go to the longest matching route with the right path",
  "The web proxy sends each request to the target of the longest registered prefix that matches the path at a segment boundary, with that prefix removed (and the target's own path prepended), leaving the query, the method, the body and the rest of the path as they were; with no matching route it answers 404, and with an unreachable target 502. After any sequence of route additions, replacements and removals the matching is the same as for a table built from scratch.",
  ["inputs", "histories"], "every route table, every order of building it, and every request path",
  "The proxy tests request two paths on two routes; there are a few Go router tests that are not part of the stable suite.",
  [G + "internal/proxy/proxy.go", G + "pkg/router/router.go"], [("path trie", "pkg/router Router.Put/Delete/Match"), ("reverse proxy director", "Go proxy web handler")],
  ["(target, path received) of each lookup or request against a longest-prefix model"])

p("C18", "Scheduler connections go to the named cluster only, byte for byte",
  "A TLS connection naming cluster c is passed through to c's registered scheduler address and to no other, for every fragmentation and size of the ClientHello; bytes in both directions arrive complete, unmodified and in order, including data sent after one side has finished sending. Connections naming no cluster, an unknown one, or not speaking TLS are closed, or handed to the web server when it shares the port, and never reach a scheduler.",
  ["inputs", "schedules"], "every ClientHello, fragmentation, payload, order of half-closes and route change",
  "Tests open one well-formed connection to one scheduler.",
  [G + "internal/proxy/proxy.go", G + "pkg/sni/sni.go"], [("ClientHello parsing", "pkg/sni"), ("bidirectional copy", "Go proxy proxyConnections")],
  ["bytes received by scripted backends and clients"])

p("C19", "The proxy is free of data races and survives hostile clients",
  "While routes change, connections of all kinds come and go and the gateway's event stream breaks and resumes, the proxy has no data race, panic or deadlock and goes on serving valid clients. No input from a client, however malformed, truncated or stalled, ends the process or affects another connection.",
  ["schedules", "inputs"], "every interleaving of route updates with requests and every client byte stream",
  "No test runs the proxy under the race detector or with concurrent route changes or malformed clients.",
  [G + "internal/proxy/proxy.go", G + "pkg/router/router.go", G + "pkg/sni/sni.go", G + "cmd/dask-gateway-proxy/main.go"], [("locks around the tables", "Go proxy"), ("per-connection goroutines", "Go proxy")],
  ["Go race detector reports, exit status, health of a probing client"])

p("C20", "The proxy process is kept running, configured right, stopped with the gateway",
  "A managed proxy that exits is restarted within the status period, any number of times, and gets its table again; failure to restart it is retried and does not take down the gateway. Its token is passed by the environment and never on the command line, and the addresses, TLS files and log level it is given are those configured. When the gateway stops, or dies without cleaning up, the managed proxy exits; an externally managed one is never started or stopped.",
  ["fault_sequences", "crash_points", "configurations"], "every sequence of proxy deaths and start failures, every way the gateway ends, every proxy configuration",
  "One test kills the proxy once.",
  [S + "proxy/core.py", G + "cmd/dask-gateway-proxy/main.go"], [("monitor task", "proxy.core.Proxy.monitor_proxy_process"), ("terminate on cleanup", "proxy.core.Proxy.cleanup"), ("exit when stdin closes", "Go proxy -is-child-process")],
  ["process table, command line and environment of started proxies, requests served after each fault"])

p("C21", "The Kubernetes controller drives each cluster to what was asked",
  "For every DaskCluster the controller creates exactly one credentials secret, scheduler pod, service and pair of routes, reports Running only when the scheduler is reachable, and keeps the number of live worker pods equal to the requested replicas, replacing failed ones and never creating duplicates because of a lagging cache. A cluster set inactive, or whose scheduler ends, has its scheduler, worker pods, service, routes and secret removed and is then reported Stopped or Failed with a completion time, for good; a surplus is taken from pending pods before anything else. This holds through API errors, conflicts, restarts of the controller and any order of watch events.",
  ["schedules", "fault_sequences", "histories"], "every order and delay of watch events, API failure pattern, controller restart and sequence of spec changes",
  "Kubernetes tests that are run here check object templates only; the reconciler is never run.",
  [K + "controller.py", K + "utils.py"], [("cluster reconciler", "controller.KubeController.handle_*"), ("create/delete expectations", "controller.ClusterInfo"), ("create if not exists", "controller.create_*_if_not_exists")],
  ["objects in a simulated API server after each call and at quiescence"])

p("C22", "The Kubernetes backend shows and changes exactly the caller's clusters",
  "On Kubernetes, after the watch has caught up, listing by user and status returns exactly that user's matching clusters, getting one returns its current status, and, once running, its own credentials; a cluster with a malformed name, of another gateway instance, or deleted is not found. Creating one writes an object for that user with the validated options and configuration, stopping it marks it inactive once, and a heartbeat updates the requested worker count within the limit.",
  ["histories", "schedules", "inputs"], "every sequence of object additions, changes, deletions and API errors and every user",
  "Kubernetes tests that are run here never start the backend.",
  [K + "backend.py", K + "utils.py"], [("informer-fed indexes", "backend.KubeBackend.on_cluster_event and helpers"), ("patches", "backend.KubeBackend.stop_cluster/on_cluster_heartbeat")],
  ["API answers and objects in a simulated API server"])

p("C23", "A watch cache converges to the server's objects and reports every change once",
  "An informer's cache equals the server's matching objects once events have been delivered, through expired resource versions, broken watches, relists, errors and restarts of the watch; for every object its callbacks form a correct history: update with the previous object known, delete exactly when it disappeared, including disappearance during an outage. While the server fails the informer retries without flooding it. Starting waits until the initial objects are loaded, and stopping ends all activity.",
  ["fault_sequences", "schedules", "histories"], "every sequence of object changes, watch failures and relists",
  "No test runs an informer.",
  [K + "utils.py"], [("list and watch loop", "kubernetes.utils.Informer")],
  ["callbacks and cache contents against the simulated server's history"])

p("C24", "The scheduler service reports its true state and carries out scale requests",
  "Each heartbeat sent by a cluster's scheduler reports every worker it has in exactly one of active, closing and closed, with the requested count and its own addresses; workers are retired only after the gateway was told they are closing, and never more than exceed the request. A scale request is reported to the gateway at the next heartbeat, immediately and even if one is in flight, failed heartbeats are retried, an explicit scale ends adaptive scaling, and adaptive targets stay within the minimum and maximum. An idle cluster is shut down after its idle timeout, retried until the gateway agrees, and a busy one never; only the gateway's token is accepted for commands.",
  ["schedules", "histories", "fault_sequences"], "every sequence of worker arrivals and departures, scale and adapt requests and gateway failures, at any moment of a heartbeat",
  "The service is only exercised end to end with one scheduler and a gateway that always answers.",
  [CL + "scheduler_preload.py"], [("heartbeat loop and partition", "scheduler_preload.GatewaySchedulerService.heartbeat/heartbeat_loop"), ("interruptible wait", "scheduler_preload.Waiter"), ("adaptive loop", "scheduler_preload.adapt_loop"), ("idle check", "scheduler_preload.check_idle")],
  ["messages a scripted gateway receives, retire calls on the scheduler"])

p("C25", "The client library reports clusters truthfully and cleans up what it created",
  "The client's view of a cluster (status, options, security) equals the server's answer for every status, errors the server reports are raised with its message and never swallowed, and connecting waits for a running cluster or raises an error if it failed or stopped. A cluster object that created its cluster stops it on close or interpreter exit, and one that merely connected does not, unless told otherwise. Credentials reused from a cookie or re-authentication after a 401 happen once per request, and a request is never answered with another user's session.",
  ["inputs", "fault_sequences", "histories"], "every server response sequence and every way a client session ends",
  "Tests use a well-behaved server and a few fixed error codes.",
  [CL + "client.py", CL + "auth.py"], [("request and error mapping", "client.Gateway._request"), ("wait for start", "client.Gateway._wait_for_start"), ("finalisers", "client.GatewayCluster")],
  ["requests received by a scripted server, values and exceptions returned"])

p("C26", "Batch jobs are submitted once, found, and cancelled with their files removed",
  "On a batch system, starting submits one job as the user through the launcher, with credentials in a private staging directory (mode 0700) and tokens passed through the environment, never on a command line; the job id recorded is the one the batch system gave. Stopping cancels that job and removes its staging directory, whichever of them is already gone, and a failure of submission leaves no staging files behind. Status checks map each job to alive or dead by the batch system's state codes, a job missing from the answer is dead, and a failed query kills nothing.",
  ["inputs", "fault_sequences"], "every configuration, batch system output, exit status and partial failure",
  "Tests look at one command line and one sample status output for each system.",
  [B + "jobqueue/base.py", B + "jobqueue/launcher.py", B + "jobqueue/pbs.py", B + "jobqueue/slurm.py"], [("launcher", "jobqueue.launcher"), ("submit/stop/check", "jobqueue.base.JobQueueBackend"), ("command building and parsing", "jobqueue.pbs, jobqueue.slurm")],
  ["commands run and files left, as recorded by stand-in batch commands in a scratch directory"])

p("C27", "Local clusters run in a private directory and leave nothing behind",
  "On a single machine each cluster runs in its own working directory, readable by its user only, with its certificate and key files owned by that user and not readable by others, and only paths inside that directory have their owner changed. Stopping ends each process, escalating signals if ignored, and removes the directory; a process that already exited is no error. Processes get only the configured inherited environment plus what the cluster needs, and status checks report exactly whether each process is alive.",
  ["fault_sequences", "inputs", "configurations"], "every behaviour of the processes (exiting early, ignoring signals), every configuration of directories and environment",
  "One test starts and stops one cooperative cluster.",
  [B + "local.py"], [("working directory set-up", "local.LocalBackend.setup_working_directory"), ("signal escalation", "local.LocalBackend.stop_process"), ("environment", "local.LocalBackend.get_env")],
  ["files, modes and owner-change calls; process table; environment of children"])

p("C28", "Each cluster's TLS credentials work for that cluster and no other",
  "Every cluster gets its own key and certificate: a peer using the cluster's certificate as sole authority completes a mutual TLS handshake with another peer of the same cluster, and fails with any other cluster's. The certificate matches its key, names the cluster and dask-internal, is valid now and for a year; cluster names and tokens are unique and unguessable.",
  ["inputs", "histories"], "every pair of clusters created in any history",
  "One cluster's certificate is used at a time.",
  [S + "tls.py", B + "db_base.py"], [("key pair generation", "tls.new_keypair"), ("names and tokens", "db_base.DataManager.create_cluster")],
  ["TLS handshakes between generated credentials, certificate fields"])

p("C29", "API calls never exceed the configured rate and burst",
  "In any interval of t seconds at most burst + rate * t calls are let through (never more than burst at once after idling), calls are let through in the order they asked, and none waits longer than needed for its turn. This holds for every rate, burst and pattern of calls, and for every call made through a rate-limited client.",
  ["histories", "configurations"], "every arrival pattern, rate and burst",
  "One test makes a few calls with the real clock.",
  [S + "utils.py", K + "utils.py"], [("token bucket", "utils.RateLimiter"), ("wrapper", "kubernetes.utils.RateLimitedClient")],
  ["grant times of each call under a virtual clock"])

p("C30", "Background-task utilities cancel, wake and evict exactly as promised",
  "Closing a task pool cancels every task in it and returns only when all have ended; a cancel group cancels exactly the blocks currently inside it, waits for them, and lets none enter afterwards. A flag, once set, releases all present and future waiters, and a waiter being cancelled does not affect the others. The LRU cache never exceeds its size, evicts the least recently used entry and always returns the last value put.",
  ["schedules", "histories"], "every interleaving of tasks entering, leaving, being cancelled and the group or pool being closed",
  "Each utility has one small test.",
  [S + "utils.py"], [("task pool", "utils.TaskPool"), ("cancel group", "utils.CancelGroup"), ("flag", "utils.Flag"), ("cache", "utils.LRUCache")],
  ["task states and cache contents against small models"])

p("C31", "On YARN each cluster is one application, judged and killed as such",
  "On YARN each cluster is one application, submitted once as its user in its queue, with exactly the resources, environment, files and commands configured and its own credentials, readable by the gateway only until handed over; each worker is one container of its cluster's application, added with that application's credentials. Applications and containers that ended are found at the next check; a failing query, or the troubles of another cluster, kill nothing and hide nothing, and stopping kills the application or container, also one whose submission outlasts its timeout. The server goes on serving while YARN is asked, and the configured Kerberos principal and keytab are used.",
  ["inputs", "fault_sequences", "histories"], "every configuration, sequence of answers and failures of YARN, and timing of submissions against timeouts",
  "There are no tests of the YARN backend that run without a YARN cluster.",
  [B + "yarn.py"], [("specification and submission", "yarn.YarnBackend.do_start_cluster"), ("containers", "yarn.YarnBackend.do_start_worker/do_stop_worker"), ("status checks", "yarn.YarnBackend.do_check_clusters/do_check_workers")],
  ["calls received by a stand-in of skein, its applications and containers, cluster statuses reported"])

p("C32", "On Kubernetes a cluster's objects are those its configuration asks for",
  "Every pod of a cluster has the namespace, image, pull policy and secrets, command, environment, resources, labels and annotations that the configuration and the user's options give for its role, merged with the extra pod and container configuration (maps by key, lists appended), and nothing of another cluster's. Pods get no service account token unless asked for, and mount their own cluster's secret read-only, where their environment looks for it; secrets appear in no other object. The service selects exactly the cluster's scheduler, and routes by path and by server name lead to its dashboard and scheduler ports with the configured prefix, entry points and middlewares; workers are named as their pods and find that scheduler, and a heartbeat with the mounted token is accepted.",
  ["inputs", "configurations", "histories"], "every configuration of gateway and controller, and every user's options, of clusters created side by side",
  "Tests compare a few fields of the generated pods for one default configuration each.",
  [K + "controller.py", K + "backend.py", K + "utils.py"], [("object building", "controller.KubeController.make_pod/make_service/make_ingressroute"), ("merging", "kubernetes.utils.merge_json_objects"), ("configuration of a cluster", "kubernetes.backend.KubeClusterConfig")],
  ["objects at a simulated API server, routes and addresses followed to pods and ports"])

p("C33", "What the Helm chart installs is the gateway its values describe",
  "For all values that its schema accepts, the Helm chart renders valid objects whose references resolve, also for releases side by side, and every value reaches what it is meant for: the gateway, the controller and Traefik start with what is rendered and do what the values say, extra configuration last. The rendered roles permit each component every call it makes and no writing beyond its own objects, users are authenticated the configured way and no other, secrets lie only in Secrets, Traefik's dashboard is exposed only if asked for, and a changed configuration or secret restarts what reads it. Requests under the prefix reach the gateway's API, a cluster's dashboard path its dashboard and its SNI name its scheduler, on the configured ports, and pods find the gateway.",
  ["inputs", "configurations"], "every combination of values, release name and namespace",
  "The chart is only tested by installing it with one set of values on a real cluster, which the unit tests cannot do; no test reads what it renders.",
  ["resources/helm/dask-gateway/templates/", "resources/helm/dask-gateway/values.yaml", "resources/helm/dask-gateway/values.schema.yaml", "resources/helm/dask-gateway/crds/", K + "controller.py", K + "backend.py"], [("rendered configuration", "templates/gateway/configmap.yaml and templates/controller/configmap.yaml"), ("routes", "templates/gateway/ingressroute.yaml and middleware.yaml, templates/traefik"), ("permissions", "templates/*/rbac.yaml")],
  ["rendered objects", "the programs started with them on a simulated API server that enforces the roles", "requests followed through services and routes"])

p("C34", "The client library connects where, and as whom, its configuration says",
  "For every combination of settings, an argument goes before the configuration, whose texts are templates of environment variables, and what neither gives has the documented default: each request goes to the gateway's address (name, IPv4 or IPv6), directly or through the HTTP proxy configured or named by the environment, with that proxy's credentials and as the user of the configured authentication; scheduler connections and links use the proxy and public addresses; and without an address the client refuses. New clusters' options are the configured ones overridden by those given in the call, and no call changes the configuration or another call's options. A scheduler connection asks for its own cluster by name and proves itself with that cluster's credentials, accepts no server and reaches no cluster with others, and its key lies only in files that no other user can read, only as long as needed, and is not shown.",
  ["inputs", "configurations"], "every combination of arguments, configuration and environment",
  "The tests connect with explicit arguments to one local gateway; precedence, address forms, proxies and refusals in combination are not exercised.",
  ["dask-gateway/dask_gateway/client.py", "dask-gateway/dask_gateway/auth.py", "dask-gateway/dask_gateway/comm.py", "dask-gateway/dask_gateway/config.py", "dask-gateway/dask_gateway/gateway.yaml", "dask-gateway/dask_gateway/utils.py"], [("settings", "client.py Gateway._init_internal"), ("authentication", "auth.py get_auth"), ("scheduler connections", "comm.py GatewayConnector and client.py GatewaySecurity")],
  ["where, through what and with which credentials each request arrives", "the server names asked for and certificates shown on scheduler connections", "files in the temporary directory"])

p("C35", "The gateway program starts as configured or not at all, and ends in order",
  "For every configuration file and command line, each option takes the command line's value, else the file's, else the documented default, in every documented form (memory with units, commands as text or list, classes by name or object, addresses with port 0 or no host), and generate-config writes a file that shows the options, changes nothing when loaded, and replaces no file without --force. A configuration that cannot be applied, or a start that fails, makes the program end with a non-zero status and say why, with what was set up cleaned up; a value that cannot be applied to clusters refuses clusters. Told to end by SIGTERM or SIGINT at any moment after its set-up began, it answers the calls under way, stops the clusters unless they are to be left running, cleans each part up exactly once, the backend after the last call, and ends with status 0 leaving nothing behind.",
  ["schedules", "fault_sequences", "histories", "configurations"], "every configuration, fault at start and moment of the signal",
  "The tests start parts of the gateway within one process with a few good configurations; the program's start, refusals and end by signals are not run.",
  [S + "app.py", S + "traitlets.py", S + "utils.py", B + "base.py", B + "db_base.py"], [("program", "app.py DaskGateway.initialize, setup, main and cleanup; utils.py run_main"), ("forms of values", "traitlets.py and utils.py normalize_address"), ("generated file", "app.py GenerateConfig")],
  ["values the parts are given", "exit status and output of the program", "setups, calls, cluster stops and cleanups in order, against the signal"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
