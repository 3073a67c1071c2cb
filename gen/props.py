# The properties: texts for properties.jsonl and MANIFEST.json.
# P(id, title, statement, over, quantifier, why, files, mechanism, level_note)
PROPS = []
def P(id, title, statement, over, quant, why, files, mech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=files, mech=mech, note=note))

RG = "worker goroutine, event loop, API callers"
P("P01", "Stop and Dead observe a worker's real completion",
  "Stopping a worker kills it, waits for it, and returns exactly the error its wait reported. "
  "The channel obtained for a worker's death is never nil, is closed if and only if the worker has completed (or is the worker's own such channel), and obtaining it never blocks.",
  ["programs", "schedules"], "every worker implementation, with or without a death channel of its own, and every interleaving of its completion with the observers",
  "tests use a few well-behaved workers; whether the channel can close early or never depends on every path and on when Wait returns",
  ["worker.go"], [("worker.Stop", "worker.go"), ("worker.Dead", "worker.go")],
  "all paths of both functions and of the goroutine Dead starts")
P("P02", "Catacomb is responsible for every worker it is given",
  "Every worker handed to a catacomb, at invocation or added later, is killed when the catacomb starts dying and is waited for, whether or not the call that handed it over succeeds. "
  "A failing invocation has stopped (killed and waited for) every non-nil worker it was given before it returns, and an addition fails only if the catacomb is dying, after having stopped the worker itself. "
  "An addition that succeeds always has someone taking charge of the worker.",
  ["schedules", "programs", "fault_sequences"], "every interleaving of additions, worker completions, kills and shutdown; every way an invocation can fail",
  "an orphaned worker shows only in a particular interleaving of an addition with the catacomb's death, or on a failure path with several workers",
  ["catacomb/catacomb.go"], [("Invoke", "catacomb/catacomb.go"), ("Catacomb.Add", "catacomb/catacomb.go"), ("listener and per-worker goroutines", "catacomb/catacomb.go")],
  "ownership of each worker term followed through all paths and the goroutines started")
P("P03", "Catacomb is dead only when its work and all its workers have stopped",
  "A catacomb becomes dead, and its wait returns, only after its work function has returned, every worker it is responsible for has been waited for, and every goroutine it started has finished its part. "
  "When the work finishes, with whatever outcome, or the catacomb is killed, nothing inside the catacomb itself keeps it from dying once work and workers have stopped. "
  "No goroutine of the catacomb outlives the worker it watches.",
  ["schedules", "histories"], "every interleaving of work completion, worker completions, additions and kills",
  "a counter incremented too late or decremented too early shows only when the goroutine is preempted in a window of a few instructions",
  ["catacomb/catacomb.go"], [("wait group accounting", "catacomb/catacomb.go"), ("tomb goroutine", "catacomb/catacomb.go")],
  "wait-group accounting and blocking operations on all paths of all goroutines of the catacomb")
P("P04", "Catacomb reports the right error and clean exits leave it running",
  "A catacomb killed by its own dying error keeps the error it already has; the underlying library's dying error or another catacomb's dying error are reported as misuse; every other error, from a kill, its work or one of its workers, is passed on unmodified, and the first one is what waiting for the catacomb returns. "
  "A worker that finishes without error leaves the catacomb running; one that fails kills it with that error. "
  "The dying error can be obtained only from a dying catacomb, and adding to a dying catacomb returns the stopped worker's error or else the dying error.",
  ["inputs", "schedules", "histories"], "every error value (wrapped or not), every order of failures, kills and completions",
  "tests try a handful of error values; the table has to hold for each way an error reaches the catacomb",
  ["catacomb/catacomb.go"], [("Catacomb.Kill", "catacomb/catacomb.go"), ("Catacomb.ErrDying", "catacomb/catacomb.go"), ("Catacomb.Add", "catacomb/catacomb.go"), ("worker goroutines", "catacomb/catacomb.go")],
  "decision table over five classes of error at every place where the tomb is killed")
P("P05", "Catacomb turns a panic in its work into an error",
  "If the work function of a catacomb panics, with whatever value, the process survives, the catacomb dies with an error that contains the panic value and the stack and identifies itself as originating from a panic, and its workers are stopped and waited for as usual.",
  ["inputs", "fault_sequences"], "every panic value and every point at which the work function can panic",
  "tests panic with one or two values",
  ["catacomb/catacomb.go"], [("runSafely", "catacomb/catacomb.go"), ("errWithStackTrace", "catacomb/catacomb.go")],
  "all exceptional paths of the goroutine that runs the work")
P("P06", "Catacomb can be invoked once, with a valid plan only",
  "Of any number of invocations using the same catacomb, concurrent ones included, at most one succeeds, and the others return an error without affecting it. "
  "An invocation succeeds only with a name, a catacomb, a work function and no nil worker, and validation rejects exactly the plans lacking one of these, with a not-valid error.",
  ["schedules", "inputs"], "every plan and every interleaving of invocations on one catacomb",
  "tests invoke twice in sequence; concurrent invocations need a race in a window of one instruction",
  ["catacomb/catacomb.go"], [("Invoke", "catacomb/catacomb.go"), ("Plan.Validate", "catacomb/catacomb.go")],
  "all paths of Invoke and Validate")
P("P07", "Runner: at most one instance of a worker id at any time",
  "At any moment at most one worker started for an id exists: a start function is called for an id only if the id is unknown to the runner or its previous worker has been waited for to completion. "
  "Each call of the start function is followed by waiting for the worker it returned, and the id is either removed or restarted exactly once per completion.",
  ["schedules", "histories"], "every sequence and interleaving of starts, stops, failures, restarts and shutdown, for any number of ids",
  "overlap needs a start request to meet a completion or a restart at the right moment",
  ["runner.go"], [("Runner.run", "runner.go"), ("Runner.runWorker", "runner.go")],
  "every transition of the event loop and every path of the worker goroutine")
P("P08", "Runner: Wait returns only after every worker has stopped",
  "Waiting for a runner returns only after the runner was killed or got a fatal error and every worker it ever started has completed, and then it does return. "
  "Whoever waits for an id to be removed is told when, and only when, the id's worker has completed and the id has been removed.",
  ["schedules", "histories"], "every set of workers in every state (starting, running, waiting to restart, stopping) at the time of shutdown",
  "tests shut down a few workers in simple states",
  ["runner.go"], [("Runner.run", "runner.go"), ("Runner.Wait", "runner.go")],
  "every transition of the event loop; exits only in states proved dying and empty")
P("P09", "Runner: stop and shutdown reach every worker, even one still starting",
  "Once a worker has been asked to stop, or its runner is dying, it is killed if it is running, killed as soon as it has started if it was being started, woken up without being started if it was waiting to be restarted, and never started again. "
  "A dying runner accepts no new workers, and the request is never forgotten.",
  ["schedules", "histories"], "every moment at which a stop request, a kill or a fatal error can arrive relative to start, run, failure and restart of every worker",
  "each window (starting, delay before restart) is a few instructions or needs a test clock to hold it open",
  ["runner.go"], [("Runner.killWorkerLocked", "runner.go"), ("Runner.setWorker", "runner.go"), ("Runner.run", "runner.go")],
  "inductive invariant over the transitions of the event loop, with the mark of a stop request inferred")
P("P10", "Runner: restart policy (clean exit, fatal, ShouldRestart, delay)",
  "A worker that ends without error, was asked to stop, or fails with an error for which the configured predicate says not to restart, is removed and never restarted; one that fails with a fatal error shuts the runner down; any other failed worker is started again with the same start function. "
  "A restart happens only after the configured delay on the configured clock; a first start is not delayed. "
  "Nothing but a kill or a fatal error shuts the runner down.",
  ["inputs", "histories", "configurations"], "every error, every configuration of the predicates, every state in which a completion can find the runner",
  "the decision depends on five conditions at once; tests cover a few combinations",
  ["runner.go"], [("Runner.workerDone", "runner.go"), ("Runner.runWorker", "runner.go")],
  "decision table over all valuations of the five conditions")
P("P11", "Runner: Wait reports the most important fatal error",
  "Waiting for a runner returns nil if no worker failed with a fatal error, and otherwise the most important of the fatal errors according to the configured ordering, the first of equals; killing a runner never adds an error or hides one. "
  "Without configuration every error is fatal, every worker is restarted, the first fatal error is kept, the delay is the documented default and the clock is the wall clock.",
  ["histories", "inputs", "configurations"], "every sequence of worker errors, during shutdown too, and every configuration of the callbacks",
  "errors that arrive during shutdown in a particular order are not tested",
  ["runner.go"], [("Runner.workerDone", "runner.go"), ("NewRunner", "runner.go")],
  "effect of every transition on the stored error, for all valuations of the conditions")
P("P12", "Runner: shared state is accessed without data races or lock misuse",
  "No two goroutines access the same runner state at the same time unless both only read it, for any use of the public operations. "
  "The runner's lock is released on every path, never taken twice by one goroutine, and never held while waiting for something else.",
  ["schedules"], "every interleaving of all public operations with the runner's own goroutines",
  "a race detector sees only the interleavings that happen",
  ["runner.go"], [("Runner.mu", "runner.go")],
  "lockset analysis over every pair of accesses in code that may run concurrently")
P("P13", "Runner: Worker lookup returns a live worker or the right error",
  "Looking up a worker returns the current worker of that id, never one already known to have finished or of another id; it returns not-found only if the id was absent, the dead error only if the runner is shutting down, and the aborted error only if the caller's abort was signalled. "
  "A lookup of a worker that is starting or waiting to be restarted waits until it is available, and is woken up by its start, its removal, the runner's shutdown or the caller's abort.",
  ["schedules", "histories"], "every interleaving of a lookup with start, completion, restart, removal, abort and shutdown",
  "a lost wake-up or a stale worker needs the lookup to meet a transition in a narrow window",
  ["runner.go"], [("Runner.Worker", "runner.go"), ("Runner.workerInfo", "runner.go")],
  "all paths of the lookup and every wake-up in every transition")
P("P14", "Runner: no operation hangs when the runner is dead or dying",
  "Every public operation of a runner returns once the runner has shut down, and a request accepted by the runner is always answered: starting, stopping, looking up and reporting never block for ever, whatever the runner is doing when they are called. "
  "A caller that gives up waiting, by its context or its abort channel, is let go with an error that says so. "
  "The runner's own event loop never blocks on a caller.",
  ["schedules", "histories"], "every moment at which an operation can be called relative to shutdown, and callers that give up",
  "a hang shows only if the runner dies in between two particular steps of the operation",
  ["runner.go"], [("StartWorker", "runner.go"), ("StopWorker", "runner.go"), ("StopAndRemoveWorker", "runner.go"), ("Runner.run", "runner.go")],
  "every blocking operation has an alternative that becomes ready on shutdown, or a reply that is proved to be sent")
P("P15", "Runner: StopAndRemoveWorker returns only when the id is free again",
  "Stopping and removing a worker returns without error only after that worker has completed and its id has been removed, so that the id can be started again at once, and it returns the error the worker ended with. "
  "The worker is not restarted in between; an unknown id gives not-found; abort and shutdown give their own errors.",
  ["schedules", "histories"], "every state of the worker at the time of the call, several callers at once, abort and shutdown during the wait",
  "the worker has to fail by itself, or a second caller has to arrive, in a narrow window",
  ["runner.go"], [("Runner.StopAndRemoveWorker", "runner.go"), ("Runner.run", "runner.go")],
  "all paths of the operation and every transition that can complete it")
P("P16", "Runner: names and report describe the current workers",
  "The list of worker names contains exactly the ids currently known to the runner. "
  "The report has an entry for each of them with its state (started, stopping or stopped), the time of its last start, and the report of the worker itself if it is running and offers one, always for the same id.",
  ["histories", "schedules"], "every set of workers in every combination of states",
  "tests look at one or two workers in one state",
  ["runner.go"], [("Runner.Report", "runner.go"), ("Runner.WorkerNames", "runner.go")],
  "all paths of the reporting functions and every transition that changes what they show")

ENG = ["dependency/engine.go"]
P("P17", "Engine: its state is used by one goroutine at a time",
  "No two goroutines access the same engine state at the same time unless both only read it: the installed manifolds, the index of dependents, the workers' records and the worst error are used only by the event loop until the engine is dead, whatever operations are called concurrently and whatever the workers do.",
  ["schedules"], "every interleaving of the public operations, the event loop and the goroutines of the workers",
  "a race detector sees only the interleavings that happen",
  ENG, [("Engine.loop", "dependency/engine.go"), ("Engine.Report", "dependency/engine.go"), ("Engine.Wait", "dependency/engine.go")],
  "every access to engine state in code reachable from the public operations and all goroutines")
P("P18", "Engine: at most one worker per manifold, and none is lost",
  "At any moment at most one start function or worker of a manifold is active: a manifold is started only if its previous worker, if any, has been waited for to completion. "
  "Every worker a start function returns is waited for, its completion (or the failure of its start) is announced to the engine exactly once, with the error it returned, and every completion announced is acted on.",
  ["schedules", "histories"], "every sequence and interleaving of installs, starts, failures, bounces and shutdown over any graph of manifolds",
  "an overlap or a lost worker needs two notifications to meet at the right moment",
  ENG, [("Engine.requestStart", "dependency/engine.go"), ("Engine.runWorker", "dependency/engine.go"), ("Engine.gotStarted", "dependency/engine.go"), ("Engine.gotStopped", "dependency/engine.go")],
  "every transition of the event loop and every path of the worker goroutine")
P("P19", "Engine: shutdown reaches every worker and waits for all",
  "When an engine is killed or gets a fatal error, every worker that runs is killed and its context cancelled, every worker still being started is killed as soon as it has started, and nothing is started any more. "
  "Waiting for the engine returns only once every worker but the engine itself has stopped, and then it does return; an engine that was not killed and has had no fatal error keeps running.",
  ["schedules", "histories"], "every state of every worker (waiting, starting, running, stopping) at the moment the engine dies",
  "tests shut down a few workers in simple states",
  ENG, [("Engine.loop", "dependency/engine.go"), ("Engine.allOthersStopped", "dependency/engine.go"), ("Engine.requestStop", "dependency/engine.go")],
  "every transition of the event loop; exits only in states proved dying and empty")
P("P20", "Engine: restarts follow the documented policy and delays",
  "A manifold whose worker was asked to stop by the engine is started again after the bounce delay. Otherwise the (filtered) error decides: none, or ErrMissing: it is not started until its inputs change; ErrBounce: it is started again after the bounce delay; ErrUninstall: it is removed for good; any other: it is started again after the error delay. "
  "Errors are recognised when wrapped, too. With a backoff factor, the delay is multiplied by it once for each further recent error and limited by the maximum delay if there is one; up to the documented fuzz of 10%, it is never less than configured. The count of recent errors starts afresh after a clean end, a missing dependency, or a run at least as long as the reset time.",
  ["inputs", "histories", "configurations"], "every error value, every history of recent errors and every configuration of delays",
  "tests cover a few combinations of error, state and delay; the decision depends on all of them at once",
  ENG, [("Engine.gotStopped", "dependency/engine.go"), ("Engine.requestStart", "dependency/engine.go")],
  "decision table over all valuations of the conditions; interval of the delay on every path")
P("P21", "Engine: dependents are bounced whenever a worker starts or stops",
  "Whenever the worker of a manifold has started, or a started worker has stopped, every installed manifold that declares it as an input is started (if it has no worker) or asked to stop and started again (if it has), and no other manifold is. "
  "This holds for manifolds installed before or after those they depend on, and no longer for those uninstalled.",
  ["histories", "schedules"], "every dependency graph and every order of installs, uninstalls, starts and stops",
  "tests use two or three manifolds in a fixed order",
  ENG, [("Engine.bounceDependents", "dependency/engine.go"), ("Engine.gotInstall", "dependency/engine.go"), ("Engine.uninstall", "dependency/engine.go")],
  "every transition that records a start or an end; every update of the index of dependents")
P("P22", "Engine: a fatal error stops it and the worst one is reported",
  "An engine stops by itself when, and only when, a worker ends with an error (after the manifold's filter) that the configured predicate calls fatal, or an internal invariant is broken. "
  "Waiting for it returns the internal error if there is one, and otherwise the worst of all fatal errors, those during shutdown included, according to the configured comparison of the new one with the worst so far, passed through the configured filter.",
  ["histories", "inputs", "configurations"], "every sequence of worker errors, during shutdown too, and every configuration of the callbacks",
  "errors that arrive during shutdown, in particular orders, are hardly tested",
  ENG, [("Engine.gotStopped", "dependency/engine.go"), ("Engine.Wait", "dependency/engine.go")],
  "all calls of the callbacks and all writes of the error on all paths")
P("P23", "Engine: a start function sees exactly its declared inputs, while it runs",
  "The getter a start function is given succeeds for a declared input that was running when the start was requested, and converts it with the output function of that very input; every other request (undeclared, not running, not exposed) fails with ErrMissing, and every request once the start function has returned fails.",
  ["programs", "histories"], "every set of declared and installed manifolds in every state, every request a start function can make",
  "tests make a few requests against one or two inputs",
  ENG + ["dependency/snapshot.go"], [("snapshot.Get", "dependency/snapshot.go"), ("Engine.snapshot", "dependency/engine.go"), ("Engine.runWorker", "dependency/engine.go")],
  "decision table of the getter; provenance of its content on all paths that start a worker")
P("P24", "Engine: duplicate and cyclic manifolds are rejected without effect",
  "Installing a manifold under a name already in use, or one that would make the graph of declared inputs cyclic together with all installed ones, fails and changes nothing; any other install on a running engine succeeds and starts the manifold. "
  "Validating a set of manifolds fails if and only if their declared inputs form a cycle, whatever the size of the graph and for inputs that are not in the set.",
  ["inputs", "histories"], "every graph of manifolds",
  "tests check a handful of graphs",
  ENG + ["dependency/util.go"], [("Engine.gotInstall", "dependency/engine.go"), ("Validate", "dependency/util.go")],
  "all paths of the install transition; the cycle check as an inductive invariant on node marks")
P("P25", "Engine: no operation hangs, and the event loop never blocks",
  "Installing, reporting, killing and waiting for an engine that dies all return, whatever the engine is doing when they are called; a request accepted is answered exactly once. "
  "The event loop blocks on nothing but its own notifications, and every goroutine the engine starts ends once the worker it looks after has, or the engine itself has, ended.",
  ["schedules"], "every moment at which an operation or a completion can meet the engine's death",
  "a hang or a leaked goroutine shows only if the engine dies between two particular steps",
  ENG, [("Engine.loop", "dependency/engine.go"), ("Engine.Install", "dependency/engine.go"), ("Engine.Report", "dependency/engine.go"), ("Engine.runWorker", "dependency/engine.go")],
  "every blocking operation on all paths of all methods and goroutines")
P("P26", "Engine: a worker's context is cancelled exactly when it has to stop",
  "The context given to a start function is cancelled when its worker is asked to stop, when the engine dies, and once the worker is gone, and not before; stopping one worker never cancels another's. "
  "A start that has been cancelled while waiting for its delay never calls the start function, and no context's resources outlive its worker.",
  ["schedules", "histories"], "every interleaving of delay, start, stop requests, completion and shutdown for any number of manifolds",
  "the context matters only in windows that tests cannot hold open, and a leak shows only in the long run",
  ENG, [("Engine.scopedContext", "dependency/engine.go"), ("Engine.requestStop", "dependency/engine.go"), ("Engine.gotStopped", "dependency/engine.go"), ("Engine.runWorker", "dependency/engine.go")],
  "every cancel function followed from its creation to its calls on all paths")
P("P27", "Engine: it can safely run itself as a manifold",
  "An engine installed into itself with the self manifold runs as a worker that others can depend on: it neither waits for itself nor keeps itself from shutting down nor reports itself recursively, and it goes when the engine dies. "
  "Its output can be obtained as an installer or a reporter and nothing else; every other type of target, and every other worker, is refused with an error.",
  ["schedules", "programs"], "every state of the engine and its other manifolds, every type of target",
  "tests shut down one self-hosting engine in one state",
  ENG + ["dependency/util.go"], [("Engine.runWorker", "dependency/engine.go"), ("Engine.allOthersStopped", "dependency/engine.go"), ("SelfManifold", "dependency/util.go")],
  "all paths on which the worker is the engine itself; decision table of the output function")
P("P28", "Engine: an invalid configuration is rejected and a valid one used as given",
  "An engine is created if and only if its configuration is valid: the mandatory callbacks, clock, metrics and logger given, no delay negative, and a backoff factor of zero or at least one. "
  "It then uses exactly the configuration it was given; otherwise an error is returned, with no engine and nothing started.",
  ["configurations"], "every combination of valid and invalid fields",
  "tests invalidate one field at a time",
  ENG, [("EngineConfig.Validate", "dependency/engine.go"), ("NewEngine", "dependency/engine.go")],
  "decision table over the validity of all fields")
P("P29", "Engine: report and metrics describe the current workers",
  "The report of an engine gives its state (started, stopping, stopped) and error, and for each installed manifold, and no other, its state, its declared inputs, the number and time of its starts, its last error and the report of its worker if it offers one, all of the same manifold, whether the engine is running or dead. "
  "Every start of a worker that the engine accepts is counted and recorded with the metrics exactly once.",
  ["histories", "schedules"], "every set of manifolds in every combination of states",
  "tests look at one or two manifolds in one state",
  ENG + ["dependency/reporter.go"], [("Engine.liveReport", "dependency/engine.go"), ("Engine.manifoldsReport", "dependency/engine.go"), ("Engine.gotStarted", "dependency/engine.go")],
  "all paths of the reports and all updates of what they show")
P("P30", "Runner: created if and only if its parameters are valid",
  "A runner is created if and only if its parameters are valid, that is, have a name; otherwise a not-valid error is returned, with no runner and nothing started. "
  "A runner that is created runs, alive, without workers and without an error.",
  ["configurations"], "every combination of parameters",
  "tests create runners with a handful of parameters; a runner created from invalid ones works until its name is needed",
  ["runner.go"], [("RunnerParams.Validate", "runner.go"), ("NewRunner", "runner.go")],
  "decision table over the validity of the parameters and all paths of the constructor")
P("P31", "Stub resources answer exactly as configured",
  "The stub getter for testing start functions answers exactly as configured: a name that is not configured fails; a configured error is returned as it is; otherwise, without a target, it succeeds, a target that is no pointer is refused, and any other target is set to the first of the configured outputs (none of them nil) that its type can hold, once, or else left alone and an error returned. "
  "Made from raw values, an error stands for failure, a slice of values for these outputs and any other value for itself as the only output.",
  ["inputs"], "every set of configured resources, every name and every type of target",
  "no test of the repository uses it at all; users' tests rely on it in place of a real engine",
  ["dependency/testing/stub.go"], [("Getter.Get", "dependency/testing/stub.go"), ("NewStubResources", "dependency/testing/stub.go")],
  "decision table over configuration and target on all paths of the stub getter, and all iterations of the conversion")
P("P32", "Test helpers and stub workers are bounded and truthful",
  "A helper for testing workers returns within its documented delay whatever the worker does, never ends the calling goroutine, and leaves no goroutine behind once the worker has ended. "
  "It fails the test exactly if the worker did not do what it checks (stays alive; stops, after having been killed where it says so; stops without error; is nil), and returns the error the worker ended with. "
  "A stub worker ends exactly when it says (once killed, from the start, only when really killed) with exactly the error it was given. A fake watcher offers exactly the preloaded changes, in a channel of the given length.",
  ["programs", "schedules"], "every worker, whether it ends, when, and with which error",
  "each helper is tested with one or two workers; that a goroutine is left behind or that an unfortunate worker makes it wait is not visible in those",
  ["workertest/check.go", "workertest/workers.go", "workertest/fake_watcher.go"], [("CheckKilled", "workertest/check.go"), ("NewErrorWorker", "workertest/workers.go"), ("NewFakeWatcher", "workertest/fake_watcher.go")],
  "all paths of the helpers, the stub workers and their goroutines")
P("P33", "Nothing spins: every loop waits for something that happens",
  "No goroutine of a runner, engine or catacomb goes round a loop without waiting: a signal that stays set once it is (dying, dead, a cancelled context, an abort) is acted on once, and from then on the loop waits for something else, however long the workers take to stop.",
  ["schedules", "histories"], "every state in which a signal is set while workers are still running",
  "a busy loop changes no result; it only burns a processor for as long as a worker takes to stop",
  ["runner.go", "dependency/engine.go", "catacomb/catacomb.go"], [("Runner.run", "runner.go"), ("Engine.loop", "dependency/engine.go")],
  "cycles among the iterations, of every loop with channel operations, that take nothing but a lasting signal")
P("P36", "Nothing in juju/worker crashes by itself",
  "As long as what it is given is valid (a non-nil receiver, complete configurations, user functions that honour their contract), no function of juju/worker dereferences, calls or passes on as a context something that is nil: a worker that is not there, an error that did not happen, an optional setting that was left out, the result of a lookup that found nothing, a logger or a record that was never set. "
  "None closes a channel twice, sends on a closed one, or asserts a type that a value need not have.",
  ["inputs", "schedules", "histories"], "every input, every combination of optional settings, every order of requests and completions",
  "the missing value is there in every history a test drives; the process is gone in the one where it is not",
  ["runner.go", "worker.go", "catacomb/catacomb.go", "dependency/engine.go"],
  [("all exported functions and their goroutines", "runner.go"), ("Engine.loop", "dependency/engine.go"), ("Catacomb.add", "catacomb/catacomb.go")],
  "nilness of every operand on every abstract path, and every close and send of every channel")
P("P37", "Runner: a start function's context ends with the runner or its caller",
  "The context a runner passes to a start function is cancelled when the runner starts dying, so that a start that takes long cannot hold up its shutdown, and on the first start also when the context given to StartWorker is. "
  "Nothing else ends it while the start function runs; that of a restart does not depend on the request that started the worker first.",
  ["schedules", "histories", "programs"], "every moment at which the runner is killed or the caller's context ends relative to a start or restart, every start function that watches its context",
  "a context that outlives the runner matters only to a start function that blocks on it at that very moment",
  ["runner.go"], [("Runner.StartWorker", "runner.go"), ("Runner.runWorker", "runner.go")],
  "derivation of the context through the request, the event loop and the goroutine, for every call of a start function")
P("P38", "Runner: an id can be started exactly if it is free",
  "Starting a worker on a running runner succeeds if the id is unknown to the runner, and the id is known before the call returns, so that a lookup made after it never misses it; "
  "for an id that is known, in whatever state its worker is, it fails with already-exists and changes nothing. The start function called for the id is the one given, and the call does not wait for it to return. "
  "A request to stop an id is about that id; a call returns the dead error only if the runner is shutting down or has shut down or the caller's context has ended.",
  ["schedules", "histories"], "every state in which the id's previous worker can be, every order of requests from concurrent callers",
  "tests start ids that are new, running, or finished and removed; not those that are being stopped or are waiting to be restarted",
  ["runner.go"], [("Runner.StartWorker", "runner.go"), ("Runner.startWorker", "runner.go"), ("Runner.workerDone", "runner.go")],
  "all paths from the request through the event loop to the reply, and the ledger of ids and workers behind them")
NA = []
def N(id, title, statement, over, quant, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                   files=files, mech=mech, note=reason))
N("P34", "Engine: every manifold whose inputs stay available ends up running",
  "If from some moment on no manifold is installed or removed and no worker fails, every manifold whose start function succeeds with the workers then running is eventually running, and has been started with the latest workers of its inputs.",
  ["schedules", "histories", "programs"], "every graph of manifolds, every behaviour of their start functions up to that moment, every schedule",
  "needs an arbitrarily long history before things settle",
  ENG, [("Engine.loop", "dependency/engine.go")],
  "a liveness property over user code: whether the bounces triggered by restarts die out depends on what start functions and workers do, on timers and on fairness, none of which the source of juju/worker bounds. The safety parts it rests on (every change bounces the dependents, every stop leads to the documented restart, no request is lost) are P18, P20, P21 and P25")
N("P35", "Engine: delays are spread evenly over the documented fuzz",
  "Restart delays with backoff are spread over the documented fuzz of 10%, so that workers which failed together do not restart together.",
  ["inputs", "schedules"], "every number of recent errors and every pair of workers failing together",
  "needs statistics over many restarts",
  ENG, [("Engine.requestStart", "dependency/engine.go")],
  "a statement about the distribution of a random quantity at run time; a static argument can bound the delay (P20 does) but not show how it is spread")
