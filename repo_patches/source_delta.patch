From 6886489014783791e90a58c2d5a2fb2bce008e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:38 +0000
Subject: [PATCH 01/10] fix: keep the first fatal error when MoreImportant is
 nil

RunnerParams documents that, with no MoreImportant, the first fatal error
reported is the one Wait returns. The default considered every later error
more important, so the last one won.
---
 runner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner.go b/runner.go
index bda5937..bc35766 100644
--- a/runner.go
+++ b/runner.go
@@ -220,7 +220,7 @@ func NewRunner(p RunnerParams) (*Runner, error) {
 	}
 	if p.MoreImportant == nil {
 		p.MoreImportant = func(err0, err1 error) bool {
-			return true
+			return false
 		}
 	}
 	if p.RestartDelay == 0 {
-- 
2.43.0


From 9083f36131371a21b557f1a8b84bbe3d1c820867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:39 +0000
Subject: [PATCH 02/10] fix: release every StopAndRemoveWorker caller

The removal of a worker was signalled by sending one value, so of several
concurrent StopAndRemoveWorker calls for the same id only one was ever
released. Close the channel instead.
---
 runner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runner.go b/runner.go
index bc35766..0075db7 100644
--- a/runner.go
+++ b/runner.go
@@ -486,7 +486,7 @@ func (runner *Runner) startWorker(req startReq) error {
 		start:        req.start,
 		restartDelay: runner.params.RestartDelay,
 		started:      runner.params.Clock.Now().UTC(),
-		done:         make(chan struct{}, 1),
+		done:         make(chan struct{}),
 	}
 
 	pprof.Do(runner.tomb.Context(req.ctx), labels, func(ctx context.Context) {
@@ -563,7 +563,7 @@ func (runner *Runner) workerDone(info doneInfo) {
 func (runner *Runner) removeWorker(id string, removed chan<- struct{}) {
 	runner.mu.Lock()
 	delete(runner.workers, id)
-	removed <- struct{}{}
+	close(removed)
 	runner.mu.Unlock()
 }
 
-- 
2.43.0


From 0ffbfffaf1807eaa7948a1c4c897e7f04da474a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:39 +0000
Subject: [PATCH 03/10] fix: StopAndRemoveWorker must not leave the worker to
 be restarted

StopAndRemoveWorker stopped the worker behind the runner's back. If the
worker then reported a non-fatal error the runner restarted it, and the
caller waited for a removal that never came. It also ignored abort while
the worker was stopping.
---
 runner.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/runner.go b/runner.go
index 0075db7..533779b 100644
--- a/runner.go
+++ b/runner.go
@@ -293,12 +293,16 @@ func (runner *Runner) StopAndRemoveWorker(id string, abort <-chan struct{}) erro
 	if err != nil {
 		return err
 	}
-	workerErr := Stop(w)
+	// Go through the runner, so that it knows not to restart the worker
+	// should the worker report an error as it stops.
+	if err := runner.StopWorker(id); err != nil {
+		return err
+	}
 
 	select {
 	case <-abort:
 	case <-done:
-		return workerErr
+		return w.Wait()
 	}
 	return ErrAborted
 }
-- 
2.43.0


From 8b147385b04aa0320ed8f3f45563c132101e5eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:39 +0000
Subject: [PATCH 04/10] fix: do not hand out a dead worker while its restart is
 pending

Worker is documented to wait until the worker is available, but between
a worker's exit and its restart it returned the instance that had already
stopped, and Report described it as started.
---
 runner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runner.go b/runner.go
index 533779b..99703f6 100644
--- a/runner.go
+++ b/runner.go
@@ -555,6 +555,11 @@ func (runner *Runner) workerDone(info doneInfo) {
 		runner.removeWorker(info.id, workerInfo.done)
 		return
 	}
+	// The worker is gone, and will not be available until it's restarted.
+	runner.mu.Lock()
+	workerInfo.worker = nil
+	runner.mu.Unlock()
+
 	pprof.Do(runner.tomb.Context(context.Background()), workerInfo.labels, func(ctx context.Context) {
 		go runner.runWorker(ctx, workerInfo.restartDelay, info.id, workerInfo.start)
 	})
-- 
2.43.0


From b0c717687f5b52dc728cd0af6858e13ea94693db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:17 +0000
Subject: [PATCH 05/10] fix: do not restart a worker that is stopped while
 waiting to restart

---
 runner.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/runner.go b/runner.go
index 99703f6..058ca72 100644
--- a/runner.go
+++ b/runner.go
@@ -98,6 +98,10 @@ type workerInfo struct {
 	// running and is removed from the runner.
 	done chan struct{}
 
+	// stop is closed when the worker is asked to stop, to interrupt
+	// any pending restart.
+	stop chan struct{}
+
 	// started holds the time the worker was started.
 	started time.Time
 }
@@ -485,16 +489,18 @@ func (runner *Runner) startWorker(req startReq) error {
 
 	runner.mu.Lock()
 	defer runner.mu.Unlock()
+	stop := make(chan struct{})
 	runner.workers[req.id] = &workerInfo{
 		labels:       labels,
 		start:        req.start,
 		restartDelay: runner.params.RestartDelay,
 		started:      runner.params.Clock.Now().UTC(),
 		done:         make(chan struct{}),
+		stop:         stop,
 	}
 
 	pprof.Do(runner.tomb.Context(req.ctx), labels, func(ctx context.Context) {
-		go runner.runWorker(ctx, 0, req.id, req.start)
+		go runner.runWorker(ctx, 0, req.id, req.start, stop)
 	})
 	return nil
 }
@@ -561,7 +567,7 @@ func (runner *Runner) workerDone(info doneInfo) {
 	runner.mu.Unlock()
 
 	pprof.Do(runner.tomb.Context(context.Background()), workerInfo.labels, func(ctx context.Context) {
-		go runner.runWorker(ctx, workerInfo.restartDelay, info.id, workerInfo.start)
+		go runner.runWorker(ctx, workerInfo.restartDelay, info.id, workerInfo.start, workerInfo.stop)
 	})
 	workerInfo.restartDelay = params.RestartDelay
 }
@@ -614,6 +620,9 @@ func (runner *Runner) killWorkerLocked(id string) {
 	if info == nil {
 		return
 	}
+	if !info.stopping {
+		close(info.stop)
+	}
 	info.stopping = true
 	info.start = nil
 	if info.worker != nil {
@@ -626,15 +635,17 @@ func (runner *Runner) killWorkerLocked(id string) {
 }
 
 // runWorker starts the given worker after waiting for the given delay.
-func (runner *Runner) runWorker(ctx context.Context, delay time.Duration, id string, start StartFunc) {
+// If stop is closed while it's waiting, the worker is not started.
+func (runner *Runner) runWorker(ctx context.Context, delay time.Duration, id string, start StartFunc, stop <-chan struct{}) {
 	if delay > 0 {
 		runner.params.Logger.Infof("restarting %q in %v", id, delay)
-		// TODO(rog) provide a way of interrupting this
-		// so that it can be stopped when a worker is removed.
 		select {
 		case <-runner.tomb.Dying():
 			runner.donec <- doneInfo{id, nil}
 			return
+		case <-stop:
+			runner.donec <- doneInfo{id, nil}
+			return
 		case <-runner.params.Clock.After(delay):
 		}
 	}
-- 
2.43.0


From f3d935b25dea5a7c2571a4c9574ec62b34b1fdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:17 +0000
Subject: [PATCH 06/10] fix: report a worker that is being stopped as stopping

---
 runner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner.go b/runner.go
index 058ca72..9b9c82e 100644
--- a/runner.go
+++ b/runner.go
@@ -107,7 +107,7 @@ type workerInfo struct {
 }
 
 func (i *workerInfo) status() string {
-	if i.stopping && i.worker != nil {
+	if i.stopping {
 		return "stopping"
 	}
 	if i.worker == nil {
-- 
2.43.0


From d10455b980f20c20e6effe0f750ba2c8551cbbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:17 +0000
Subject: [PATCH 07/10] fix: report the time of the last start of a restarted
 worker

---
 runner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runner.go b/runner.go
index 9b9c82e..2ceed6b 100644
--- a/runner.go
+++ b/runner.go
@@ -588,6 +588,7 @@ func (runner *Runner) setWorker(id string, w Worker) {
 	defer runner.mu.Unlock()
 	info := runner.workers[id]
 	info.worker = w
+	info.started = runner.params.Clock.Now().UTC()
 	if runner.isDying || info.stopping {
 		// We're dying or the worker has already been
 		// stopped, so kill it already.
-- 
2.43.0


From 078eaa79b31323837f3b748066eb898513fa3245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:18 +0000
Subject: [PATCH 08/10] fix: release the context of a manifold worker that has
 stopped

---
 dependency/engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dependency/engine.go b/dependency/engine.go
index ce03911..6f470e1 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -661,6 +661,11 @@ func (engine *Engine) gotStopped(name string, err error, resourceLog []resourceA
 		engine.tomb.Kill(nil)
 	}
 
+	// The worker is gone, release the resources associated with its context.
+	if info.cancel != nil {
+		info.cancel()
+	}
+
 	// Reset engine info; and bail out if we can be sure there's no need to bounce.
 	engine.current[name] = workerInfo{
 		err:         err,
-- 
2.43.0


From ffa760295dbf4f1d3b9ffe37369ae0408bac89ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:18 +0000
Subject: [PATCH 09/10] fix: do not leak the goroutine of an engine that runs
 itself

---
 dependency/engine.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index 6f470e1..dd8644c 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -566,10 +566,15 @@ func (engine *Engine) runWorker(name string, delay time.Duration, start StartFun
 	}
 
 	// We may or may not send on started, but we *must* send on stopped.
-	engine.stopped <- stoppedTicket{
+	// The loop only ever finishes first if the worker is the engine itself.
+	err := startWorkerAndWait()
+	select {
+	case engine.stopped <- stoppedTicket{
 		name:        name,
-		err:         startWorkerAndWait(),
+		err:         err,
 		resourceLog: snapshot.accessLog,
+	}:
+	case <-engine.tomb.Dead():
 	}
 }
 
-- 
2.43.0


From 659ceb597ff699553e087af73d19e723699067db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:18 +0000
Subject: [PATCH 10/10] fix: do not shorten the delay of a worker without
 recent errors

---
 dependency/engine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index dd8644c..0ba825d 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -417,7 +417,9 @@ func (engine *Engine) requestStart(name string, delay time.Duration) {
 			// Use the float64 values for max comparison. Otherwise when casting
 			// the float back to a duration we hit the int64 max which is negative.
 			maxDelay := float64(engine.config.MaxDelay)
-			floatDelay := float64(delay) * math.Pow(engine.config.BackoffFactor, float64(info.recentErrors-1))
+			// A worker without recent errors must still wait for the full delay.
+			exponent := math.Max(0, float64(info.recentErrors-1))
+			floatDelay := float64(delay) * math.Pow(engine.config.BackoffFactor, exponent)
 			if engine.config.MaxDelay > 0 && floatDelay > maxDelay {
 				delay = engine.config.MaxDelay
 			} else {
-- 
2.43.0

