"""Public-API executors used to perturb schedules."""
import threading

from hamilton.execution import executors
from hamilton.execution.executors import TaskExecutor, TaskFuture, base_execute_task
from hamilton.execution.state import TaskState


class AdversarialExecutor(TaskExecutor):
    """Decides (from a seed) when each submitted task runs and in which order completions are
    reported; refuses submissions at random; never violates the TaskExecutor contract."""

    def __init__(self, rng, max_tasks=4, log=None, p_refuse=.3, p_run=.35, name="adv"):
        self.rng, self.max_tasks, self.log = rng, max_tasks, log if log is not None else []
        self.p_refuse, self.p_run, self.name = p_refuse, p_run, name
        self.pending = []
        self.live = False

    def init(self):
        self.log.append(("init", self.name))
        self.live = True
        self.pending = []

    def finalize(self):
        self.log.append(("finalize", self.name))
        self.live = False

    def can_submit_task(self):
        ok = len([t for t in self.pending if not t["done"]]) < self.max_tasks and \
            (self.rng.random() > self.p_refuse)
        self.log.append(("can_submit", self.name, ok))
        return ok

    def submit_task(self, task):
        self.log.append(("submit", self.name, task.task_id, task.purpose.value,
                         sorted(n.name for n in task.nodes)))
        rec = dict(task=task, done=False, res=None, err=None)
        self.pending.append(rec)

        def get_state():
            if not rec["done"]:
                if self.rng.random() > self.p_run:
                    return TaskState.RUNNING
                try:
                    rec["res"] = base_execute_task(rec["task"])
                except Exception as e:  # noqa: BLE001
                    rec["err"] = e
                rec["done"] = True
                self.log.append(("finish", self.name, task.task_id, rec["err"] is None))
            return TaskState.FAILED if rec["err"] is not None else TaskState.SUCCESSFUL

        def get_result():
            if not rec["done"]:
                return None
            if rec["err"] is not None:
                raise rec["err"]
            return rec["res"]

        return TaskFuture(get_state=get_state, get_result=get_result)


class RecordingExecutor(TaskExecutor):
    """Delegates to a real executor and records the protocol events at the boundary."""

    def __init__(self, inner, log, name):
        self.inner, self.log, self.name = inner, log, name
        self.lock = threading.Lock()

    def _rec(self, *ev):
        with self.lock:
            self.log.append(ev)

    def init(self):
        self._rec("init", self.name)
        self.inner.init()

    def finalize(self):
        self.inner.finalize()
        self._rec("finalize", self.name)

    def can_submit_task(self):
        ok = self.inner.can_submit_task()
        self._rec("can_submit", self.name, ok)
        return ok

    def submit_task(self, task):
        self._rec("submit", self.name, task.task_id, task.purpose.value, sorted(n.name for n in task.nodes))
        fut = self.inner.submit_task(task)
        seen = []

        def get_state():
            st = fut.get_state()
            if TaskState.is_terminal(st) and not seen:
                seen.append(1)
                self._rec("finish", self.name, task.task_id, st == TaskState.SUCCESSFUL)
            return st
        return TaskFuture(get_state=get_state, get_result=fut.get_result)


def make(kind, rng, log=None, n=None):
    n = n or rng.choice([1, 2, 3, 5, 8])
    if kind == "sync":
        return executors.SynchronousLocalTaskExecutor()
    if kind == "threads":
        return executors.MultiThreadingExecutor(max_tasks=n)
    if kind == "procs":
        return executors.MultiProcessingExecutor(max_tasks=min(n, 3))
    if kind == "adv":
        return AdversarialExecutor(rng, n, log)
    raise ValueError(kind)
