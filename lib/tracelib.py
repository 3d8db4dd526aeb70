"""Independent record of what a run executed, shared by every (pickled) copy of the hook."""
import threading

from hamilton import lifecycle
from hamilton.execution.executors import TaskExecutor, TaskFuture, base_execute_task
from hamilton.execution.state import TaskState

LOG = []
LOCK = threading.Lock()
STATE = {}


def rec(*ev):
    with LOCK:
        LOG.append(ev)


class Truth(lifecycle.NodeExecutionHook, lifecycle.GraphExecutionHook, lifecycle.TaskExecutionHook):
    def run_before_graph_execution(self, *, run_id, **kw):
        rec("run", run_id)

    def run_after_graph_execution(self, *, run_id, success, error, **kw):
        rec("run_end", run_id, success, error)

    def run_before_task_execution(self, *, run_id, task_id, **kw):
        rec("task", run_id, task_id)

    def run_after_task_execution(self, *, run_id, task_id, success, error, **kw):
        rec("task_end", run_id, task_id, success, error)

    def run_before_node_execution(self, *, run_id, node_name, task_id, node_tags, node_kwargs, **kw):
        rec("node", run_id, task_id, node_name, dict(node_tags), sorted(node_kwargs))

    def run_after_node_execution(self, *, run_id, node_name, task_id, success, error, result, **kw):
        rec("node_end", run_id, task_id, node_name, success, error, result)


class PicklingExecutor(TaskExecutor):
    """Runs each task on a pickled copy of itself, as a remote executor would."""

    def init(self):
        pass

    def finalize(self):
        pass

    def can_submit_task(self):
        return True

    def submit_task(self, task):
        import cloudpickle
        res = err = None
        try:
            res = base_execute_task(cloudpickle.loads(cloudpickle.dumps(task)))
        except Exception as e:  # noqa: BLE001
            err = e

        def get_result():
            if err is not None:
                raise err
            return res
        return TaskFuture(get_state=lambda: TaskState.FAILED if err is not None else TaskState.SUCCESSFUL,
                          get_result=get_result)


from hamilton.lifecycle import base  # noqa: E402


class AsyncTruth(base.BasePreGraphExecuteAsync, base.BasePostGraphExecuteAsync, base.BasePreNodeExecuteAsync,
                 base.BasePostNodeExecuteAsync):
    async def pre_graph_execute(self, *, run_id, **kw):
        rec("run", run_id)

    async def post_graph_execute(self, *, run_id, success, error, **kw):
        rec("run_end", run_id, success, error)

    async def pre_node_execute(self, *, run_id, node_, kwargs, task_id=None, **kw):
        rec("node", run_id, task_id, node_.name, dict(node_.tags), sorted(kwargs))

    async def post_node_execute(self, *, run_id, node_, success, error, result, task_id=None, **kw):
        rec("node_end", run_id, task_id, node_.name, success, error, result)
