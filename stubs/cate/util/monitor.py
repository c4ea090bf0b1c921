"""Stand-in for cate.util.monitor (cate is not installed here): same protocol as dedop.util.monitor."""
from dedop.util.monitor import Monitor as _M, ChildMonitor, ConsoleMonitor  # noqa: F401


class Monitor(_M):
    NONE = _M.NULL
