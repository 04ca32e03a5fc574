from common import OPS, Skip  # noqa
import ops_cdb       # noqa
import ops_exec      # noqa
import ops_coro      # noqa
import ops_files     # noqa
import ops_disk      # noqa
import ops_pages     # noqa
import ops_pack      # noqa
import ops_history  # noqa
import ops_names    # noqa
import ops_threads  # noqa
import ops_custom   # noqa
import ops_retention  # noqa


@ops_cdb.op
def ping():
    return "pong"
