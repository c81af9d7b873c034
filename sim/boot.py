"""Imports everything once, in the right order, in a worker process."""
import logging
import os
import sys
import warnings

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
_done = False


def boot(net=False):
    global _done
    if _done:
        return
    _done = True
    warnings.simplefilter('ignore')
    from sim import kernel, disk
    kernel.install()
    disk.install()
    logging.disable(logging.CRITICAL)
    sys.path.insert(0, REPO)
    import BTrees._OOBTree           # noqa
    import persistent.mapping        # noqa
    import persistent.list           # noqa
    import transaction               # noqa
    import ZODB                      # noqa
    import ZODB.FileStorage          # noqa
    import ZODB.MappingStorage       # noqa
    import ZODB.FileStorage.fspack   # noqa
    disk.install_zodb()
    import citrine.database.containerdb          # noqa
    import citrine.connection.container_connection   # noqa
    import citrine.connection.group_connection   # noqa
    import citrine.connection.connection         # noqa
    import citrine.persistence                   # noqa
    import citrine.storage.container             # noqa
    import citrine.cluster_tools.dbmodule.dbmodule   # noqa
    import citrine.cluster_tools.clusterdb.container  # noqa
    import citrine.cluster_tools.dbmodule.dbgroup    # noqa
    import citrine.exceptions                    # noqa
    import sim.values                            # noqa
    if net:
        import importlib
        for m in net:
            m = importlib.import_module(m)
            getattr(m, 'prepare', int)()
    logging.disable(logging.CRITICAL)
    for m in list(sys.modules.values()):
        if (getattr(m, '__file__', None) or '').startswith(REPO + '/'):
            # text hashes differently in every process
            m.__dict__.setdefault('hash', process_hash)


def process_hash(x):
    """hash() as the code under test sees it: salted per simulated process."""
    from sim import kernel
    h = hash(x)
    if kernel.SIM is not None and isinstance(x, (str, bytes)):
        return hash((h, kernel.SIM.phase, 7919))
    return h


def trace(instr=False):
    from sim import kernel
    return kernel.trace_lines((REPO + '/',), instr)
