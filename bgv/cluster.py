"""Helpers for the checks that grid with a dask cluster of their own."""
import gc
import time


def settle(cluster, limit=20.0):
    """Wait until the scheduler has forgotten the data of the gridding before.

    Data that is sent to the workers has a name made from what is in it.  Gridding the same tiles again at once, while the release of the previous
    copy is still under way, is a race within dask, not one of bathygrid."""
    gc.collect()
    end = time.monotonic() + limit
    while cluster.scheduler.tasks and time.monotonic() < end:
        time.sleep(0.002)
