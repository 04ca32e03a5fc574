"""Stands for gevent: sleep() only records that the scheduler was given a chance to run."""
sink = []


def sleep(seconds=0, ref=True):
    sink.append("yield" if seconds < 1 else "sleep")
