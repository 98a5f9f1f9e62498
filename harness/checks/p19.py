"""Pulling: real daemons, judged by Sync.tla (PullBad)."""
import sync


def run(c):
    sync.check(c, "pull")
