"""Pushing: real daemons, judged by Sync.tla (PushBad)."""
import sync


def run(c):
    sync.check(c, "push")
