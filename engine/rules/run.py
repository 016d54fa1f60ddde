"""Dispatcher used by /verif/check.py"""
from rules.base import *
import rules.prog
import rules.queue
import rules.vrf
import rules.sdk
import rules.cli
import rules.oracle
import rules.secrets
def run(pid, ctx=None):
    ctx = ctx or Ctx(pid)
    for f, doc in RULES[pid]: f(ctx)
    return ctx
