"""Driving one assembler object inside the run's own process."""
import io
import os
import sys
from .backends import B
from .model import Model, text_of
from .world import Interrupt, EXCS
from . import project


class Out:
    exc = None
    fired = ()
    injected = None
    nopen = 0
    log = ()

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        return 'ok' if self.ok else '%s(%s)' % (type(self.exc).__name__, str(self.exc)[:150])


class Sess:
    def __init__(self, ctx, b, data=None):
        self.ctx, self.w = ctx, ctx.world
        self.b = B[b] if isinstance(b, str) else b
        self.data = {} if data is None else data
        self.asm = self.b.cls()()
        self.model = Model(self.b, self.content)

    def content(self, s):
        return project.value(self.b, s, self.data.get(s['f']))

    def call(self, fn, rules=(), inject=None, disk=False):
        """run fn with the simulated disk in place; never raises"""
        o = Out()
        sh = self.w.shim
        tr = None
        cap, old = io.StringIO(), sys.stdout
        if disk or rules:
            disk = True
            sh.reset()
            sh.begin(self.w.root)
            sh.rules(rules)
        if inject:
            tr = Interrupt(inject['nth'], EXCS[inject['exc']], entry=inject.get('entry', False))
        sys.stdout = cap
        try:
            if tr:
                sys.settrace(tr)
            try:
                o.value = fn()
            finally:
                if tr:
                    sys.settrace(None)
        except BaseException as e:      # whatever the code under test raises is an outcome
            o.exc = e
        finally:
            sys.stdout = old
            if disk:
                o.nopen = sh.nopen()
                sh.end()
                o.fired = sh.fired()
                o.log = sh.log()
                self.w.tally(rules, o.fired)
        o.out = cap.getvalue()
        if tr:
            o.injected, o.lines = tr.where, tr.count
            if tr.fired:
                self.w.count('interrupt:' + inject['exc'])
        return o

    def assemble(self, stmts, style=None, name=None, **k):
        text = stmts if isinstance(stmts, str) else text_of(self.b, stmts, style)
        return self.call(lambda: self.asm.assemble(text, name) if name else self.asm.assemble(text), **k)

    def link(self, linker=None, **k):
        return self.call(lambda: self.asm.link(linker) if linker else self.asm.link(), **k)

    def bytes(self):
        return bytes(self.asm.assembled_bytes)

    def labels(self):
        return {n: self.asm.get_label_absolute_address_by_name(n) for n in self.asm.labels}
