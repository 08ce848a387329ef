"""
Fault plans: what the simulator does at which storage step.  Plain data in, so that a plan can be stored in a replay file.

  {'t': 'crash', 'step': n, 'torn': f}                 the process dies before step n (after a part of the write at n)
  {'t': 'error', 'step': n, 'errno': e, 'torn': f, 'scope': s}
        step n fails with e, after a part of the data if torn is given.  Afterwards
        once   nothing more            burst  the next steps as well ('len' of them)
        path   that file from then on  disk   everything that needs space, from then on
        ro     everything that modifies the disk, from then on
  {'t': 'deny', 'step': n, 'secs': s, 'errno': e, 'wide': bool}
        deleting / replacing the path of step n (wide: anything in its folder) is denied for s simulated seconds
        (None: for ever)
  {'t': 'appear', 'step': n, 'foreign': bool}          somebody else creates the folder of this mkdir just before
"""
import os

from . import seams
from .seams import WRITE_KINDS, DELETE_KINDS

SPACE_KINDS = ('create', 'write', 'mkdir', 'truncate')
DENY_KINDS = DELETE_KINDS + ('rename',)


class Plan:
    def __init__(self, spec):
        self.s = spec
        self.hit = None          # (kind, path) of the step where it began
        self.t0 = None
        self.slept0 = 0.0
        self.denied = 0

    def _begin(self, sim, kind, rel):
        self.hit = (kind, rel)
        self.t0 = sim.mono
        self.slept0 = sim.slept

    def _fail(self, sim, kind, rel, data):
        torn = self.s.get('torn')
        if data is not None and torn is not None:
            data.partial(int(torn * data.size))
        name = self.s['errno']
        sim.fire('%s_%s%s' % (kind, name, '_short' if data is not None and torn else ''))
        sim.event('%s fails with %s' % (kind, name))
        raise seams._err(name, os.path.join(sim.root, rel))

    def at_step(self, sim, n, kind, rel, data):
        s, t = self.s, self.s['t']
        if t == 'crash':
            if n == s['step']:
                self._begin(sim, kind, rel)
                torn = s.get('torn')
                if data is not None and torn is not None:
                    data.partial(int(torn * data.size))
                    sim.do_crash('crash_torn_write')
                sim.do_crash('crash_before_' + kind)
        elif t == 'error':
            if self.hit is None:
                if n == s['step']:
                    self._begin(sim, kind, rel)
                    self._fail(sim, kind, rel, data)
                return
            sc = s.get('scope', 'once')
            if (sc == 'burst' and n < s['step'] + s.get('len', 3)) or \
                    (sc == 'path' and (kind, rel) == self.hit) or \
                    (sc == 'disk' and kind in SPACE_KINDS) or \
                    (sc == 'ro' and kind in WRITE_KINDS + DELETE_KINDS and kind != 'close'):
                self._fail(sim, kind, rel, data)
        elif t == 'deny':
            if self.hit is None:
                if n != s['step']:
                    return
                self._begin(sim, kind, rel)
            if kind not in DENY_KINDS or (kind == 'rename' and seams.actor() != 'bathygrid'):
                return
            p = os.path.dirname(self.hit[1]) if s.get('wide') else self.hit[1]
            if rel != p and not rel.startswith(p + os.sep):
                return
            if s['secs'] is not None and sim.mono >= self.t0 + s['secs']:
                return
            self.denied += 1
            self._fail(sim, kind, rel, None)
        elif t == 'appear':
            if n == s['step'] and kind == 'mkdir':
                self._begin(sim, kind, rel)
                p = os.path.join(sim.root, rel)
                if not os.path.exists(p):
                    seams.REAL['mkdir'](p)
                    sim.fire('folder_appears')
                    if s.get('foreign'):
                        with seams.REAL['open'](os.path.join(p, 'foreign.txt'), 'w') as f:
                            f.write('somebody else')
