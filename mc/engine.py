"""Closing the evolution engine with scripted steps.

The real BinaryStar / SimulationProperties code runs; only the physics steps
and the flow chart are replaced by a tiny scripted environment whose answers
(which total state a step leaves the binary in, whether it raises, times out,
records extra history rows) are chosen by the explorer.
"""
import signal

import numpy as np

from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.simulationproperties import (EvolveHooks,
                                                      SimulationProperties,
                                                      StepNamesHooks,
                                                      TimingHooks)
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar

MS = 'H-rich_Core_H_burning'
HE = 'stripped_He_Core_He_burning'
# total states of the closed system
A = (MS, MS, 'detached', 'ZAMS')
B = (MS, HE, 'detached', None)
C = (HE, HE, 'RLO1', 'oRLO1')
RD = (MS, MS, 'detached', 'redirect_from_ZAMS')
RD2 = (MS, 'BH', 'detached', 'redirect_from_CO_HMS_RLO')
DEADNAME = (HE, MS, 'RLO2', 'oRLO2')
UNMAPPED = (HE, MS, 'contact', 'oCE1')
UNDEF = ('BH', MS, 'detached', 'CC2')
UNDEF2 = ('WD', MS, 'disrupted', 'CC2')
FAILED = (MS, MS, 'detached', 'FAILED')
END = (MS, HE, 'disrupted', 'END')
USER_END_EVENT = (MS, HE, 'detached', 'CO_contact')
USER_END_STATE = (HE, HE, 'merged', 'oMerging1')
FLOW = {A: 'step_HMS_HMS', B: 'step_detached', C: 'step_CO_HMS_RLO',
        RD: 'step_detached', RD2: 'step_SN', DEADNAME: 'step_not_there',
        USER_END_EVENT: 'step_dco', USER_END_STATE: 'step_merged'}
TARGETS = {'A': A, 'B': B, 'C': C, 'RD': RD, 'RD2': RD2, 'END': END,
           'FAILED': FAILED, 'DEADNAME': DEADNAME, 'UNMAPPED': UNMAPPED,
           'UNDEF': UNDEF, 'UNDEF2': UNDEF2, 'UEE': USER_END_EVENT,
           'UES': USER_END_STATE}
STEP_NAMES = sorted(set(FLOW.values()) - {'step_not_there'})


class StepBoom(Exception):
    """The scripted failure of a step."""


class Script:
    """Environment: hands out the scripted answers and logs the calls."""

    def __init__(self, choices):
        self.choices = list(choices)
        self.pos = 0
        self.log = []
        self.snaps = []
        self.timers = []
        self.extra_rows = []

    def next(self):
        c = self.choices[self.pos]
        self.pos += 1
        return c


def snapshot(binary):
    d = {p: getattr(binary, p) for p in BINARYPROPERTIES}
    s1 = {p: getattr(binary.star_1, p) for p in STARPROPERTIES}
    s2 = {p: getattr(binary.star_2, p) for p in STARPROPERTIES}
    return [d, s1, s2]


STRINGS = ('state', 'event', 'mass_transfer_case', 'profile')


def variant(tag, k, v):
    """A fresh value, with the unset kinds mixed in along the rows."""
    return {1: None, 3: float('nan'), 5: 0.0}.get((tag // 10 + tag + k) % 7, v)


def stamp(binary, tag):
    """Give every property of binary and stars a distinct fresh value."""
    for k, p in enumerate(BINARYPROPERTIES):
        if p in ('state', 'event'):
            continue
        if p == 'mass_transfer_case':
            v = 'case_%d' % tag
        elif p in ('V_sys', 'nearest_neighbour_distance'):
            v = [tag + 0.1 * j + 0.001 * k for j in range(3)]
            if p == 'V_sys':
                v = np.array(v)
        elif p == 'time':
            v = float(tag)
        else:
            v = variant(tag, k, tag + 0.001 * k)
        setattr(binary, p, v)
    for n, star in ((1, binary.star_1), (2, binary.star_2)):
        for k, p in enumerate(STARPROPERTIES):
            if p == 'state':
                continue
            v = 'p%d_%d' % (n, tag) if p == 'profile' else \
                variant(tag, k + n, 1000. * n + tag + 0.001 * k)
            setattr(star, p, v)


def set_total(binary, total):
    (binary.star_1.state, binary.star_2.state, binary.state,
     binary.event) = total


class ScriptedStep:
    """One evolution step whose effect is the next answer of the script."""

    DEFAULT_KWARGS = {}

    def __init__(self, name=None, script=None):
        self.name = name
        self.script = script

    def __call__(self, binary):
        S = self.script
        left = signal.getitimer(signal.ITIMER_REAL)[0]
        S.timers.append(left)
        S.log.append(('step', self.name, binary.get_total_state(),
                      len(binary.state_history)))
        c = S.next()
        extra = 0
        if isinstance(c, (list, tuple)):
            c, extra = c
        tag = S.pos * 10
        for k in range(extra):
            # steps such as detached/MESA record intermediate rows themselves
            stamp(binary, tag + 1 + k)
            binary.state = 'detached'
            binary.event = None
            for p in BINARYPROPERTIES:
                getattr(binary, p + '_history').append(getattr(binary, p))
            for st in (binary.star_1, binary.star_2):
                for p in STARPROPERTIES:
                    getattr(st, p + '_history').append(getattr(st, p))
            S.extra_rows.append((S.pos, snapshot(binary)))
        if c == 'RAISE':
            stamp(binary, tag)
            raise StepBoom("scripted")
        if c == 'TIMEOUT':
            stamp(binary, tag)
            signal.raise_signal(signal.SIGALRM)
            raise AssertionError("the time limit signal was ignored")
        if c == 'SLOWA':      # uses up most of the allotted time, then goes on
            signal.alarm(3)
            c = 'A'
        stamp(binary, tag)
        set_total(binary, TARGETS[c])
        S.snaps.append(snapshot(binary))


class LogHooks(EvolveHooks):
    """Records the order of all hook calls."""

    def __init__(self, script=None, ident=None):
        self.script = script
        self.ident = ident

    def _l(self, what, binary, name=None):
        self.script.log.append((what, self.ident, name,
                                binary.get_total_state(),
                                len(binary.state_history)))

    def pre_evolve(self, binary):
        self._l('pre_evolve', binary)
        return binary

    def pre_step(self, binary, step_name):
        self._l('pre_step', binary, step_name)
        return binary

    def post_step(self, binary, step_name):
        self._l('post_step', binary, step_name)
        return binary

    def post_evolve(self, binary):
        self._l('post_evolve', binary)
        return binary


class StarColHooks(EvolveHooks):
    """A user hook with an extra star column and an extra binary column."""

    def __init__(self):
        self.extra_star_col_names = ["my_star_col"]
        self.extra_binary_col_names = ["my_bin_col"]

    def pre_evolve(self, binary):
        for st in (binary.star_1, binary.star_2):
            if not hasattr(st, 'my_star_col'):
                st.my_star_col = [-1]
        if not hasattr(binary, 'my_bin_col'):
            binary.my_bin_col = [-1]
        return binary

    def post_step(self, binary, step_name):
        n = len(binary.event_history)
        for st in (binary.star_1, binary.star_2):
            while len(st.my_star_col) < n:
                st.my_star_col.append(len(st.my_star_col))
        while len(binary.my_bin_col) < n:
            binary.my_bin_col.append(len(binary.my_bin_col))
        return binary


def make_properties(script, hooks=('log',), flow=None, **kw):
    """A real SimulationProperties object with scripted steps."""
    eh = []
    for h in hooks:
        if h == 'log':
            eh.append((LogHooks, {'script': script, 'ident': 'h1'}))
        elif h == 'log2':
            eh.append((LogHooks, {'script': script, 'ident': 'h2'}))
        elif h == 'names':
            eh.append((StepNamesHooks, {}))
        elif h == 'times':
            eh.append((TimingHooks, {}))
        elif h == 'cols':
            eh.append((StarColHooks, {}))
        elif h == 'funcs':
            for w in ('extra_pre_evolve', 'extra_post_evolve'):
                eh.append((w, lambda b, w=w: script.log.append(
                    (w[6:], 'f', None, b.get_total_state(),
                     len(b.state_history)))))
            for w in ('extra_pre_step', 'extra_post_step'):
                eh.append((w, lambda b, n, w=w: script.log.append(
                    (w[6:], 'f', n, b.get_total_state(),
                     len(b.state_history)))))
    the_flow = dict(FLOW if flow is None else flow)
    # NullStep attributes are not loaded: give only the steps that exist
    prop = SimulationProperties(flow=(lambda: the_flow, {}), extra_hooks=eh,
                                **kw)
    prop.flow = the_flow
    for n in STEP_NAMES:
        setattr(prop, n, ScriptedStep(n, script))
    return prop


def make_binary(prop, total=A, time=0.0, **kw):
    s1 = SingleStar(mass=10.0, state=total[0])
    s2 = SingleStar(mass=5.0, state=total[1])
    b = BinaryStar(star_1=s1, star_2=s2, index=7, state=total[2],
                   event=total[3], time=time, orbital_period=10.0,
                   eccentricity=0.0, properties=prop, **kw)
    return b
