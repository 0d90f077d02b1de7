"""A real BinaryPopulation whose evolution steps are scripted."""
import numpy as np

from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.popsyn.binarypopulation import BinaryPopulation
from posydon.utils.posydonerror import FlowError, MatchingError
from posydon.utils.posydonwarning import Pwarn

MS = 'H-rich_Core_H_burning'
NAMES = ['step_HMS_HMS', 'step_CO_HeMS', 'step_CO_HMS_RLO',
         'step_CO_HeMS_RLO', 'step_detached', 'step_disrupted', 'step_merged',
         'step_initially_single', 'step_dco', 'step_SN', 'step_CE', 'step_end']

OUTCOMES = ['ok', 'failed', 'boom', 'posydonerr', 'flow', 'warn', 'late',
            'ragged']


class Stub:
    DEFAULT_KWARGS = {}

    def __init__(self, plan=None, log=None, **kw):
        self.plan = plan if plan is not None else {}
        self.log = log

    def __call__(self, binary):
        what = self.plan.get(int(binary.index), 'ok')
        if self.log is not None:
            self.log.append((int(binary.index), binary.event))
        if binary.event == 'ZAMS':
            # an intermediate, index dependent state
            binary.time = binary.time + 10.0
            binary.star_1.mass = binary.star_1.mass * 0.9
            binary.orbital_period = (binary.orbital_period or 0) * 1.5
            if what == 'boom':
                raise RuntimeError("scripted crash of %d" % binary.index)
            if what == 'posydonerr':
                raise MatchingError("scripted matching failure")
            if what == 'ragged':
                # dies in the middle of recording intermediate rows
                binary.time_history.append(binary.time)
                binary.star_1.mass_history.append(binary.star_1.mass)
                raise ValueError("died while recording")
            if what == 'nullv':
                # dies after its properties were cleared for the update
                binary.V_sys = None
                binary.nearest_neighbour_distance = None
                raise ValueError("died during the update")
            if what == 'warn':
                Pwarn("scripted warning", "EvolutionWarning")
            if what == 'failed':
                binary.event = 'FAILED'
                return
            if what == 'flow':
                binary.state, binary.event = 'contact', 'oRLO1'
                return
            binary.state, binary.event = 'detached', 'maxtime'
            return
        if what == 'late':
            raise RuntimeError("late crash of %d" % binary.index)
        binary.time = binary.time + 5.0
        binary.star_2.mass = 1.25 if what != 'x' else 1.0
        binary.event = 'END'


def flow():
    f = {}
    for b in ('detached', 'initially_single_star'):
        for s2 in (MS, 'massless_remnant'):
            f[(MS, s2, b, 'ZAMS')] = 'step_HMS_HMS'
            f[(MS, s2, b, 'maxtime')] = 'step_end'
    return f


def make_props(plan, log=None):
    kw = {n: (Stub, {'plan': plan, 'log': log}) for n in NAMES}
    return SimulationProperties(flow=(flow, {}), **kw)


SEL = {'only_select_columns': ['state', 'event', 'time', 'orbital_period',
                               'eccentricity'],
       'S1_kwargs': {'only_select_columns': ['state', 'mass'],
                     'scalar_names': ['natal_kick_velocity', 'SN_type']},
       'S2_kwargs': {'only_select_columns': ['state', 'mass']},
       'include_S1': True, 'include_S2': True}


def make_pop(plan, n, entropy=42, log=None, select=True, **kw):
    args = dict(number_of_binaries=n, entropy=entropy, metallicity=1.0,
                metallicities=[1.0], star_formation='burst',
                population_properties=make_props(plan, log))
    if select:
        args.update(SEL)
    args.update(kw)
    pop = BinaryPopulation(**args)
    return pop


def frame_dict(df):
    """A table as {column: list}, with its index, in canonical python types."""
    import pandas as pd
    out = {'__index__': [int(i) for i in df.index]}
    for c in df.columns:
        col = []
        for v in df[c]:
            if v is None or (not isinstance(v, str) and pd.isna(v)) or \
                    v in ('nan', 'None', '<NA>'):
                col.append(None)
            elif isinstance(v, str):
                col.append(v)
            else:
                col.append(round(float(v), 9) if float(v) == float(v)
                           else None)
        out[str(c)] = col
    return out
