"""Argument types shared by the contracts."""
from pytket import Circuit, Qubit, Bit
from pydv.contract import *  # noqa
from pydv.contract import Opaque, Int, NTOf
from pydv.run import log  # noqa
from qermit.taskgraph.mittask import CircuitShots, AnsatzCircuit, ObservableExperiment  # noqa


def mk_circuit(k):
    return Circuit(1 + k % 3, name=f"c{k}").H(0)


CircuitT = Opaque("Circuit", mk_circuit, cls=Circuit)


def Shots(lo=1, hi=None):
    return NTOf(CircuitShots, CircuitT, Int(lo, hi))
