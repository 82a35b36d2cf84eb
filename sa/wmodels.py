"""Contracts of pyo3 operations that only generated code uses."""
import env, models
from models import *


@model('pyo3::types::any::PyAnyMethods::set_item', 'pyo3::types::dict::PyDictMethods::set_item')
def _(I, a, ref, rt):
    ev = I.event('setitem', '', (pobj(I, a[0]), I.freeze(a[1]), I.freeze(a[2])))
    return I.outcome(ev, UNIT)


def identity(I, a, ref, rt):
    return a[0]


@model('pyo3::conversion::IntoPy::into_py', 'pyo3::conversion::ToPyObject::to_object')
def _(I, a, ref, rt):
    # contract: the Python object of this very value (conversions of values are C20)
    v = I.deref(a[0])
    return v if isinstance(v, (Sym, str, int, float)) else I.freeze(v)


@model('pyo3::types::dict::PyDictMethods::copy', 'pyo3::types::dict::PyDict::copy')
def _(I, a, ref, rt):
    o = pobj(I, a[0])
    ev = I.event('dictcopy', '', (o,))
    n = len(I.path.events)
    return I.outcome(ev, lambda: S('dictcopy', o, n))


@model('pyo3::types::dict::PyDictMethods::update', 'pyo3::types::dict::PyDict::update')
def _(I, a, ref, rt):
    ev = I.event('dictupdate', '', (pobj(I, a[0]), pobj(I, a[1])))
    return I.outcome(ev, UNIT)
