"""xarray with symbolic arrays: the real package, whose DataArrays may hold symbols."""
import numpy as np

from . import arr
from .arr import SA
from .sym import Sym, SymBool

_done = []


def install():
    """Lets the real xarray hold symbolic arrays (in this process only); returns the module."""
    import xarray as xr
    if _done:
        return xr
    _done.append(1)
    from xarray.core import variable
    real = variable.as_compatible_data

    def as_compatible_data(data, fastpath=False):
        if type(data) in (Sym, SymBool):        # what a reduction gives
            a = np.empty((), object)
            a[()] = data
            return arr.sa(a, np.float64 if type(data) is Sym else np.bool_)
        return data if isinstance(data, SA) else real(data, fastpath)
    variable.as_compatible_data = as_compatible_data
    values = variable.Variable.values
    variable.Variable.values = property(lambda self: self._data if isinstance(self._data, SA) else values.fget(self), values.fset)
    for cls in (xr.DataArray,):
        cls.interp = _interp(xr, cls.interp)
    return xr


def _interp(xr, real):
    def interp(self, *args, **kw):
        d = self.data
        if not isinstance(d, SA):
            return real(self, *args, **kw)
        ms = arr.monomials(d) or [()]
        a = xr.DataArray(arr.slabs(d, ms), dims=('vp_symbol',) + tuple(self.dims), coords=self.coords, name=self.name)
        r = real(a, *args, **kw)
        r = r.transpose('vp_symbol', ...)
        out = arr.assemble(ms, np.asarray(r.data), d.dtype)
        return r.isel(vp_symbol=0, drop=True).copy(data=out)
    return interp
