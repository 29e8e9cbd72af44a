"""Independent executable model of the dolfyn frames (geometry, not matrix tables).

Orientation is held as axes: for each sample, rows = the instrument's x, y, z axes
expressed in earth (E, N, U) coordinates; so  earth = sum_i v_i * axis_i."""
import numpy as np


def axes_x_heading(h, p, r):
    """Convention of Nortek instruments and of dolfyn's own Euler angles: the x axis
    points to heading h (cw from N), pitched up by p; roll is right-handed about x."""
    h, p, r = (np.deg2rad(np.asarray(a, float)) for a in (h, p, r))
    x = np.array([np.sin(h) * np.cos(p), np.cos(h) * np.cos(p), np.sin(p)])
    y0 = np.array([-np.cos(h), np.sin(h), np.zeros_like(h)])
    z0 = np.cross(x, y0, axis=0)
    y = np.cos(r) * y0 + np.sin(r) * z0
    z = -np.sin(r) * y0 + np.cos(r) * z0
    return np.array([x, y, z])


def axes_y_heading(h, p, r):
    """TRDI: the y axis (beam 3) points to heading h pitched up by p; roll right-handed about y."""
    h, p, r = (np.deg2rad(np.asarray(a, float)) for a in (h, p, r))
    y = np.array([np.sin(h) * np.cos(p), np.cos(h) * np.cos(p), np.sin(p)])
    x0 = np.array([np.cos(h), -np.sin(h), np.zeros_like(h)])
    z0 = np.cross(x0, y, axis=0)
    x = np.cos(r) * x0 - np.sin(r) * z0
    z = np.sin(r) * x0 + np.cos(r) * z0
    return np.array([x, y, z])


def family(ds):
    m = ('%s %s' % (ds.attrs['inst_make'], ds.attrs['inst_model'])).lower()
    if 'rdi' in m:
        return 'rdi'
    if 'signature' in m or 'ad2cp' in m:
        return 'signature'
    return 'awac' if 'awac' in m else 'vector'


def axes(ds):
    """Instrument axes implied by a dataset (orientmat if stored, else the angles)."""
    if 'orientmat' in ds:
        return np.asarray(ds['orientmat'].values, float)
    h, p, r = (np.asarray(ds[k].values, float) for k in ('heading', 'pitch', 'roll'))
    fam = family(ds)
    if fam == 'rdi':
        p = np.rad2deg(np.arctan(np.tan(np.deg2rad(p)) * np.cos(np.deg2rad(r))))
        if ds.attrs['orientation'] == 'up':
            r = r + 180
        if ds.attrs['coord_sys'] == 'ship' and ds.attrs['use_pitchroll'] == 'yes':
            r, p = r * 0, p * 0
        return axes_y_heading(h, p, r)
    if fam == 'vector' and 'orientation_down' in ds:
        r = r + 180. * ds['orientation_down'].values.astype(bool)
    return axes_x_heading(h, p, r)


def _exp(a, nd):
    """(3,3,nt) axes element broadcast against (..., nt): nothing to do (time is last)."""
    return a


def to_earth(ds, v, ax=None):
    A = axes(ds) if ax is None else ax
    fam = family(ds)
    v = np.asarray(v, float).copy()
    n = v.shape[0]
    if fam == 'signature' and ds.attrs['orientation'] == 'down':
        v[1:] = -v[1:]
    if fam == 'signature' and n == 4:
        z = (v[2] + v[3]) / 2
        out = np.empty_like(v)
        for e in (0, 1):
            out[e] = v[0] * A[0, e] + v[1] * A[1, e] + z * A[2, e]
        for e in (2, 3):
            out[e] = v[0] * A[0, 2] + v[1] * A[1, 2] + v[e] * A[2, 2]
        return out
    out = v.copy()
    for e in range(3):
        out[e] = v[0] * A[0, e] + v[1] * A[1, e] + v[2] * A[2, e]
    return out


def beam_to_inst(ds, v):
    B = np.asarray(ds['beam2inst_orientmat'].values, float)
    v = np.asarray(v, float)
    out = np.zeros_like(v)
    for i in range(B.shape[0]):
        for j in range(B.shape[1]):
            out[i] = out[i] + B[i, j] * v[j]
    return out


def to_principal(v, heading):
    """Horizontal plane turned so that 'streamwise' points along `heading` (cw from N)."""
    h = np.deg2rad(heading)
    v = np.asarray(v, float)
    out = v.copy()
    s = np.array([np.sin(h), np.cos(h)])        # streamwise unit vector in (E, N)
    x = np.array([-np.cos(h), np.sin(h)])       # 90 deg ccw from it
    out[0] = v[0] * s[0] + v[1] * s[1]
    out[1] = v[0] * x[0] + v[1] * x[1]
    return out
