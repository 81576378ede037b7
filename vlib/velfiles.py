"""Writers of velocity-model files (independent of the code under test)."""
import contextlib, os, shutil, tempfile
import numpy as np


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vf-", dir=os.environ.get("VERIF_WORK"))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write_bin(path, arr, axes_order, sort, byte_order, dtype):
    """arr[z, x, y] with the first file depth first. Logical axis l is stored as file axis axes_order[l]."""
    nz, nx, ny = arr.shape
    A = np.moveaxis(arr, (0, 1, 2), axes_order)
    flat = A.ravel(order=sort).astype(np.dtype(dtype).newbyteorder(">" if byte_order == "big" else "<"))
    with open(path, "wb") as f:
        f.write(flat.tobytes())
    return dict(nz=nz, nx=nx, ny=ny, byte_order=byte_order, axes_order=axes_order, axes_order_sort=sort, dtype=dtype)


def write_segy(path, arr, fmt=5):
    import segyio
    nz, nx = arr.shape
    spec = segyio.spec()
    spec.sorting = None
    spec.format = fmt
    spec.samples = np.arange(nz) * 4.0
    spec.tracecount = nx
    with segyio.create(path, spec) as f:
        for i in range(nx):
            f.header[i] = {segyio.su.tracl: i + 1, segyio.su.ns: nz}
            f.trace[i] = np.ascontiguousarray(arr[:, i], dtype=np.float32)
        f.bin.update(hns=nz, hdt=4000, format=fmt)
