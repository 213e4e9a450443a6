"""The allocator seam: numpy's data allocator replaced by simalloc.c (built on demand)."""

import ctypes
import hashlib
import os
import subprocess
import sys
import tempfile

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), "build")


def build():
    """Compile simalloc.c into /verif/build (ignored by git); returns the path of the library."""
    src = os.path.join(HERE, "simalloc.c")
    tag = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, f"simalloc-{tag}.so")
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        fd, tmp = tempfile.mkstemp(suffix=".so", dir=BUILD)
        os.close(fd)
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src], check=True)
        os.rename(tmp, out)
    return out


class Allocator:
    def __init__(self, path):
        lib = self.lib = ctypes.PyDLL(path)
        lib.sim_handler.restype = ctypes.c_void_p
        lib.sim_arm.argtypes = [ctypes.c_long, ctypes.c_long, ctypes.c_int]
        lib.sim_dirt.argtypes = [ctypes.c_double]
        for f in ("sim_disarm", "sim_counted", "sim_fired"):
            getattr(lib, f).restype = ctypes.c_long
        for f in ("sim_live_bytes", "sim_live_blocks", "sim_total_allocs"):
            getattr(lib, f).restype = ctypes.c_longlong
        py = ctypes.pythonapi
        py.PyCapsule_GetPointer.restype = ctypes.c_void_p
        py.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
        py.PyCapsule_New.restype = ctypes.py_object
        py.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        import numpy.core._multiarray_umath as mu

        api = ctypes.cast(
            py.PyCapsule_GetPointer(mu._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p)
        )
        # slot 304 of numpy's C API table: PyDataMem_SetHandler
        self._set = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(api[304])
        self._cap = py.PyCapsule_New(lib.sim_handler(), b"mem_handler", None)

    def install(self):
        """Use the simulated allocator in the calling thread (the setting is per context)."""
        self._set(self._cap)
        if np.core.multiarray.get_handler_name() != "pyotf_sim_allocator":
            raise RuntimeError("allocator seam is not active")

    def arm(self, nth, min_size=1, sticky=False):
        self.lib.sim_arm(int(nth), int(min_size), int(sticky))

    def disarm(self):
        fired = self.lib.sim_disarm()
        return fired, self.lib.sim_counted()

    def pause(self):
        return self.lib.sim_pause()

    def restore(self, was):
        self.lib.sim_restore(was)

    def dirt(self, value):
        """What memory contains before it is first written to."""
        self.lib.sim_dirt(float(value or 0))

    def live_bytes(self):
        return self.lib.sim_live_bytes()


if __name__ == "__main__":
    print(build())
    sys.exit(0)
