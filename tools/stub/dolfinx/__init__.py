"""A small serial one-dimensional stand-in for dolfinx 0.6, enough to run dxss on interval meshes (demonstrations only)."""
__version__ = "0.6.0"
