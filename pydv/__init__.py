"""pydv: deductive verification of real CPython functions by full-domain symbolic execution."""
