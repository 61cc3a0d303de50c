"""cysym: symbolic execution of cosmic_profiles' real (Python and Cython) source with z3."""
