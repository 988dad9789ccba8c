"""A small deductive verifier for the Python subset used by pads."""
