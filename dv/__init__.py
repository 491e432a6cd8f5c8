"""dv: a small deductive verifier for the real Python source in /repo (see DESIGN.md)."""
