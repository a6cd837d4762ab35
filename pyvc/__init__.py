"""pyvc: a small deductive verifier (VC generator) for the Python that runs in /repo.

See DESIGN.md for what it does, what it assumes and how it is validated."""
