"""pyvc: a small deductive verifier for the subset of Python that Tonnikala is written in.

The verified text is the AST of the functions in /repo, read again on every run.  See DESIGN.md.
"""
