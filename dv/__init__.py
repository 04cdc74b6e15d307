"""dv: deductive verification of acaciamc's real Python code.

See /verif/DESIGN.md.  The package contains the symbolic execution engine
(sym), the specification of the Minecraft command language (mc), the
contract harnesses (contracts_*) and the bounded stand-ins (bounded_*).
"""
