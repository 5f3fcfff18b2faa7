------------------------------- MODULE TrPoly -------------------------------
EXTENDS Tr, Poly
=============================================================================
