------------------------------- MODULE TrPts -------------------------------
EXTENDS Tr, Pts
=============================================================================
