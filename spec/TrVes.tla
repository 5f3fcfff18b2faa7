------------------------------- MODULE TrVes -------------------------------
EXTENDS Tr, Ves
=============================================================================
