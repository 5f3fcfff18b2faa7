------------------------------- MODULE TrSeg -------------------------------
EXTENDS Tr, Seg
=============================================================================
