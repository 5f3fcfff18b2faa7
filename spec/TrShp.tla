------------------------------- MODULE TrShp -------------------------------
EXTENDS Tr, Shp
=============================================================================
