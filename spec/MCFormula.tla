----------------------------- MODULE MCFormula ------------------------------
EXTENDS Formula
=============================================================================
