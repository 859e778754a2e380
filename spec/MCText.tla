------------------------------ MODULE MCText -------------------------------
EXTENDS Text
=============================================================================
