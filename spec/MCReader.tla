------------------------------ MODULE MCReader ------------------------------
EXTENDS PerfReader
=============================================================================
