-------------------------- MODULE HikuNotationCases ---------------------------
EXTENDS HikuNotation, HikuCases
BadCase(c) == BadNotation(c)
=============================================================================
