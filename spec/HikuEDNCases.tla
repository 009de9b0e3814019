---------------------------- MODULE HikuEDNCases ------------------------------
EXTENDS HikuEDN, HikuCases
BadCase(c) == BadEDN(c)
=============================================================================
