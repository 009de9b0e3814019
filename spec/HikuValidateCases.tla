-------------------------- MODULE HikuValidateCases ---------------------------
EXTENDS HikuValidate, HikuCases
BadCase(c) == BadValidate(c)
=============================================================================
