---------------------------- MODULE HikuSQLCases ------------------------------
EXTENDS HikuSQL, HikuCases
BadCase(c) == BadSQL(c)
=============================================================================
