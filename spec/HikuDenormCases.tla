--------------------------- MODULE HikuDenormCases ----------------------------
EXTENDS HikuDenorm, HikuCases
BadCase(c) == BadDenorm(c)
=============================================================================
