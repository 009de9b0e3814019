--------------------------- MODULE HikuGraphsCases ----------------------------
EXTENDS HikuGraphs, HikuCases
BadCase(c) == BadGraph(c)
=============================================================================
