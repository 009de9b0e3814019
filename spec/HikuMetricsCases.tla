--------------------------- MODULE HikuMetricsCases ---------------------------
EXTENDS HikuMetrics, HikuCases
BadCase(c) == BadMetrics(c)
=============================================================================
