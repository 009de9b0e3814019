-------------------------- MODULE HikuExprTypesCases --------------------------
EXTENDS HikuCases
M == INSTANCE HikuExprTypes
BadCase(c) == M!BadExpr(c)
=============================================================================
